//! Empty stand-in: only test code uses this crate.
