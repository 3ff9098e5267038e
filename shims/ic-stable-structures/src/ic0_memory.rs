use crate::Memory;

unsafe fn stable64_size() -> u64 { ic_host::stable64_size() as u64 }
unsafe fn stable64_grow(n: u64) -> i64 { ic_host::stable64_grow(n as i64) }
unsafe fn stable64_read(dst: u64, offset: u64, size: u64) { ic_host::stable64_read(dst as i64, offset as i64, size as i64) }
unsafe fn stable64_write(offset: u64, src: u64, size: u64) { ic_host::stable64_write(offset as i64, src as i64, size as i64) }

#[derive(Clone, Copy, Default)]
pub struct Ic0StableMemory;

impl Memory for Ic0StableMemory {
    fn size(&self) -> u64 {
        // SAFETY: This is safe because of the ic0 api guarantees.
        unsafe { stable64_size() }
    }

    fn grow(&self, pages: u64) -> i64 {
        // SAFETY: This is safe because of the ic0 api guarantees.
        unsafe { stable64_grow(pages) }
    }

    fn read(&self, offset: u64, dst: &mut [u8]) {
        // SAFETY: This is safe because of the ic0 api guarantees.
        unsafe { stable64_read(dst.as_ptr() as u64, offset, dst.len() as u64) }
    }

    fn write(&self, offset: u64, src: &[u8]) {
        // SAFETY: This is safe because of the ic0 api guarantees.
        unsafe { stable64_write(offset, src.as_ptr() as u64, src.len() as u64) }
    }
}
