#[macro_export]
macro_rules! ensure {
    ($cond:expr, $msg:expr $(,)*) => { if !$cond { return Err($msg.to_string()); } };
    ($cond:expr, $msg:expr, $($arg:tt)*) => { if !$cond { return Err(format!($msg, $($arg)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($lhs:expr, $rhs:expr, $msg:expr $(, $args:expr)* $(,)*) => {
        if $lhs != $rhs {
            return Err(format!("{} ({:?}) != {} ({:?}): {}", std::stringify!($lhs), $lhs, std::stringify!($rhs), $rhs, format!($msg $(,$args)*)));
        }
    };
    ($lhs:expr, $rhs:expr $(,)*) => {
        if $lhs != $rhs {
            return Err(format!("{} ({:?}) != {} ({:?})", std::stringify!($lhs), $lhs, std::stringify!($rhs), $rhs));
        }
    };
}
