//! Stand-in for if_rust_version: the toolchain is newer than every version asked for.
#[macro_export]
macro_rules! if_rust_version {
    (>= $v:tt { $($a:tt)* } else { $($b:tt)* }) => { $($a)* };
}
