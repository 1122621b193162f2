//! `std` with maps and sets whose hashing is simple (that of the stand-in for
//! foldhash), as SipHash of free bytes is out of the solver's reach.
#![no_std]
extern crate std as real;
pub use real::*;
pub mod collections {
    pub use hashbrown::{HashMap, HashSet};
    pub use real::collections::*;
    pub mod hash_map {
        pub use hashbrown::hash_map::*;
        pub use real::collections::hash_map::{DefaultHasher, RandomState};
    }
    pub mod hash_set {
        pub use hashbrown::hash_set::*;
    }
}
/// Files in memory, as for tokio.
pub mod fs {
    pub use tokio::fs::blocking::*;
}

pub mod process {
    pub use real::process::*;
    static mut LAST: Option<fn(i32)> = None;
    /// What happens when the process ends itself.
    pub fn at_exit(f: fn(i32)) {
        unsafe { LAST = Some(f) }
    }
    pub fn exit(code: i32) -> ! {
        if let Some(f) = unsafe { LAST } {
            f(code)
        }
        real::process::abort()
    }
}
/// What is printed is kept.
pub mod printed {
    use real::fmt::{Arguments, Write};
    use real::string::String;
    static mut OUT: String = String::new();
    pub fn put(a: Arguments<'_>) {
        let _ = unsafe { &mut *real::ptr::addr_of_mut!(OUT) }.write_fmt(a);
    }
    pub fn take() -> String {
        real::mem::take(unsafe { &mut *real::ptr::addr_of_mut!(OUT) })
    }
}
#[macro_export]
macro_rules! print {
    ($($t:tt)*) => { $crate::printed::put($crate::format_args!($($t)*)) };
}
#[macro_export]
macro_rules! println {
    () => { $crate::printed::put($crate::format_args!("\n")) };
    ($($t:tt)*) => {{ $crate::printed::put($crate::format_args!($($t)*)); $crate::printed::put($crate::format_args!("\n")) }};
}
#[macro_export]
macro_rules! eprint {
    ($($t:tt)*) => {{ let _ = $crate::format_args!($($t)*); }};
}
#[macro_export]
macro_rules! eprintln {
    ($($t:tt)*) => {{ let _ = $crate::format_args!($($t)*); }};
}
pub mod prelude {
    macro_rules! editions {
        ($($n:ident)*) => { $(pub mod $n {
            pub use crate::{eprint, eprintln, print, println};
            pub use real::prelude::$n::*;
        })* };
    }
    editions!(v1 rust_2015 rust_2018 rust_2021 rust_2024);
}
