//! Minimal dlopen binding used for libz3 and libLLVM.
use std::ffi::{c_char, c_int, c_void, CString};
extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}
pub struct Lib(*mut c_void, String);
impl Lib {
    pub fn open(paths: &[String]) -> Lib {
        for p in paths {
            let c = CString::new(p.as_str()).unwrap();
            let h = unsafe { dlopen(c.as_ptr(), 2) };
            if !h.is_null() {
                return Lib(h, p.clone());
            }
        }
        eprintln!("engine: cannot load any of {paths:?}");
        std::process::exit(3);
    }
    pub fn path(&self) -> &str {
        &self.1
    }
    pub fn sym(&self, n: &str) -> *mut c_void {
        let c = CString::new(n).unwrap();
        let p = unsafe { dlsym(self.0, c.as_ptr()) };
        if p.is_null() {
            eprintln!("engine: missing symbol {n}");
            std::process::exit(3);
        }
        p
    }
}
#[macro_export]
macro_rules! dlapi {
    ($st:ident { $(fn $n:ident($($a:ty),*) $(-> $r:ty)?;)* }) => {
        #[allow(non_snake_case, dead_code)]
        pub struct $st { $(pub $n: unsafe extern "C" fn($($a),*) $(-> $r)?,)* }
        impl $st {
            pub fn load(l: &$crate::dl::Lib) -> $st {
                unsafe { $st { $($n: std::mem::transmute(l.sym(stringify!($n))),)* } }
            }
        }
    };
}
