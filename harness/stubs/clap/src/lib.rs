//! A stand-in for clap: the command line is what the harness says it is.
pub use clapmacros::*;
pub trait Parser: Sized {
    fn take(w: &mut stub::Words) -> Self;
    fn parse() -> Self {
        Self::take(&mut stub::words())
    }
}
pub trait Subcommand: Sized {
    fn take(w: &mut stub::Words) -> Self;
}
pub trait Args: Sized {
    fn take(w: &mut stub::Words) -> Self;
}
pub mod stub {
    use std::str::FromStr;
    pub struct Words(Vec<String>);
    static mut WORDS: Vec<String> = Vec::new();
    pub fn command_line(w: &[&str]) {
        unsafe { *std::ptr::addr_of_mut!(WORDS) = w.iter().map(|s| s.to_string()).collect() }
    }
    pub fn words() -> Words {
        Words(unsafe { (*std::ptr::addr_of!(WORDS)).clone() })
    }
    pub fn wrong() -> ! {
        panic!("the command line was not understood")
    }
    impl Words {
        pub fn word<T: FromStr>(&mut self) -> T {
            if self.0.is_empty() {
                wrong();
            }
            self.0.remove(0).parse().unwrap_or_else(|_| wrong())
        }
        fn find(&mut self, long: &str, short: &str) -> Option<usize> {
            let i = self.0.iter().position(|w| !w.is_empty() && (w == long || w == short))?;
            self.0.remove(i);
            Some(i)
        }
    }
    pub trait Named: Sized {
        fn take(w: &mut Words, long: &str, short: &str) -> Self;
    }
    impl Named for bool {
        fn take(w: &mut Words, long: &str, short: &str) -> Self {
            w.find(long, short).is_some()
        }
    }
    impl<T: FromStr> Named for Option<T> {
        fn take(w: &mut Words, long: &str, short: &str) -> Self {
            let i = w.find(long, short)?;
            w.0.remove(i).parse().ok()
        }
    }
}
