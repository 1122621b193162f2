//! Errors without backtraces or colours.
pub use eyre::{Report, Result};
pub fn install() -> Result<()> {
    Ok(())
}
pub mod eyre {
    use std::error::Error;
    use std::fmt::{Debug, Display, Formatter};
    pub use crate::{bail, ensure, eyre};
    pub type Result<T, E = Report> = core::result::Result<T, E>;
    pub struct Report(String, Option<Box<dyn Error + Send + Sync>>);
    impl Report {
        pub fn msg(m: impl Display) -> Self {
            Report(m.to_string(), None)
        }
        pub fn new<E: Error + Send + Sync + 'static>(e: E) -> Self {
            Report(String::new(), Some(Box::new(e)))
        }
        pub fn wrap_err(self, _: impl Display) -> Self {
            self
        }
        pub fn downcast_ref<E: Error + 'static>(&self) -> Option<&E> {
            self.1.as_ref().and_then(|e| e.downcast_ref())
        }
        pub fn root_cause(&self) -> Option<&(dyn Error + Send + Sync)> {
            self.1.as_deref()
        }
    }
    impl<E: Error + Send + Sync + 'static> From<E> for Report {
        fn from(e: E) -> Self {
            Report::new(e)
        }
    }
    impl Debug for Report {
        fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
            f.write_str("report")
        }
    }
    impl Display for Report {
        fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
            f.write_str("report")
        }
    }
    pub trait WrapErr<T> {
        fn wrap_err<D: Display>(self, m: D) -> Result<T>;
        fn wrap_err_with<D: Display>(self, m: impl FnOnce() -> D) -> Result<T>;
        fn context<D: Display>(self, m: D) -> Result<T>;
        fn with_context<D: Display>(self, m: impl FnOnce() -> D) -> Result<T>;
    }
    pub use WrapErr as Context;
    impl<T, E: Into<Report>> WrapErr<T> for core::result::Result<T, E> {
        fn wrap_err<D: Display>(self, _: D) -> Result<T> {
            self.map_err(Into::into)
        }
        fn wrap_err_with<D: Display>(self, _: impl FnOnce() -> D) -> Result<T> {
            self.map_err(Into::into)
        }
        fn context<D: Display>(self, _: D) -> Result<T> {
            self.map_err(Into::into)
        }
        fn with_context<D: Display>(self, _: impl FnOnce() -> D) -> Result<T> {
            self.map_err(Into::into)
        }
    }
    pub trait OptionExt<T> {
        fn ok_or_eyre<D: Display>(self, m: D) -> Result<T>;
    }
    impl<T> OptionExt<T> for Option<T> {
        fn ok_or_eyre<D: Display>(self, m: D) -> Result<T> {
            self.ok_or_else(|| Report::msg(m))
        }
    }
}
#[macro_export]
macro_rules! eyre { ($($t:tt)*) => { $crate::eyre::Report::msg(format!($($t)*)) } }
#[macro_export]
macro_rules! bail { ($($t:tt)*) => { return Err($crate::eyre!($($t)*)) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { $crate::bail!($($t)*) } } }
