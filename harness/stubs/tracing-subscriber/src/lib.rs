pub struct Registry;
pub fn registry() -> Registry {
    Registry
}
pub struct EnvFilter;
impl EnvFilter {
    pub fn from_default_env() -> Self {
        EnvFilter
    }
    pub fn new(_: impl AsRef<str>) -> Self {
        EnvFilter
    }
    pub fn try_from_default_env() -> Result<Self, std::fmt::Error> {
        Ok(EnvFilter)
    }
}
pub mod fmt {
    pub struct Layer;
    impl Layer {
        pub fn json(self) -> Self {
            self
        }
        pub fn pretty(self) -> Self {
            self
        }
    }
    pub fn layer() -> Layer {
        Layer
    }
    pub fn init() {}
}
pub mod layer {
    pub trait SubscriberExt: Sized {
        fn with<T>(self, _: T) -> Self {
            self
        }
    }
    impl SubscriberExt for super::Registry {}
}
pub mod util {
    pub trait SubscriberInitExt: Sized {
        fn init(self) {}
        fn try_init(self) -> Result<(), std::fmt::Error> {
            Ok(())
        }
    }
    impl SubscriberInitExt for super::Registry {}
}
pub mod prelude {
    pub use crate::{layer::SubscriberExt, util::SubscriberInitExt};
}
