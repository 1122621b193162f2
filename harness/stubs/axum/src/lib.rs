//! A stand-in for axum: requests are handed to the router by the harness (see
//! `stub`), and everything between the socket and the handlers is left out.
pub use async_trait::async_trait;
pub use http;
pub use stubmacros::debug_handler;
pub mod body;
pub mod extract;
pub mod handler;
pub mod response;
pub mod routing;
pub mod serve;
pub mod stub;
pub use extract::Extension;
pub use response::Json;
pub use routing::Router;
pub use serve::serve;
pub type BoxError = Box<dyn std::error::Error + Send + Sync>;
#[derive(Debug)]
pub struct Error(pub(crate) String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
