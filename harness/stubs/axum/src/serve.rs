use crate::Router;
use std::future::{Future, IntoFuture};
use std::pin::Pin;
pub struct Serve(Router);
pub fn serve(_: tokio::net::TcpListener, r: Router) -> Serve {
    Serve(r)
}
impl IntoFuture for Serve {
    type Output = std::io::Result<()>;
    type IntoFuture = Pin<Box<dyn Future<Output = Self::Output>>>;
    fn into_future(self) -> Self::IntoFuture {
        self.with_graceful_shutdown(std::future::pending()).into_future()
    }
}
impl Serve {
    pub fn with_graceful_shutdown<F: Future<Output = ()> + 'static>(self, f: F) -> Graceful {
        Graceful(self.0, Box::pin(f))
    }
}
pub struct Graceful(Router, Pin<Box<dyn Future<Output = ()>>>);
impl IntoFuture for Graceful {
    type Output = std::io::Result<()>;
    type IntoFuture = Pin<Box<dyn Future<Output = Self::Output>>>;
    fn into_future(self) -> Self::IntoFuture {
        Box::pin(async move {
            crate::stub::listen(Some(self.0));
            self.1.await;
            crate::stub::listen(None);
            crate::stub::drained().await;
            Ok(())
        })
    }
}
