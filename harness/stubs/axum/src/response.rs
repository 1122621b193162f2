use crate::body::{Body, Bytes};
use http::{header, HeaderMap, HeaderName, HeaderValue, StatusCode};
use serde::Serialize;
use std::convert::Infallible;
pub type Response<T = Body> = http::Response<T>;
pub type Result<T, E = ErrorResponse> = std::result::Result<T, E>;
#[derive(Debug)]
pub struct ErrorResponse(Response);
impl<T: IntoResponse> From<T> for ErrorResponse {
    fn from(x: T) -> Self {
        ErrorResponse(x.into_response())
    }
}
pub trait IntoResponse {
    fn into_response(self) -> Response;
}
impl<T> IntoResponse for Result<T, ErrorResponse>
where
    T: IntoResponse,
{
    fn into_response(self) -> Response {
        match self {
            Ok(x) => x.into_response(),
            Err(e) => e.0,
        }
    }
}
impl<T: IntoResponse, E: IntoResponse> IntoResponse for std::result::Result<T, E> {
    fn into_response(self) -> Response {
        match self {
            Ok(x) => x.into_response(),
            Err(x) => x.into_response(),
        }
    }
}
macro_rules! body {
    ($($t:ty),*) => { $(impl IntoResponse for $t {
        fn into_response(self) -> Response {
            Response::new(Body::from(self))
        }
    })* };
}
body!(Bytes, Vec<u8>, String, &'static str, &'static [u8], ());
impl IntoResponse for Body {
    fn into_response(self) -> Response {
        Response::new(self)
    }
}
impl IntoResponse for Box<str> {
    fn into_response(self) -> Response {
        String::from(self).into_response()
    }
}
impl IntoResponse for std::borrow::Cow<'static, str> {
    fn into_response(self) -> Response {
        self.into_owned().into_response()
    }
}
impl IntoResponse for Infallible {
    fn into_response(self) -> Response {
        match self {}
    }
}
impl IntoResponse for Response {
    fn into_response(self) -> Response {
        self
    }
}
impl IntoResponse for StatusCode {
    fn into_response(self) -> Response {
        let mut r = Response::new(Body::empty());
        *r.status_mut() = self;
        r
    }
}
impl IntoResponse for HeaderMap {
    fn into_response(self) -> Response {
        let mut r = Response::new(Body::empty());
        *r.headers_mut() = self;
        r
    }
}
pub trait IntoResponseParts {
    fn put(self, r: &mut Response);
}
impl IntoResponseParts for HeaderMap {
    fn put(self, r: &mut Response) {
        r.headers_mut().extend(self)
    }
}
impl<K: TryInto<HeaderName>, V: TryInto<HeaderValue>, const N: usize> IntoResponseParts for [(K, V); N] {
    fn put(self, r: &mut Response) {
        for (k, v) in self {
            if let (Ok(k), Ok(v)) = (k.try_into(), v.try_into()) {
                r.headers_mut().insert(k, v);
            }
        }
    }
}
impl<K: TryInto<HeaderName>, V: TryInto<HeaderValue>, const N: usize> IntoResponse for [(K, V); N] {
    fn into_response(self) -> Response {
        (self, ()).into_response()
    }
}
impl<T: IntoResponse> IntoResponse for (StatusCode, T) {
    fn into_response(self) -> Response {
        let mut r = self.1.into_response();
        *r.status_mut() = self.0;
        r
    }
}
impl<P: IntoResponseParts, T: IntoResponse> IntoResponse for (P, T) {
    fn into_response(self) -> Response {
        let mut r = self.1.into_response();
        self.0.put(&mut r);
        r
    }
}
impl<P: IntoResponseParts, T: IntoResponse> IntoResponse for (StatusCode, P, T) {
    fn into_response(self) -> Response {
        let mut r = self.2.into_response();
        *r.status_mut() = self.0;
        self.1.put(&mut r);
        r
    }
}
#[derive(Debug, Clone, Copy, Default)]
pub struct Json<T>(pub T);
impl<T> std::ops::Deref for Json<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T> From<T> for Json<T> {
    fn from(x: T) -> Self {
        Json(x)
    }
}
impl<T: Serialize> IntoResponse for Json<T> {
    fn into_response(self) -> Response {
        match serde_json::to_vec(&self.0) {
            Ok(b) => {
                let mut r = b.into_response();
                r.headers_mut().insert(header::CONTENT_TYPE, HeaderValue::from_static("application/json"));
                r
            }
            Err(e) => (StatusCode::INTERNAL_SERVER_ERROR, e.to_string()).into_response(),
        }
    }
}
#[derive(Debug, Clone, Copy)]
pub struct Html<T>(pub T);
impl<T: Into<Body>> IntoResponse for Html<T> {
    fn into_response(self) -> Response {
        Response::new(self.0.into())
    }
}
