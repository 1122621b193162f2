use crate::body::{Body, Bytes};
use crate::response::{IntoResponse, Json, Response};
use crate::stub::{Limit, Pairs, PretendLen};
pub use async_trait::async_trait;
use http::request::Parts;
use http::{HeaderMap, Method, StatusCode, Uri};
use serde::de::{self, value::MapDeserializer, DeserializeOwned, IntoDeserializer, Visitor};
use std::convert::Infallible;
use std::fmt::{Debug, Display, Formatter};
pub type Request<T = Body> = http::Request<T>;
pub mod private {
    pub enum ViaParts {}
    pub enum ViaRequest {}
}
#[async_trait]
pub trait FromRequestParts<S>: Sized {
    type Rejection: IntoResponse;
    async fn from_request_parts(parts: &mut Parts, state: &S) -> Result<Self, Self::Rejection>;
}
#[async_trait]
pub trait FromRequest<S, M = private::ViaRequest>: Sized {
    type Rejection: IntoResponse;
    async fn from_request(req: Request, state: &S) -> Result<Self, Self::Rejection>;
}
#[async_trait]
impl<S: Send + Sync, T: FromRequestParts<S>> FromRequest<S, private::ViaParts> for T {
    type Rejection = T::Rejection;
    async fn from_request(req: Request, state: &S) -> Result<Self, Self::Rejection> {
        let (mut p, _) = req.into_parts();
        T::from_request_parts(&mut p, state).await
    }
}
pub trait FromRef<T> {
    fn from_ref(x: &T) -> Self;
}
impl<T: Clone> FromRef<T> for T {
    fn from_ref(x: &T) -> Self {
        x.clone()
    }
}
#[derive(Debug, Clone, Copy, Default)]
pub struct State<S>(pub S);
#[async_trait]
impl<O: Send + Sync, S: FromRef<O>> FromRequestParts<O> for State<S> {
    type Rejection = Infallible;
    async fn from_request_parts(_: &mut Parts, state: &O) -> Result<Self, Infallible> {
        Ok(State(S::from_ref(state)))
    }
}
impl<S> std::ops::Deref for State<S> {
    type Target = S;
    fn deref(&self) -> &S {
        &self.0
    }
}
#[derive(Debug, Clone, Copy, Default)]
pub struct Extension<S>(pub S);
#[async_trait]
impl<O: Send + Sync, S: Clone + Send + Sync + 'static> FromRequestParts<O> for Extension<S> {
    type Rejection = StatusCode;
    async fn from_request_parts(p: &mut Parts, _: &O) -> Result<Self, StatusCode> {
        p.extensions.get::<S>().cloned().map(Extension).ok_or(StatusCode::INTERNAL_SERVER_ERROR)
    }
}
#[async_trait]
impl<O: Send + Sync> FromRequestParts<O> for Method {
    type Rejection = Infallible;
    async fn from_request_parts(p: &mut Parts, _: &O) -> Result<Self, Infallible> {
        Ok(p.method.clone())
    }
}
#[async_trait]
impl<O: Send + Sync> FromRequestParts<O> for Uri {
    type Rejection = Infallible;
    async fn from_request_parts(p: &mut Parts, _: &O) -> Result<Self, Infallible> {
        Ok(p.uri.clone())
    }
}
#[async_trait]
impl<O: Send + Sync> FromRequestParts<O> for HeaderMap {
    type Rejection = Infallible;
    async fn from_request_parts(p: &mut Parts, _: &O) -> Result<Self, Infallible> {
        Ok(p.headers.clone())
    }
}

/// What a value of a query is read as, the way `serde_urlencoded` does it.
struct Part(String);
macro_rules! parsed {
    ($($f:ident $v:ident),*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        match self.0.parse() {
            Ok(x) => v.$v(x),
            Err(e) => Err(de::Error::custom(e)),
        }
    })* };
}
impl<'de> de::Deserializer<'de> for Part {
    type Error = de::value::Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        v.visit_string(self.0)
    }
    parsed!(deserialize_bool visit_bool, deserialize_u8 visit_u8, deserialize_u16 visit_u16, deserialize_u32 visit_u32,
        deserialize_u64 visit_u64, deserialize_i8 visit_i8, deserialize_i16 visit_i16, deserialize_i32 visit_i32,
        deserialize_i64 visit_i64, deserialize_f32 visit_f32, deserialize_f64 visit_f64);
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        v.visit_some(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Self::Error> {
        v.visit_enum(self.0.into_deserializer())
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Self::Error> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        i128 u128 char str string unit bytes byte_buf unit_struct tuple_struct struct identifier tuple ignored_any seq map
    }
}
impl<'de> IntoDeserializer<'de, de::value::Error> for Part {
    type Deserializer = Part;
    fn into_deserializer(self) -> Part {
        self
    }
}
#[derive(Debug, Clone, Copy, Default)]
pub struct Query<T>(pub T);
impl<T> std::ops::Deref for Query<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
#[async_trait]
impl<T: DeserializeOwned, S: Send + Sync> FromRequestParts<S> for Query<T> {
    type Rejection = rejection::QueryRejection;
    async fn from_request_parts(p: &mut Parts, _: &S) -> Result<Self, Self::Rejection> {
        let pairs = p.extensions.get::<Pairs>().cloned().unwrap_or_default();
        let d = MapDeserializer::<_, de::value::Error>::new(pairs.0.into_iter().map(|(k, v)| (k, Part(v))));
        match T::deserialize(d) {
            Ok(x) => Ok(Query(x)),
            Err(e) => Err(rejection::QueryRejection(e.to_string())),
        }
    }
}

/// The most bytes a body may have.
#[derive(Debug, Clone, Copy)]
pub struct DefaultBodyLimit(pub(crate) Option<usize>);
impl DefaultBodyLimit {
    pub const fn disable() -> Self {
        DefaultBodyLimit(None)
    }
    pub const fn max(n: usize) -> Self {
        DefaultBodyLimit(Some(n))
    }
}
#[async_trait]
impl<S: Send + Sync> FromRequest<S> for Bytes {
    type Rejection = rejection::BytesRejection;
    async fn from_request(req: Request, _: &S) -> Result<Self, Self::Rejection> {
        let n = req.extensions().get::<PretendLen>().map_or(req.body().0.len(), |n| n.0);
        if let Some(Limit(Some(l))) = req.extensions().get::<Limit>() {
            if n > *l {
                return Err(rejection::BytesRejection::FailedToBufferBody(rejection::FailedToBufferBody(())));
            }
        }
        Ok(req.into_body().0)
    }
}
#[async_trait]
impl<S: Send + Sync> FromRequest<S> for String {
    type Rejection = Response;
    async fn from_request(req: Request, s: &S) -> Result<Self, Response> {
        let b = Bytes::from_request(req, s).await.map_err(IntoResponse::into_response)?;
        String::from_utf8(b.to_vec()).map_err(|e| (StatusCode::BAD_REQUEST, e.to_string()).into_response())
    }
}
#[async_trait]
impl<S: Send + Sync> FromRequest<S> for Request {
    type Rejection = Infallible;
    async fn from_request(req: Request, _: &S) -> Result<Self, Infallible> {
        Ok(req)
    }
}
#[async_trait]
impl<S: Send + Sync> FromRequest<S> for Body {
    type Rejection = Infallible;
    async fn from_request(req: Request, _: &S) -> Result<Self, Infallible> {
        Ok(req.into_body())
    }
}
#[async_trait]
impl<S: Send + Sync, T: DeserializeOwned> FromRequest<S> for Json<T> {
    type Rejection = Response;
    async fn from_request(req: Request, s: &S) -> Result<Self, Response> {
        let b = Bytes::from_request(req, s).await.map_err(IntoResponse::into_response)?;
        match serde_json::from_slice(&b) {
            Ok(x) => Ok(Json(x)),
            Err(e) => Err((StatusCode::UNPROCESSABLE_ENTITY, e.to_string()).into_response()),
        }
    }
}
pub mod rejection {
    use super::*;
    #[derive(Debug)]
    pub struct QueryRejection(pub(crate) String);
    impl QueryRejection {
        pub fn status(&self) -> StatusCode {
            StatusCode::BAD_REQUEST
        }
        pub fn body_text(&self) -> String {
            format!("Failed to deserialize query string: {}", self.0)
        }
    }
    impl Display for QueryRejection {
        fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for QueryRejection {}
    impl IntoResponse for QueryRejection {
        fn into_response(self) -> Response {
            (self.status(), self.body_text()).into_response()
        }
    }
    #[derive(Debug)]
    pub struct FailedToBufferBody(pub(crate) ());
    #[derive(Debug)]
    #[non_exhaustive]
    pub enum BytesRejection {
        FailedToBufferBody(FailedToBufferBody),
    }
    impl BytesRejection {
        pub fn status(&self) -> StatusCode {
            StatusCode::PAYLOAD_TOO_LARGE
        }
        pub fn body_text(&self) -> String {
            "Failed to buffer the request body: length limit exceeded".into()
        }
    }
    impl Display for BytesRejection {
        fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
            f.write_str("Failed to buffer the request body: length limit exceeded")
        }
    }
    impl std::error::Error for BytesRejection {}
    impl IntoResponse for BytesRejection {
        fn into_response(self) -> Response {
            (self.status(), self.body_text()).into_response()
        }
    }
}
