//! A stand-in for reqwest which hands requests to the stand-in for axum.
pub use bytes::Bytes;
pub use http::{header, Method, StatusCode};
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::{Debug, Display, Formatter};
use std::time::Duration;
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug)]
enum Kind {
    Builder,
    Connect,
    Status(StatusCode),
    Decode,
    Body,
}
#[derive(Debug)]
pub struct Error(Kind);
impl Error {
    pub fn status(&self) -> Option<StatusCode> {
        match self.0 {
            Kind::Status(s) => Some(s),
            _ => None,
        }
    }
    pub fn is_status(&self) -> bool {
        matches!(self.0, Kind::Status(_))
    }
    pub fn is_decode(&self) -> bool {
        matches!(self.0, Kind::Decode)
    }
    pub fn is_body(&self) -> bool {
        matches!(self.0, Kind::Body)
    }
    pub fn is_connect(&self) -> bool {
        matches!(self.0, Kind::Connect)
    }
    pub fn is_builder(&self) -> bool {
        matches!(self.0, Kind::Builder)
    }
    pub fn is_timeout(&self) -> bool {
        false
    }
    pub fn is_request(&self) -> bool {
        matches!(self.0, Kind::Connect)
    }
}
impl Display for Error {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str("reqwest error")
    }
}
impl std::error::Error for Error {}
#[derive(Debug, Clone, Default)]
pub struct Client(());
#[derive(Debug, Default)]
pub struct ClientBuilder(());
impl ClientBuilder {
    pub fn new() -> Self {
        ClientBuilder(())
    }
    pub fn timeout(self, _: Duration) -> Self {
        self
    }
    pub fn connect_timeout(self, _: Duration) -> Self {
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(Client(()))
    }
}
macro_rules! methods {
    ($($f:ident $m:ident),*) => {
        impl Client {
            $(pub fn $f<U: IntoUrl>(&self, u: U) -> RequestBuilder {
                self.request(Method::$m, u)
            })*
        }
    };
}
methods!(get GET, post POST, put PUT, delete DELETE, patch PATCH, head HEAD);
pub trait IntoUrl {
    fn text(&self) -> &str;
}
impl IntoUrl for &str {
    fn text(&self) -> &str {
        self
    }
}
impl IntoUrl for &String {
    fn text(&self) -> &str {
        self
    }
}
impl IntoUrl for String {
    fn text(&self) -> &str {
        self
    }
}
impl Client {
    pub fn new() -> Self {
        Client(())
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder(())
    }
    pub fn request<U: IntoUrl>(&self, m: Method, u: U) -> RequestBuilder {
        RequestBuilder { method: m, url: u.text().to_string(), pairs: vec![], body: vec![], bad: false }
    }
}
pub async fn get<U: IntoUrl>(u: U) -> Result<Response> {
    Client(()).get(u).send().await
}
#[derive(Debug, Default)]
pub struct Body(Vec<u8>);
impl From<Vec<u8>> for Body {
    fn from(b: Vec<u8>) -> Self {
        Body(b)
    }
}
impl From<Bytes> for Body {
    fn from(b: Bytes) -> Self {
        Body(b.to_vec())
    }
}
impl From<String> for Body {
    fn from(b: String) -> Self {
        Body(b.into_bytes())
    }
}
impl From<&'static str> for Body {
    fn from(b: &'static str) -> Self {
        Body(b.as_bytes().to_vec())
    }
}
impl From<&'static [u8]> for Body {
    fn from(b: &'static [u8]) -> Self {
        Body(b.to_vec())
    }
}
#[derive(Debug)]
pub struct RequestBuilder {
    method: Method,
    url: String,
    pairs: Vec<(String, String)>,
    body: Vec<u8>,
    bad: bool,
}
fn word(v: &serde_json::Value) -> Option<String> {
    match v {
        serde_json::Value::String(s) => Some(s.clone()),
        serde_json::Value::Bool(b) => Some(b.to_string()),
        serde_json::Value::Number(n) => Some(n.to_string()),
        _ => None,
    }
}
impl RequestBuilder {
    pub fn query<T: Serialize + ?Sized>(mut self, q: &T) -> Self {
        match serde_json::to_value(q) {
            Ok(serde_json::Value::Array(a)) => {
                for p in a {
                    match p.as_array().map(|p| p.as_slice()) {
                        Some([k, v]) => match (word(k), word(v)) {
                            (Some(k), Some(v)) => self.pairs.push((k, v)),
                            (Some(_), None) if v.is_null() => {}
                            _ => self.bad = true,
                        },
                        _ => self.bad = true,
                    }
                }
            }
            Ok(serde_json::Value::Object(o)) => {
                for (k, v) in o {
                    match word(&v) {
                        Some(v) => self.pairs.push((k, v)),
                        None if v.is_null() => {}
                        None => self.bad = true,
                    }
                }
            }
            _ => self.bad = true,
        }
        self
    }
    pub fn body<T: Into<Body>>(mut self, b: T) -> Self {
        self.body = b.into().0;
        self
    }
    pub fn json<T: Serialize + ?Sized>(mut self, x: &T) -> Self {
        match serde_json::to_vec(x) {
            Ok(b) => self.body = b,
            Err(_) => self.bad = true,
        }
        self
    }
    pub fn header<K, V>(self, _: K, _: V) -> Self {
        self
    }
    pub fn timeout(self, _: Duration) -> Self {
        self
    }
    pub async fn send(self) -> Result<Response> {
        let Some((_, path, mut pairs)) = axum::stub::split(&self.url) else {
            return Err(Error(Kind::Builder));
        };
        if self.bad {
            return Err(Error(Kind::Builder));
        }
        pairs.extend(self.pairs);
        match axum::stub::dispatch(self.method, &path, pairs, self.body).await {
            None => Err(Error(Kind::Connect)),
            Some((status, body)) => Ok(Response { url: self.url, status, body }),
        }
    }
}
#[derive(Debug)]
pub struct Response {
    url: String,
    status: StatusCode,
    body: Vec<u8>,
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn content_length(&self) -> Option<u64> {
        Some(self.body.len() as u64)
    }
    pub fn error_for_status(self) -> Result<Self> {
        match self.error_for_status_ref() {
            Ok(_) => Ok(self),
            Err(e) => Err(e),
        }
    }
    pub fn error_for_status_ref(&self) -> Result<&Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            Err(Error(Kind::Status(self.status)))
        } else {
            Ok(self)
        }
    }
    pub async fn json<T: DeserializeOwned>(self) -> Result<T> {
        serde_json::from_slice(&self.bytes().await?).map_err(|_| Error(Kind::Decode))
    }
    pub async fn bytes(mut self) -> Result<Bytes> {
        let mut b = vec![];
        while let Some(c) = self.chunk().await? {
            b.extend_from_slice(&c);
        }
        Ok(Bytes::from(b))
    }
    pub async fn chunk(&mut self) -> Result<Option<Bytes>> {
        match axum::stub::arrive(self.body.len()) {
            None => Err(Error(Kind::Body)),
            Some(0) => Ok(None),
            Some(n) => {
                let rest = self.body.split_off(n);
                Ok(Some(Bytes::from(std::mem::replace(&mut self.body, rest))))
            }
        }
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.bytes().await?).into_owned())
    }
    pub fn url(&self) -> &str {
        &self.url
    }
}
