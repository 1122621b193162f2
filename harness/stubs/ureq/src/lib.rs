//! A stand-in for ureq which hands requests to the stand-in for axum.
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::{Debug, Display, Formatter};
use std::io::Read;
use std::time::Duration;
#[derive(Debug, Clone, Default)]
pub struct Agent(());
#[derive(Debug, Default)]
pub struct AgentBuilder(());
impl AgentBuilder {
    pub fn new() -> Self {
        AgentBuilder(())
    }
    pub fn timeout(self, _: Duration) -> Self {
        self
    }
    pub fn timeout_read(self, _: Duration) -> Self {
        self
    }
    pub fn timeout_write(self, _: Duration) -> Self {
        self
    }
    pub fn user_agent(self, _: &str) -> Self {
        self
    }
    pub fn build(self) -> Agent {
        Agent(())
    }
}
macro_rules! methods {
    ($($f:ident $m:literal),*) => {
        impl Agent {
            $(pub fn $f(&self, p: &str) -> Request {
                self.request($m, p)
            })*
        }
        $(pub fn $f(p: &str) -> Request {
            Agent(()).request($m, p)
        })*
    };
}
methods!(get "GET", post "POST", put "PUT", delete "DELETE", patch "PATCH", head "HEAD");
impl Agent {
    pub fn new() -> Self {
        Agent(())
    }
    pub fn request(&self, m: &str, p: &str) -> Request {
        Request { method: m.into(), url: p.into(), pairs: vec![] }
    }
}
pub fn agent() -> Agent {
    Agent(())
}
#[derive(Debug, Clone)]
pub struct Request {
    method: String,
    url: String,
    pairs: Vec<(String, String)>,
}
impl Request {
    pub fn query(mut self, k: &str, v: &str) -> Self {
        self.pairs.push((k.into(), v.into()));
        self
    }
    pub fn query_pairs<'a, P: IntoIterator<Item = (&'a str, &'a str)>>(mut self, p: P) -> Self {
        for (k, v) in p {
            self.pairs.push((k.into(), v.into()));
        }
        self
    }
    pub fn set(self, _: &str, _: &str) -> Self {
        self
    }
    pub fn timeout(self, _: Duration) -> Self {
        self
    }
    pub fn url(&self) -> &str {
        &self.url
    }
    pub fn method(&self) -> &str {
        &self.method
    }
    pub fn call(self) -> Result<Response, Error> {
        self.send_bytes(&[])
    }
    pub fn send_string(self, s: &str) -> Result<Response, Error> {
        self.send_bytes(s.as_bytes())
    }
    pub fn send_json(self, x: impl Serialize) -> Result<Response, Error> {
        let b = serde_json::to_vec(&x).expect("Failed to serialize");
        self.send_bytes(&b)
    }
    pub fn send(self, mut r: impl Read) -> Result<Response, Error> {
        let mut b = vec![];
        r.read_to_end(&mut b).map_err(|_| Error::Transport(Transport(ErrorKind::Io)))?;
        self.send_bytes(&b)
    }
    pub fn send_bytes(self, b: &[u8]) -> Result<Response, Error> {
        let Some((_, path, mut pairs)) = axum::stub::split(&self.url) else {
            return Err(Error::Transport(Transport(ErrorKind::InvalidUrl)));
        };
        pairs.extend(self.pairs);
        let Ok(m) = http::Method::from_bytes(self.method.as_bytes()) else {
            return Err(Error::Transport(Transport(ErrorKind::BadHeader)));
        };
        let b = b.to_vec();
        let a = tokio::stub::block_on(async move { axum::stub::dispatch(m, &path, pairs, b).await });
        match a.flatten() {
            None => Err(Error::Transport(Transport(ErrorKind::ConnectionFailed))),
            Some((s, b)) => {
                let r = Response { status: s.as_u16(), body: b };
                if r.status >= 400 {
                    Err(Error::Status(r.status, r))
                } else {
                    Ok(r)
                }
            }
        }
    }
}
pub struct Response {
    status: u16,
    body: Vec<u8>,
}
impl Debug for Response {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "Response[status: {}]", self.status)
    }
}
impl Response {
    pub fn status(&self) -> u16 {
        self.status
    }
    pub fn status_text(&self) -> &str {
        ""
    }
    pub fn header(&self, _: &str) -> Option<&str> {
        None
    }
    pub fn has(&self, _: &str) -> bool {
        false
    }
    pub fn into_reader(self) -> Box<dyn Read + Send + Sync + 'static> {
        Box::new(Parts(std::io::Cursor::new(self.body)))
    }
    pub fn into_string(self) -> std::io::Result<String> {
        let mut b = vec![];
        self.into_reader().read_to_end(&mut b)?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    pub fn into_json<T: DeserializeOwned>(self) -> std::io::Result<T> {
        let mut b = vec![];
        self.into_reader().read_to_end(&mut b)?;
        serde_json::from_slice(&b).map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e.to_string()))
    }
}
struct Parts(std::io::Cursor<Vec<u8>>);
impl Read for Parts {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let left = self.0.get_ref().len() - self.0.position() as usize;
        let n = b.len().min(left);
        match axum::stub::arrive(n) {
            Some(n) => self.0.read(&mut b[..n]),
            None => Err(std::io::ErrorKind::ConnectionReset.into()),
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind {
    InvalidUrl,
    BadHeader,
    Io,
    ConnectionFailed,
    HTTP,
}
#[derive(Debug)]
pub struct Transport(ErrorKind);
impl Transport {
    pub fn kind(&self) -> ErrorKind {
        self.0
    }
    pub fn message(&self) -> Option<&str> {
        None
    }
}
impl Display for Transport {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str("transport error")
    }
}
impl std::error::Error for Transport {}
#[derive(Debug)]
pub enum Error {
    Status(u16, Response),
    Transport(Transport),
}
impl Error {
    pub fn into_response(self) -> Option<Response> {
        match self {
            Error::Status(_, r) => Some(r),
            Error::Transport(_) => None,
        }
    }
    pub fn kind(&self) -> ErrorKind {
        match self {
            Error::Status(..) => ErrorKind::HTTP,
            Error::Transport(t) => t.0,
        }
    }
}
impl Display for Error {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        match self {
            Error::Status(s, _) => write!(f, "status code {s}"),
            Error::Transport(t) => Display::fmt(t, f),
        }
    }
}
impl std::error::Error for Error {}
pub trait OrAnyStatus {
    fn or_any_status(self) -> Result<Response, Transport>;
}
impl OrAnyStatus for Result<Response, Error> {
    fn or_any_status(self) -> Result<Response, Transport> {
        match self {
            Ok(r) | Err(Error::Status(_, r)) => Ok(r),
            Err(Error::Transport(t)) => Err(t),
        }
    }
}
