//! What the harness sends requests with.
use crate::body::Body;
use crate::response::Response;
use crate::Router;
use http::{Method, StatusCode};
use std::cell::RefCell;
/// The names and values of a query, already decoded.
#[derive(Clone, Default)]
pub struct Pairs(pub Vec<(String, String)>);
/// How long to make the body out to be.
#[derive(Clone, Copy)]
pub struct PretendLen(pub usize);
#[derive(Clone, Copy)]
pub(crate) struct Limit(pub(crate) Option<usize>);
struct Global(RefCell<(Option<Router>, Option<usize>)>);
unsafe impl Sync for Global {}
static ON: Global = Global(RefCell::new((None, None)));
pub(crate) fn listen(r: Option<Router>) {
    ON.0.borrow_mut().0 = r;
}
/// The process has ended.
pub fn gone() {
    std::mem::forget(ON.0.borrow_mut().0.take());
    *OPEN.0.borrow_mut() = (0, vec![]);
}
pub fn listening() -> bool {
    ON.0.borrow().0.is_some()
}
struct Open(RefCell<(usize, Vec<std::task::Waker>)>);
unsafe impl Sync for Open {}
static OPEN: Open = Open(RefCell::new((0, vec![])));
/// A request which is being answered.
struct Request;
impl Request {
    fn begin() -> Request {
        OPEN.0.borrow_mut().0 += 1;
        Request
    }
}
impl Drop for Request {
    fn drop(&mut self) {
        let mut o = OPEN.0.borrow_mut();
        o.0 = o.0.saturating_sub(1);
        for w in o.1.drain(..) {
            w.wake();
        }
    }
}
/// Until every request has been answered.
pub(crate) async fn drained() {
    std::future::poll_fn(|c| {
        let mut o = OPEN.0.borrow_mut();
        if o.0 == 0 {
            return std::task::Poll::Ready(());
        }
        o.1.push(c.waker().clone());
        std::task::Poll::Pending
    })
    .await
}
/// Bodies sent from now on count as being this long.
pub fn pretend(n: Option<usize>) {
    ON.0.borrow_mut().1 = n;
}
/// One request. `None` if nothing listens.
pub async fn dispatch(m: Method, path: &str, pairs: Vec<(String, String)>, body: Vec<u8>) -> Option<(StatusCode, Vec<u8>)> {
    tokio::stub::point().await;
    let (r, n) = ON.0.borrow().clone();
    let r = r?;
    let open = Request::begin();
    let mut req = http::Request::new(Body::from(body));
    *req.method_mut() = m;
    req.extensions_mut().insert(Pairs(pairs));
    if let Some(n) = n {
        req.extensions_mut().insert(PretendLen(n));
    }
    let a: Response = r.answer(path.to_string(), req).await;
    if tokio::stub::crashed() {
        std::future::pending::<()>().await
    }
    let (p, b) = a.into_parts();
    drop(open);
    Some((p.status, b.0.to_vec()))
}
/// The address, path and query of a URL, the query decoded.
pub fn split(url: &str) -> Option<(String, String, Vec<(String, String)>)> {
    let rest = url.strip_prefix("http://")?;
    let rest = rest.split('#').next().unwrap();
    let (rest, q) = match rest.split_once('?') {
        Some((a, b)) => (a, Some(b)),
        None => (rest, None),
    };
    let (host, path) = match rest.find('/') {
        Some(i) => (&rest[..i], &rest[i..]),
        None => (rest, "/"),
    };
    let mut pairs = vec![];
    if let Some(q) = q {
        for p in q.split('&').filter(|p| !p.is_empty()) {
            let (k, v) = p.split_once('=').unwrap_or((p, ""));
            pairs.push((decode(k), decode(v)));
        }
    }
    unsafe { *std::ptr::addr_of_mut!(HOST) = host.to_string() };
    Some((host.to_string(), path.to_string(), pairs))
}
static mut HOST: String = String::new();
/// Where the last request went.
pub fn host() -> &'static str {
    unsafe { &*std::ptr::addr_of!(HOST) }
}
fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let hex = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
        if b[i] == b'+' {
            out.push(b' ');
        } else if b[i] == b'%' && i + 2 < b.len() && hex(b[i + 1]).is_some() && hex(b[i + 2]).is_some() {
            out.push(hex(b[i + 1]).unwrap() * 16 + hex(b[i + 2]).unwrap());
            i += 2;
        } else {
            out.push(b[i]);
        }
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}
struct Wire(std::cell::Cell<(u32, u32)>);
unsafe impl Sync for Wire {}
static WIRE: Wire = Wire(std::cell::Cell::new((0, 0)));
/// How often a body may come in parts, and how often the connection may break.
pub fn wire(parts: u32, breaks: u32) {
    WIRE.0.set((parts, breaks))
}
/// How many of so many bytes come next; nothing if the connection breaks.
pub fn arrive(n: usize) -> Option<usize> {
    let (p, b) = WIRE.0.get();
    if b > 0 && rt::choice(2) == 1 {
        WIRE.0.set((p, b - 1));
        return None;
    }
    if p == 0 || n < 2 {
        return Some(n);
    }
    Some(match rt::choice(3) {
        0 => n,
        k => {
            WIRE.0.set((p - 1, b));
            if k == 1 { 1 } else { n - 1 }
        }
    })
}
/// Makes the body out to be so long, and at most so long.
pub fn limit(r: &mut http::Request<Body>, n: usize, max: usize) {
    r.extensions_mut().insert(PretendLen(n));
    r.extensions_mut().insert(Limit(Some(max)));
}
