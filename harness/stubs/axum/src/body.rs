pub use bytes::Bytes;
#[derive(Debug, Default)]
pub struct Body(pub(crate) Bytes);
impl Body {
    pub fn empty() -> Self {
        Body(Bytes::new())
    }
    pub fn new_bytes(b: Bytes) -> Self {
        Body(b)
    }
    pub fn into_inner(self) -> Bytes {
        self.0
    }
}
impl From<Bytes> for Body {
    fn from(b: Bytes) -> Self {
        Body(b)
    }
}
impl From<Vec<u8>> for Body {
    fn from(b: Vec<u8>) -> Self {
        Body(Bytes::from(b))
    }
}
impl From<String> for Body {
    fn from(b: String) -> Self {
        Body(Bytes::from(b))
    }
}
impl From<&'static str> for Body {
    fn from(b: &'static str) -> Self {
        Body(Bytes::from_static(b.as_bytes()))
    }
}
impl From<&'static [u8]> for Body {
    fn from(b: &'static [u8]) -> Self {
        Body(Bytes::from_static(b))
    }
}
impl From<()> for Body {
    fn from(_: ()) -> Self {
        Body::empty()
    }
}
pub async fn to_bytes(b: Body, limit: usize) -> Result<Bytes, crate::Error> {
    if b.0.len() > limit {
        return Err(crate::Error("length limit exceeded".into()));
    }
    Ok(b.0)
}
