pub use std::io::{Error, ErrorKind, Result, SeekFrom};
use crate::fs::File;
use bytes::{Buf, BufMut};
use std::future::Future;
/// What bytes come from.
pub trait AsyncRead {
    fn some<'a>(&'a mut self, b: &'a mut [u8]) -> impl Future<Output = Result<usize>> + 'a;
}
/// Where bytes go to.
pub trait AsyncWrite {
    fn put<'a>(&'a mut self, b: &'a [u8]) -> impl Future<Output = Result<usize>> + 'a;
    fn settled<'a>(&'a mut self) -> impl Future<Output = Result<()>> + 'a;
}
pub trait AsyncSeek {
    fn to(&mut self, p: SeekFrom) -> impl Future<Output = Result<u64>> + '_;
}
impl AsyncRead for File {
    async fn some<'a>(&'a mut self, b: &'a mut [u8]) -> Result<usize> {
        self.read_some(b).await
    }
}
impl AsyncWrite for File {
    async fn put<'a>(&'a mut self, b: &'a [u8]) -> Result<usize> {
        let n = crate::fs::part(b.len());
        self.buffer(&b[..n]).await?;
        Ok(n)
    }
    async fn settled<'a>(&'a mut self) -> Result<()> {
        self.settle().await
    }
}
impl AsyncSeek for File {
    async fn to(&mut self, p: SeekFrom) -> Result<u64> {
        self.settle().await?;
        self.seek_to(p)
    }
}
impl AsyncWrite for Vec<u8> {
    async fn put<'a>(&'a mut self, b: &'a [u8]) -> Result<usize> {
        self.extend_from_slice(b);
        Ok(b.len())
    }
    async fn settled<'a>(&'a mut self) -> Result<()> {
        Ok(())
    }
}
impl AsyncRead for &[u8] {
    async fn some<'a>(&'a mut self, b: &'a mut [u8]) -> Result<usize> {
        std::io::Read::read(self, b)
    }
}
impl<R: AsyncRead> AsyncRead for &mut R {
    async fn some<'a>(&'a mut self, b: &'a mut [u8]) -> Result<usize> {
        (**self).some(b).await
    }
}
impl<W: AsyncWrite> AsyncWrite for &mut W {
    async fn put<'a>(&'a mut self, b: &'a [u8]) -> Result<usize> {
        (**self).put(b).await
    }
    async fn settled<'a>(&'a mut self) -> Result<()> {
        (**self).settled().await
    }
}
#[derive(Debug)]
pub struct BufReader<R>(R);
impl<R> BufReader<R> {
    pub fn new(r: R) -> Self {
        BufReader(r)
    }
    pub fn with_capacity(_: usize, r: R) -> Self {
        BufReader(r)
    }
    pub fn into_inner(self) -> R {
        self.0
    }
    pub fn get_ref(&self) -> &R {
        &self.0
    }
    pub fn get_mut(&mut self) -> &mut R {
        &mut self.0
    }
}
impl<R: AsyncRead> AsyncRead for BufReader<R> {
    async fn some<'a>(&'a mut self, b: &'a mut [u8]) -> Result<usize> {
        self.0.some(b).await
    }
}
/// Keeps what is written until it is flushed or there is too much of it. What
/// is kept when it is dropped is lost.
#[derive(Debug)]
pub struct BufWriter<W>(W, Vec<u8>, usize);
impl<W> BufWriter<W> {
    pub fn new(w: W) -> Self {
        BufWriter(w, vec![], 8192)
    }
    pub fn with_capacity(n: usize, w: W) -> Self {
        BufWriter(w, vec![], n)
    }
    pub fn into_inner(self) -> W {
        self.0
    }
    pub fn get_ref(&self) -> &W {
        &self.0
    }
    pub fn get_mut(&mut self) -> &mut W {
        &mut self.0
    }
}
impl<W: AsyncWrite> AsyncWrite for BufWriter<W> {
    async fn put<'a>(&'a mut self, b: &'a [u8]) -> Result<usize> {
        if self.1.len() + b.len() > self.2 {
            let kept = std::mem::take(&mut self.1);
            if !kept.is_empty() {
                self.0.write_all(&kept).await?;
            }
        }
        if b.len() >= self.2 {
            return self.0.put(b).await;
        }
        self.1.extend_from_slice(b);
        Ok(b.len())
    }
    async fn settled<'a>(&'a mut self) -> Result<()> {
        let kept = std::mem::take(&mut self.1);
        if !kept.is_empty() {
            self.0.write_all(&kept).await?;
        }
        self.0.settled().await
    }
}
/// No more than the first so many bytes.
#[derive(Debug)]
pub struct Take<R>(R, u64);
impl<R> Take<R> {
    pub fn limit(&self) -> u64 {
        self.1
    }
    pub fn set_limit(&mut self, n: u64) {
        self.1 = n
    }
    pub fn into_inner(self) -> R {
        self.0
    }
    pub fn get_ref(&self) -> &R {
        &self.0
    }
    pub fn get_mut(&mut self) -> &mut R {
        &mut self.0
    }
}
impl<R: AsyncRead> AsyncRead for Take<R> {
    async fn some<'a>(&'a mut self, b: &'a mut [u8]) -> Result<usize> {
        let n = (b.len() as u64).min(self.1) as usize;
        if n == 0 {
            return Ok(0);
        }
        let n = self.0.some(&mut b[..n]).await?;
        self.1 -= n as u64;
        Ok(n)
    }
}
pub trait AsyncReadExt: AsyncRead {
    fn take(self, n: u64) -> Take<Self>
    where
        Self: Sized,
    {
        Take(self, n)
    }
    fn read_u8(&mut self) -> impl Future<Output = Result<u8>> + '_ {
        async move {
            let mut b = [0];
            self.read_exact(&mut b).await?;
            Ok(b[0])
        }
    }
    fn read_buf<'a, B: BufMut + ?Sized>(&'a mut self, b: &'a mut B) -> impl Future<Output = Result<usize>> + 'a {
        async move {
            let mut t = [0; 64];
            let n = b.remaining_mut().min(t.len());
            let n = self.some(&mut t[..n]).await?;
            b.put_slice(&t[..n]);
            Ok(n)
        }
    }
    fn read<'a>(&'a mut self, b: &'a mut [u8]) -> impl Future<Output = Result<usize>> + 'a {
        self.some(b)
    }
    fn read_exact<'a>(&'a mut self, b: &'a mut [u8]) -> impl Future<Output = Result<usize>> + 'a {
        async move {
            let mut n = 0;
            while n < b.len() {
                match self.some(&mut b[n..]).await? {
                    0 => return Err(ErrorKind::UnexpectedEof.into()),
                    k => n += k,
                }
            }
            Ok(n)
        }
    }
    fn read_to_end<'a>(&'a mut self, b: &'a mut Vec<u8>) -> impl Future<Output = Result<usize>> + 'a {
        async move {
            let mut n = 0;
            let mut t = [0; 64];
            loop {
                match self.some(&mut t).await? {
                    0 => return Ok(n),
                    k => {
                        b.extend_from_slice(&t[..k]);
                        n += k;
                    }
                }
            }
        }
    }
    fn read_to_string<'a>(&'a mut self, s: &'a mut String) -> impl Future<Output = Result<usize>> + 'a {
        async move {
            let mut b = vec![];
            let n = self.read_to_end(&mut b).await?;
            s.push_str(std::str::from_utf8(&b).map_err(|_| Error::from(ErrorKind::InvalidData))?);
            Ok(n)
        }
    }
}
impl<R: AsyncRead + ?Sized> AsyncReadExt for R {}
pub trait AsyncWriteExt: AsyncWrite {
    fn write_u8(&mut self, x: u8) -> impl Future<Output = Result<()>> + '_ {
        async move { self.write_all(&[x]).await }
    }
    fn write_buf<'a, B: Buf>(&'a mut self, b: &'a mut B) -> impl Future<Output = Result<usize>> + 'a {
        async move {
            if !b.has_remaining() {
                return Ok(0);
            }
            let n = self.put(b.chunk()).await?;
            b.advance(n);
            Ok(n)
        }
    }
    fn write_all_buf<'a, B: Buf>(&'a mut self, b: &'a mut B) -> impl Future<Output = Result<()>> + 'a {
        async move {
            while b.has_remaining() {
                if self.write_buf(b).await? == 0 {
                    return Err(ErrorKind::WriteZero.into());
                }
            }
            Ok(())
        }
    }
    fn write<'a>(&'a mut self, b: &'a [u8]) -> impl Future<Output = Result<usize>> + 'a {
        self.put(b)
    }
    fn write_all<'a>(&'a mut self, b: &'a [u8]) -> impl Future<Output = Result<()>> + 'a {
        async move {
            let mut n = 0;
            while n < b.len() {
                match self.put(&b[n..]).await? {
                    0 => return Err(ErrorKind::WriteZero.into()),
                    k => n += k,
                }
            }
            Ok(())
        }
    }
    fn flush<'a>(&'a mut self) -> impl Future<Output = Result<()>> + 'a {
        self.settled()
    }
    fn shutdown<'a>(&'a mut self) -> impl Future<Output = Result<()>> + 'a {
        self.settled()
    }
}
impl<W: AsyncWrite + ?Sized> AsyncWriteExt for W {}
pub trait AsyncSeekExt: AsyncSeek {
    fn seek(&mut self, p: SeekFrom) -> impl Future<Output = Result<u64>> + '_ {
        self.to(p)
    }
    fn rewind(&mut self) -> impl Future<Output = Result<()>> + '_ {
        async {
            self.to(SeekFrom::Start(0)).await?;
            Ok(())
        }
    }
}
impl<S: AsyncSeek + ?Sized> AsyncSeekExt for S {}
pub async fn copy<R: AsyncRead + ?Sized, W: AsyncWrite + ?Sized>(r: &mut R, w: &mut W) -> Result<u64> {
    let mut b = vec![];
    r.read_to_end(&mut b).await?;
    if !b.is_empty() {
        w.write_all(&b).await?;
    }
    w.settled().await?;
    Ok(b.len() as u64)
}
