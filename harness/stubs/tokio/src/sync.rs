pub use crate::chan::*;
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::fmt::{Debug, Formatter};
use std::future::Future;
use std::ops::{Deref, DerefMut};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

/// A fair lock for readers and writers: those who wait get it in turn.
struct Raw {
    readers: usize,
    writer: bool,
    next: usize,
    waiting: VecDeque<(usize, bool, Waker)>,
    granted: Vec<(usize, bool)>,
}
impl Raw {
    const fn new() -> UnsafeCell<Raw> {
        UnsafeCell::new(Raw { readers: 0, writer: false, next: 0, waiting: VecDeque::new(), granted: vec![] })
    }
    fn take(&mut self, write: bool) -> bool {
        if self.writer || (write && self.readers > 0) {
            return false;
        }
        if write {
            self.writer = true;
        } else {
            self.readers += 1;
        }
        true
    }
    fn give(&mut self, write: bool) {
        if write {
            self.writer = false;
        } else {
            self.readers -= 1;
        }
        while let Some((_, w, _)) = self.waiting.front() {
            let w = *w;
            if !self.take(w) {
                break;
            }
            let (id, w, waker) = self.waiting.pop_front().unwrap();
            self.granted.push((id, w));
            waker.wake();
        }
    }
}
struct Acquire<'a> {
    raw: &'a UnsafeCell<Raw>,
    write: bool,
    id: Option<usize>,
}
impl Future for Acquire<'_> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> {
        let r = unsafe { &mut *self.raw.get() };
        match self.id {
            None => {
                if r.waiting.is_empty() && r.take(self.write) {
                    return Poll::Ready(());
                }
                self.id = Some(r.next);
                r.waiting.push_back((r.next, self.write, c.waker().clone()));
                r.next += 1;
                Poll::Pending
            }
            Some(id) => match r.granted.iter().position(|g| g.0 == id) {
                Some(i) => {
                    r.granted.swap_remove(i);
                    self.id = None;
                    Poll::Ready(())
                }
                None => {
                    if let Some(w) = r.waiting.iter_mut().find(|w| w.0 == id) {
                        w.2 = c.waker().clone();
                    }
                    Poll::Pending
                }
            },
        }
    }
}
impl Drop for Acquire<'_> {
    fn drop(&mut self) {
        if let Some(id) = self.id {
            let r = unsafe { &mut *self.raw.get() };
            r.waiting.retain(|w| w.0 != id);
            if let Some(i) = r.granted.iter().position(|g| g.0 == id) {
                let g = r.granted.swap_remove(i);
                r.give(g.1);
            }
        }
    }
}
async fn acquire(raw: &UnsafeCell<Raw>, write: bool) {
    crate::stub::point().await;
    Acquire { raw, write, id: None }.await
}

fn try_acquire(raw: &UnsafeCell<Raw>, write: bool) -> Result<(), TryLockError> {
    let r = unsafe { &mut *raw.get() };
    if r.waiting.is_empty() && r.take(write) {
        Ok(())
    } else {
        Err(TryLockError(()))
    }
}
pub struct OwnedRwLockReadGuard<T: ?Sized>(Arc<RwLock<T>>);
pub struct OwnedRwLockWriteGuard<T: ?Sized>(Arc<RwLock<T>>);
unsafe impl<T: ?Sized> Send for OwnedRwLockReadGuard<T> {}
unsafe impl<T: ?Sized> Send for OwnedRwLockWriteGuard<T> {}
impl<T: ?Sized> Deref for OwnedRwLockReadGuard<T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> Deref for OwnedRwLockWriteGuard<T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for OwnedRwLockWriteGuard<T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for OwnedRwLockReadGuard<T> {
    fn drop(&mut self) {
        unsafe { &mut *self.0.raw.get() }.give(false)
    }
}
impl<T: ?Sized> Drop for OwnedRwLockWriteGuard<T> {
    fn drop(&mut self) {
        unsafe { &mut *self.0.raw.get() }.give(true)
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(self) -> RwLockReadGuard<'a, T> {
        let l = self.0;
        std::mem::forget(self);
        let r = unsafe { &mut *l.raw.get() };
        r.writer = false;
        r.readers += 1;
        while let Some((_, false, _)) = r.waiting.front() {
            r.take(false);
            let (id, w, waker) = r.waiting.pop_front().unwrap();
            r.granted.push((id, w));
            waker.wake();
        }
        RwLockReadGuard(l)
    }
}

pub struct RwLock<T: ?Sized> {
    raw: UnsafeCell<Raw>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized> Send for RwLock<T> {}
unsafe impl<T: ?Sized> Sync for RwLock<T> {}
#[derive(Debug)]
pub struct TryLockError(());
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { raw: Raw::new(), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub async fn read(&self) -> RwLockReadGuard<'_, T> {
        acquire(&self.raw, false).await;
        RwLockReadGuard(self)
    }
    pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
        acquire(&self.raw, true).await;
        RwLockWriteGuard(self)
    }
    pub async fn read_owned(self: Arc<Self>) -> OwnedRwLockReadGuard<T> {
        acquire(&self.raw, false).await;
        OwnedRwLockReadGuard(self)
    }
    pub async fn write_owned(self: Arc<Self>) -> OwnedRwLockWriteGuard<T> {
        acquire(&self.raw, true).await;
        OwnedRwLockWriteGuard(self)
    }
    pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
        try_acquire(&self.raw, false).map(|()| RwLockReadGuard(self))
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
        try_acquire(&self.raw, true).map(|()| RwLockWriteGuard(self))
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
}
impl<T: ?Sized> Debug for RwLock<T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str("RwLock")
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
unsafe impl<T: ?Sized> Send for RwLockReadGuard<'_, T> {}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        unsafe { &mut *self.0.raw.get() }.give(false)
    }
}
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
unsafe impl<T: ?Sized> Send for RwLockWriteGuard<'_, T> {}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        unsafe { &mut *self.0.raw.get() }.give(true)
    }
}

pub struct Mutex<T: ?Sized> {
    raw: UnsafeCell<Raw>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized> Send for Mutex<T> {}
unsafe impl<T: ?Sized> Sync for Mutex<T> {}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { raw: Raw::new(), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub async fn lock(&self) -> MutexGuard<'_, T> {
        acquire(&self.raw, true).await;
        MutexGuard(self)
    }
    pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
        acquire(&self.raw, true).await;
        OwnedMutexGuard(self)
    }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        try_acquire(&self.raw, true).map(|()| MutexGuard(self))
    }
    pub fn try_lock_owned(self: Arc<Self>) -> Result<OwnedMutexGuard<T>, TryLockError> {
        try_acquire(&self.raw, true)?;
        Ok(OwnedMutexGuard(self))
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
}
impl<T: ?Sized> Debug for Mutex<T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
unsafe impl<T: ?Sized> Send for MutexGuard<'_, T> {}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        unsafe { &mut *self.0.raw.get() }.give(true)
    }
}
pub struct OwnedMutexGuard<T: ?Sized>(Arc<Mutex<T>>);
unsafe impl<T: ?Sized> Send for OwnedMutexGuard<T> {}
impl<T: ?Sized> Deref for OwnedMutexGuard<T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for OwnedMutexGuard<T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for OwnedMutexGuard<T> {
    fn drop(&mut self) {
        unsafe { &mut *self.0.raw.get() }.give(true)
    }
}

pub mod broadcast {
    use super::*;
    struct Chan<T> {
        log: Vec<T>,
        senders: usize,
        waiting: Vec<Waker>,
    }
    pub struct Sender<T>(Arc<UnsafeCell<Chan<T>>>);
    pub struct Receiver<T>(Arc<UnsafeCell<Chan<T>>>, usize);
    unsafe impl<T> Send for Sender<T> {}
    unsafe impl<T> Sync for Sender<T> {}
    unsafe impl<T> Send for Receiver<T> {}
    unsafe impl<T> Sync for Receiver<T> {}
    pub mod error {
        pub struct SendError<T>(pub T);
        impl<T> std::fmt::Debug for SendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("SendError")
            }
        }
        #[derive(Debug, PartialEq, Eq, Clone)]
        pub enum TryRecvError {
            Empty,
            Closed,
            Lagged(u64),
        }
        #[derive(Debug, PartialEq, Eq, Clone)]
        pub enum RecvError {
            Closed,
            Lagged(u64),
        }
    }
    pub fn channel<T: Clone>(_: usize) -> (Sender<T>, Receiver<T>) {
        let c = Arc::new(UnsafeCell::new(Chan { log: vec![], senders: 1, waiting: vec![] }));
        (Sender(c.clone()), Receiver(c, 0))
    }
    impl<T> Sender<T> {
        pub fn send(&self, x: T) -> Result<usize, error::SendError<T>> {
            let c = unsafe { &mut *self.0.get() };
            c.log.push(x);
            for w in std::mem::take(&mut c.waiting) {
                w.wake();
            }
            Ok(1)
        }
        pub fn subscribe(&self) -> Receiver<T> {
            Receiver(self.0.clone(), unsafe { &*self.0.get() }.log.len())
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            unsafe { &mut *self.0.get() }.senders += 1;
            Sender(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            let c = unsafe { &mut *self.0.get() };
            c.senders -= 1;
            if c.senders == 0 {
                for w in std::mem::take(&mut c.waiting) {
                    w.wake();
                }
            }
        }
    }
    impl<T: Clone> Receiver<T> {
        pub fn resubscribe(&self) -> Self {
            Receiver(self.0.clone(), unsafe { &*self.0.get() }.log.len())
        }
        pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
            let c = unsafe { &mut *self.0.get() };
            match c.log.get(self.1) {
                Some(x) => {
                    self.1 += 1;
                    Ok(x.clone())
                }
                None if c.senders == 0 => Err(error::TryRecvError::Closed),
                None => Err(error::TryRecvError::Empty),
            }
        }
        pub async fn recv(&mut self) -> Result<T, error::RecvError> {
            std::future::poll_fn(|cx| {
                let c = unsafe { &mut *self.0.get() };
                if let Some(x) = c.log.get(self.1) {
                    self.1 += 1;
                    return Poll::Ready(Ok(x.clone()));
                }
                if c.senders == 0 {
                    return Poll::Ready(Err(error::RecvError::Closed));
                }
                c.waiting.push(cx.waker().clone());
                Poll::Pending
            })
            .await
        }
    }
}
pub struct Notify {
    permits: UnsafeCell<(usize, Vec<Waker>)>,
}
unsafe impl Send for Notify {}
unsafe impl Sync for Notify {}
impl Default for Notify {
    fn default() -> Self {
        Notify::new()
    }
}
impl std::fmt::Debug for Notify {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str("Notify")
    }
}
impl Notify {
    pub const fn new() -> Self {
        Notify { permits: UnsafeCell::new((0, vec![])) }
    }
    pub fn notify_one(&self) {
        let p = unsafe { &mut *self.permits.get() };
        p.0 = 1;
        for w in std::mem::take(&mut p.1) {
            w.wake();
        }
    }
    pub fn notify_waiters(&self) {
        self.notify_one()
    }
    pub async fn notified(&self) {
        std::future::poll_fn(|c| {
            let p = unsafe { &mut *self.permits.get() };
            if p.0 > 0 {
                p.0 -= 1;
                Poll::Ready(())
            } else {
                p.1.push(c.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
}
