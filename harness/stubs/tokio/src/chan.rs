//! Channels and the like: everything a task waits for here is looked at anew
//! whenever anything about it changes.
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::future::poll_fn;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

struct Shared<T> {
    v: UnsafeCell<T>,
    waiting: UnsafeCell<Vec<Waker>>,
}
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    const fn new(v: T) -> Self {
        Shared { v: UnsafeCell::new(v), waiting: UnsafeCell::new(vec![]) }
    }
    /// Only one thread runs, and nothing keeps what this returns.
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut T {
        unsafe { &mut *self.v.get() }
    }
    fn changed(&self) {
        for w in std::mem::take(unsafe { &mut *self.waiting.get() }) {
            w.wake();
        }
    }
    fn wait(&self, c: &Context<'_>) {
        unsafe { &mut *self.waiting.get() }.push(c.waker().clone());
    }
    async fn until<R>(&self, mut f: impl FnMut(&mut T) -> Option<R>) -> R {
        crate::stub::point().await;
        poll_fn(|c| match f(self.get()) {
            Some(x) => Poll::Ready(x),
            None => {
                self.wait(c);
                Poll::Pending
            }
        })
        .await
    }
}
macro_rules! error {
    ($($n:ident)*) => { $(
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct $n(pub(crate) ());
        impl std::fmt::Display for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("channel closed")
            }
        }
        impl std::error::Error for $n {}
    )* };
}
pub mod oneshot {
    use super::*;
    use std::future::Future;
    use std::pin::Pin;
    pub mod error {
        error!(RecvError TryRecvError);
    }
    struct One<T> {
        v: Option<T>,
        sent: bool,
        open: bool,
    }
    pub struct Sender<T>(Arc<Shared<One<T>>>);
    pub struct Receiver<T>(Arc<Shared<One<T>>>);
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = Arc::new(Shared::new(One { v: None, sent: false, open: true }));
        (Sender(c.clone()), Receiver(c))
    }
    impl<T> Sender<T> {
        pub fn send(self, x: T) -> Result<(), T> {
            let c = self.0.get();
            if !c.open {
                return Err(x);
            }
            c.v = Some(x);
            Ok(())
        }
        pub fn is_closed(&self) -> bool {
            !self.0.get().open
        }
        pub async fn closed(&mut self) {
            self.0.until(|c| (!c.open).then_some(())).await
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            self.0.get().sent = true;
            self.0.changed();
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.0.get().open = false;
            self.0.changed();
        }
    }
    impl<T> Receiver<T> {
        pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
            self.0.get().v.take().ok_or(error::TryRecvError(()))
        }
    }
    impl<T> Future for Receiver<T> {
        type Output = Result<T, error::RecvError>;
        fn poll(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Self::Output> {
            let o = self.0.get();
            match o.v.take() {
                Some(x) => Poll::Ready(Ok(x)),
                None if o.sent => Poll::Ready(Err(error::RecvError(()))),
                None => {
                    self.0.wait(c);
                    Poll::Pending
                }
            }
        }
    }
}
pub mod mpsc {
    use super::*;
    pub mod error {
        use std::fmt::{Debug, Display, Formatter, Result};
        pub struct SendError<T>(pub T);
        impl<T> Debug for SendError<T> {
            fn fmt(&self, f: &mut Formatter<'_>) -> Result {
                f.write_str("SendError")
            }
        }
        impl<T> Display for SendError<T> {
            fn fmt(&self, f: &mut Formatter<'_>) -> Result {
                f.write_str("channel closed")
            }
        }
        impl<T> std::error::Error for SendError<T> {}
        pub enum TrySendError<T> {
            Full(T),
            Closed(T),
        }
        impl<T> Debug for TrySendError<T> {
            fn fmt(&self, f: &mut Formatter<'_>) -> Result {
                f.write_str("TrySendError")
            }
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum TryRecvError {
            Empty,
            Disconnected,
        }
    }
    struct Chan<T> {
        q: VecDeque<T>,
        room: usize,
        senders: usize,
        open: bool,
    }
    macro_rules! ends {
        ($s:ident $r:ident) => {
            pub struct $s<T>(Arc<Shared<Chan<T>>>);
            pub struct $r<T>(Arc<Shared<Chan<T>>>);
            impl<T> Clone for $s<T> {
                fn clone(&self) -> Self {
                    self.0.get().senders += 1;
                    $s(self.0.clone())
                }
            }
            impl<T> Drop for $s<T> {
                fn drop(&mut self) {
                    self.0.get().senders -= 1;
                    self.0.changed();
                }
            }
            impl<T> Drop for $r<T> {
                fn drop(&mut self) {
                    self.close()
                }
            }
            impl<T> $s<T> {
                pub fn is_closed(&self) -> bool {
                    !self.0.get().open
                }
            }
            impl<T> std::fmt::Debug for $s<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("Sender")
                }
            }
            impl<T> $r<T> {
                pub async fn recv(&mut self) -> Option<T> {
                    let x = self
                        .0
                        .until(|c| match c.q.pop_front() {
                            Some(x) => Some(Some(x)),
                            None if c.senders == 0 || !c.open => Some(None),
                            None => None,
                        })
                        .await;
                    self.0.changed();
                    x
                }
                pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
                    let c = self.0.get();
                    match c.q.pop_front() {
                        Some(x) => {
                            self.0.changed();
                            Ok(x)
                        }
                        None if c.senders == 0 => Err(error::TryRecvError::Disconnected),
                        None => Err(error::TryRecvError::Empty),
                    }
                }
                pub fn close(&mut self) {
                    self.0.get().open = false;
                    self.0.changed();
                }
            }
        };
    }
    ends!(Sender Receiver);
    ends!(UnboundedSender UnboundedReceiver);
    fn new<T>(room: usize) -> Arc<Shared<Chan<T>>> {
        Arc::new(Shared::new(Chan { q: VecDeque::new(), room, senders: 1, open: true }))
    }
    pub fn channel<T>(room: usize) -> (Sender<T>, Receiver<T>) {
        let c = new(room);
        (Sender(c.clone()), Receiver(c))
    }
    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
        let c = new(usize::MAX);
        (UnboundedSender(c.clone()), UnboundedReceiver(c))
    }
    impl<T> Sender<T> {
        pub async fn send(&self, x: T) -> Result<(), error::SendError<T>> {
            let mut x = Some(x);
            let r = self
                .0
                .until(|c| {
                    if !c.open {
                        return Some(Err(error::SendError(x.take().unwrap())));
                    }
                    if c.q.len() >= c.room {
                        return None;
                    }
                    c.q.push_back(x.take().unwrap());
                    Some(Ok(()))
                })
                .await;
            self.0.changed();
            r
        }
        pub fn try_send(&self, x: T) -> Result<(), error::TrySendError<T>> {
            let c = self.0.get();
            if !c.open {
                return Err(error::TrySendError::Closed(x));
            }
            if c.q.len() >= c.room {
                return Err(error::TrySendError::Full(x));
            }
            c.q.push_back(x);
            self.0.changed();
            Ok(())
        }
    }
    impl<T> UnboundedSender<T> {
        pub fn send(&self, x: T) -> Result<(), error::SendError<T>> {
            let c = self.0.get();
            if !c.open {
                return Err(error::SendError(x));
            }
            c.q.push_back(x);
            self.0.changed();
            Ok(())
        }
    }
}
pub mod watch {
    use super::*;
    use std::ops::Deref;
    pub mod error {
        error!(RecvError);
        pub use crate::sync::mpsc::error::SendError;
    }
    struct Chan<T> {
        v: T,
        version: usize,
        senders: usize,
        receivers: usize,
    }
    pub struct Sender<T>(Arc<Shared<Chan<T>>>);
    pub struct Receiver<T>(Arc<Shared<Chan<T>>>, usize);
    pub struct Ref<'a, T>(&'a T);
    impl<T> Deref for Ref<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0
        }
    }
    pub fn channel<T>(v: T) -> (Sender<T>, Receiver<T>) {
        let c = Arc::new(Shared::new(Chan { v, version: 0, senders: 1, receivers: 1 }));
        (Sender(c.clone()), Receiver(c, 0))
    }
    impl<T> Sender<T> {
        pub fn send(&self, x: T) -> Result<(), error::SendError<T>> {
            if self.0.get().receivers == 0 {
                return Err(error::SendError(x));
            }
            self.send_replace(x);
            Ok(())
        }
        pub fn send_replace(&self, x: T) -> T {
            let c = self.0.get();
            c.version += 1;
            let old = std::mem::replace(&mut c.v, x);
            self.0.changed();
            old
        }
        pub fn send_modify(&self, f: impl FnOnce(&mut T)) {
            let c = self.0.get();
            f(&mut c.v);
            c.version += 1;
            self.0.changed();
        }
        pub fn subscribe(&self) -> Receiver<T> {
            let c = self.0.get();
            c.receivers += 1;
            Receiver(self.0.clone(), c.version)
        }
        pub fn borrow(&self) -> Ref<'_, T> {
            Ref(&self.0.get().v)
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.0.get().senders += 1;
            Sender(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            self.0.get().senders -= 1;
            self.0.changed();
        }
    }
    impl<T> Clone for Receiver<T> {
        fn clone(&self) -> Self {
            self.0.get().receivers += 1;
            Receiver(self.0.clone(), self.1)
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.0.get().receivers -= 1;
            self.0.changed();
        }
    }
    impl<T> Receiver<T> {
        pub fn borrow(&self) -> Ref<'_, T> {
            Ref(&self.0.get().v)
        }
        pub fn borrow_and_update(&mut self) -> Ref<'_, T> {
            self.1 = self.0.get().version;
            Ref(&self.0.get().v)
        }
        pub fn has_changed(&self) -> Result<bool, error::RecvError> {
            Ok(self.0.get().version != self.1)
        }
        pub async fn changed(&mut self) -> Result<(), error::RecvError> {
            let seen = self.1;
            let v = self
                .0
                .until(|c| {
                    if c.version != seen {
                        Some(Some(c.version))
                    } else if c.senders == 0 {
                        Some(None)
                    } else {
                        None
                    }
                })
                .await;
            self.1 = v.ok_or(error::RecvError(()))?;
            Ok(())
        }
        pub async fn wait_for(&mut self, mut f: impl FnMut(&T) -> bool) -> Result<Ref<'_, T>, error::RecvError> {
            let ok = self
                .0
                .until(|c| {
                    if f(&c.v) {
                        Some(true)
                    } else if c.senders == 0 {
                        Some(false)
                    } else {
                        None
                    }
                })
                .await;
            if ok {
                Ok(self.borrow_and_update())
            } else {
                Err(error::RecvError(()))
            }
        }
    }
}
error!(AcquireError TryAcquireError SetError);
pub struct Semaphore(Shared<(usize, bool)>);
impl std::fmt::Debug for Semaphore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Semaphore")
    }
}
pub struct SemaphorePermit<'a>(&'a Semaphore, usize);
pub struct OwnedSemaphorePermit(Arc<Semaphore>, usize);
impl Semaphore {
    pub const fn new(n: usize) -> Self {
        Semaphore(Shared::new((n, true)))
    }
    pub fn available_permits(&self) -> usize {
        self.0.get().0
    }
    pub fn add_permits(&self, n: usize) {
        self.0.get().0 += n;
        self.0.changed();
    }
    pub fn close(&self) {
        self.0.get().1 = false;
        self.0.changed();
    }
    async fn take(&self, n: usize) -> Result<(), AcquireError> {
        self.0
            .until(|s| {
                if !s.1 {
                    return Some(Err(AcquireError(())));
                }
                (s.0 >= n).then(|| {
                    s.0 -= n;
                    Ok(())
                })
            })
            .await
    }
    pub async fn acquire(&self) -> Result<SemaphorePermit<'_>, AcquireError> {
        self.take(1).await.map(|()| SemaphorePermit(self, 1))
    }
    pub async fn acquire_many(&self, n: u32) -> Result<SemaphorePermit<'_>, AcquireError> {
        self.take(n as usize).await.map(|()| SemaphorePermit(self, n as usize))
    }
    pub async fn acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, AcquireError> {
        self.take(1).await?;
        Ok(OwnedSemaphorePermit(self, 1))
    }
    pub fn try_acquire(&self) -> Result<SemaphorePermit<'_>, TryAcquireError> {
        let s = self.0.get();
        if s.0 == 0 {
            return Err(TryAcquireError(()));
        }
        s.0 -= 1;
        Ok(SemaphorePermit(self, 1))
    }
}
impl Drop for SemaphorePermit<'_> {
    fn drop(&mut self) {
        self.0.add_permits(self.1)
    }
}
impl Drop for OwnedSemaphorePermit {
    fn drop(&mut self) {
        self.0.add_permits(self.1)
    }
}
pub struct OnceCell<T>(Shared<Option<T>>, super::sync::Mutex<()>);
impl<T> Default for OnceCell<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> OnceCell<T> {
    pub const fn new() -> Self {
        OnceCell(Shared::new(None), super::sync::Mutex::new(()))
    }
    pub const fn const_new() -> Self {
        Self::new()
    }
    pub fn get(&self) -> Option<&T> {
        self.0.get().as_ref()
    }
    pub fn initialized(&self) -> bool {
        self.get().is_some()
    }
    pub fn set(&self, x: T) -> Result<(), SetError> {
        if self.initialized() {
            return Err(SetError(()));
        }
        *self.0.get() = Some(x);
        Ok(())
    }
    pub async fn get_or_init<F: std::future::Future<Output = T>>(&self, f: impl FnOnce() -> F) -> &T {
        let r: Result<&T, std::convert::Infallible> = self.get_or_try_init(|| async { Ok(f().await) }).await;
        match r {
            Ok(x) => x,
            Err(e) => match e {},
        }
    }
    pub async fn get_or_try_init<E, F: std::future::Future<Output = Result<T, E>>>(&self, f: impl FnOnce() -> F) -> Result<&T, E> {
        let _one = self.1.lock().await;
        if !self.initialized() {
            let x = f().await?;
            *self.0.get() = Some(x);
        }
        Ok(self.get().unwrap())
    }
}
