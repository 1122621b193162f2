//! A stand-in for tokio which the harness drives: tasks run one at a time, every
//! point at which another task could run is a choice, the file system is in
//! memory and can fail or end the process at any of its steps.
pub use stubmacros::main;
mod chan;
pub mod fs;
pub mod io;
mod join;
mod select;
pub mod stub;
pub mod sync;
pub use std::pin::pin;
pub use task::spawn;

pub mod task {
    use std::cell::RefCell;
    use std::fmt::{Debug, Display, Formatter};
    use std::future::Future;
    use std::pin::Pin;
    use std::rc::Rc;
    use std::task::{Context, Poll, Waker};

    struct Slot<T> {
        out: Option<T>,
        done: bool,
        cancelled: bool,
        waiting: Option<Waker>,
    }
    pub struct JoinHandle<T>(Rc<RefCell<Slot<T>>>, usize);
    impl<T> Unpin for JoinHandle<T> {}
    unsafe impl<T> Send for JoinHandle<T> {}
    unsafe impl<T> Sync for JoinHandle<T> {}
    pub struct JoinError(bool);
    impl JoinError {
        pub fn is_cancelled(&self) -> bool {
            self.0
        }
        pub fn is_panic(&self) -> bool {
            !self.0
        }
    }
    impl Debug for JoinError {
        fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
            f.write_str("JoinError")
        }
    }
    impl Display for JoinError {
        fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
            f.write_str("JoinError")
        }
    }
    impl std::error::Error for JoinError {}
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Self::Output> {
            let mut s = self.0.borrow_mut();
            match s.out.take() {
                Some(x) => Poll::Ready(Ok(x)),
                None if s.cancelled => Poll::Ready(Err(JoinError(true))),
                None => {
                    s.waiting = Some(c.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
    impl<T> JoinHandle<T> {
        pub fn is_finished(&self) -> bool {
            self.0.borrow().done
        }
        pub fn abort(&self) {
            let mut s = self.0.borrow_mut();
            if !s.done {
                s.done = true;
                s.cancelled = true;
                let w = s.waiting.take();
                drop(s);
                crate::stub::cancel(self.1);
                if let Some(w) = w {
                    w.wake();
                }
            }
        }
        pub fn abort_handle(&self) -> AbortHandle
        where
            T: 'static,
        {
            let h = JoinHandle(self.0.clone(), self.1);
            AbortHandle(Rc::new(move || h.abort()))
        }
    }
    #[derive(Clone)]
    pub struct AbortHandle(Rc<dyn Fn()>);
    unsafe impl Send for AbortHandle {}
    unsafe impl Sync for AbortHandle {}
    impl AbortHandle {
        pub fn abort(&self) {
            (self.0)()
        }
    }
    pub fn block_in_place<R>(f: impl FnOnce() -> R) -> R {
        f()
    }
    /// Tasks which are waited for together, in the order they end.
    pub struct JoinSet<T>(Vec<JoinHandle<T>>);
    impl<T> Default for JoinSet<T> {
        fn default() -> Self {
            JoinSet(vec![])
        }
    }
    impl<T: 'static> JoinSet<T> {
        pub fn new() -> Self {
            JoinSet(vec![])
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn spawn(&mut self, f: impl Future<Output = T> + 'static) -> AbortHandle {
            let h = spawn(f);
            let a = h.abort_handle();
            self.0.push(h);
            a
        }
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
            if self.0.is_empty() {
                return None;
            }
            std::future::poll_fn(|c| {
                for i in 0..self.0.len() {
                    if let Poll::Ready(x) = Pin::new(&mut self.0[i]).poll(c) {
                        self.0.remove(i);
                        return Poll::Ready(Some(x));
                    }
                }
                Poll::Pending
            })
            .await
        }
        pub async fn join_all(mut self) -> Vec<T> {
            let mut out = vec![];
            while let Some(x) = self.join_next().await {
                out.push(x.unwrap());
            }
            out
        }
        pub fn abort_all(&mut self) {
            for h in &self.0 {
                h.abort();
            }
        }
        pub async fn shutdown(&mut self) {
            self.abort_all();
            self.0.clear();
        }
    }
    impl<T> Drop for JoinSet<T> {
        fn drop(&mut self) {
            for h in &self.0 {
                h.abort();
            }
        }
    }
    pub fn spawn<F: Future + 'static>(f: F) -> JoinHandle<F::Output>
    where
        F::Output: 'static,
    {
        let slot = Rc::new(RefCell::new(Slot { out: None, done: false, cancelled: false, waiting: None }));
        let s = slot.clone();
        let id = crate::stub::add(Box::pin(async move {
            let x = f.await;
            let mut s = s.borrow_mut();
            s.out = Some(x);
            s.done = true;
            if let Some(w) = s.waiting.take() {
                w.wake();
            }
        }));
        JoinHandle(slot, id)
    }
    pub fn spawn_blocking<R: 'static>(f: impl FnOnce() -> R + 'static) -> JoinHandle<R> {
        spawn(async move {
            crate::stub::point().await;
            f()
        })
    }
    pub async fn yield_now() {
        crate::stub::point().await
    }
}

pub mod time {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub use std::time::Duration;
    /// Only what is asked for: the harness says when time passes.
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Instant(Duration);
    impl Instant {
        pub fn now() -> Self {
            Instant(Duration::from_secs(10 * crate::stub::ticks() as u64))
        }
        pub fn elapsed(&self) -> Duration {
            Instant::now().0.saturating_sub(self.0)
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
    }
    impl std::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d)
        }
    }
    impl std::ops::Sub for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.duration_since(o)
        }
    }
    pub fn sleep_until(_: Instant) -> Sleep {
        Sleep(None)
    }
    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(crate) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
    }
    pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
        let mut f = std::pin::pin!(f);
        let mut s = std::pin::pin!(sleep(d));
        std::future::poll_fn(|c| {
            if let Poll::Ready(x) = f.as_mut().poll(c) {
                return Poll::Ready(Ok(x));
            }
            s.as_mut().poll(c).map(|()| Err(error::Elapsed(())))
        })
        .await
    }
    /// Ends when the harness says that time has passed.
    pub struct Sleep(Option<u32>);
    pub fn sleep(_: Duration) -> Sleep {
        Sleep(None)
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> {
            let now = crate::stub::ticks();
            let from = *self.0.get_or_insert(now);
            if now > from {
                Poll::Ready(())
            } else {
                crate::stub::on_tick(c.waker().clone());
                Poll::Pending
            }
        }
    }
    pub struct Interval(bool, Sleep);
    pub fn interval(_: Duration) -> Interval {
        Interval(true, Sleep(None))
    }
    impl Interval {
        pub async fn tick(&mut self) {
            if std::mem::take(&mut self.0) {
                return;
            }
            Pin::new(&mut self.1).await;
            self.1 = Sleep(None);
        }
        pub fn set_missed_tick_behavior(&mut self, _: MissedTickBehavior) {}
        pub fn reset(&mut self) {
            self.0 = false;
            self.1 = Sleep(None);
        }
    }
    pub fn interval_at(_: Instant, _: Duration) -> Interval {
        Interval(false, Sleep(None))
    }
    pub enum MissedTickBehavior {
        Burst,
        Delay,
        Skip,
    }
}

pub mod signal {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    struct Asked;
    impl Future for Asked {
        type Output = ();
        fn poll(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> {
            if crate::stub::stopping(c.waker().clone()) {
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        }
    }
    pub async fn ctrl_c() -> std::io::Result<()> {
        if crate::stub::by_ctrl_c() {
            Asked.await
        } else {
            std::future::pending::<()>().await
        }
        Ok(())
    }
    pub mod unix {
        #[derive(Clone, Copy, Debug)]
        pub struct SignalKind(i32);
        impl SignalKind {
            pub fn terminate() -> Self {
                SignalKind(15)
            }
            pub fn interrupt() -> Self {
                SignalKind(2)
            }
            pub fn hangup() -> Self {
                SignalKind(1)
            }
            pub fn quit() -> Self {
                SignalKind(3)
            }
        }
        pub struct Signal(SignalKind);
        pub fn signal(k: SignalKind) -> std::io::Result<Signal> {
            Ok(Signal(k))
        }
        impl Signal {
            pub async fn recv(&mut self) -> Option<()> {
                if self.0 .0 == 15 && !crate::stub::by_ctrl_c() {
                    super::Asked.await
                } else {
                    std::future::pending::<()>().await
                }
                Some(())
            }
        }
    }
}

pub mod net {
    #[derive(Debug)]
    pub struct TcpListener(());
    impl TcpListener {
        pub async fn bind<A>(_: A) -> std::io::Result<Self> {
            Ok(TcpListener(()))
        }
    }
}
