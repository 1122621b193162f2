//! What the harness drives tasks, time, signals and faults with.
pub use crate::join::{Maybe, Step};
pub use crate::select::Out4;
use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

type Fut = Pin<Box<dyn Future<Output = ()>>>;
pub(crate) struct Global<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Global<T> {}
impl<T> Global<T> {
    pub(crate) const fn new(x: T) -> Self {
        Global(UnsafeCell::new(x))
    }
    /// Only one thread runs, and nothing keeps what this returns.
    #[allow(clippy::mut_from_ref)]
    pub(crate) fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}
struct Exec {
    tasks: Vec<Option<Fut>>,
    woken: Vec<bool>,
    /// Whether other tasks may run at each point where they could.
    concurrent: bool,
    evictions: bool,
    /// Preemptions of a task which could have gone on still allowed.
    budget: u32,
    last: usize,
    crashed: bool,
    ticks: u32,
    on_tick: Vec<Waker>,
    stop: bool,
    ctrl_c: bool,
    on_stop: Vec<Waker>,
}
static E: Global<Exec> = Global::new(Exec {
    tasks: vec![],
    woken: vec![],
    concurrent: false,
    evictions: false,
    budget: u32::MAX,
    last: usize::MAX,
    crashed: false,
    ticks: 0,
    on_tick: vec![],
    stop: false,
    ctrl_c: true,
    on_stop: vec![],
});
/// The process ends: nothing is left of it.
pub fn reset() {
    let e = E.get();
    // a process which is killed runs no destructors
    for t in std::mem::take(&mut e.tasks) {
        std::mem::forget(t);
    }
    e.woken.clear();
    e.concurrent = false;
    e.evictions = false;
    e.budget = u32::MAX;
    e.last = usize::MAX;
    e.crashed = false;
    e.on_tick.clear();
    e.stop = false;
    e.on_stop.clear();
}
pub fn concurrent(on: bool, preemptions: u32) {
    E.get().concurrent = on;
    E.get().budget = preemptions;
}
pub fn allow_evictions(on: bool) {
    E.get().evictions = on;
}
pub fn evictions() -> bool {
    E.get().evictions
}
pub fn add(f: Fut) -> usize {
    let e = E.get();
    e.tasks.push(Some(f));
    e.woken.push(true);
    e.tasks.len() - 1
}
/// The task goes no further.
pub(crate) fn cancel(t: usize) {
    if let Some(t) = E.get().tasks.get_mut(t) {
        drop(t.take());
    }
}
pub fn finished(t: usize) -> bool {
    E.get().tasks[t].is_none()
}
pub fn crash() {
    E.get().crashed = true;
}
pub fn crashed() -> bool {
    E.get().crashed
}

const V: RawWakerVTable = RawWakerVTable::new(
    |d| RawWaker::new(d, &V),
    |d| wake(d as usize),
    |d| wake(d as usize),
    |_| {},
);
fn wake(t: usize) {
    if let Some(w) = E.get().woken.get_mut(t) {
        *w = true;
    }
}
fn poll(t: usize) {
    let Some(mut f) = E.get().tasks[t].take() else { return };
    E.get().woken[t] = false;
    let w = unsafe { Waker::from_raw(RawWaker::new(t as *const (), &V)) };
    let r = f.as_mut().poll(&mut Context::from_waker(&w));
    if r.is_pending() {
        E.get().tasks[t] = Some(f);
    }
}
/// Runs until no task can go on, or the process ends.
pub fn run() {
    loop {
        let e = E.get();
        if e.crashed {
            return;
        }
        let ready: Vec<usize> = (0..e.tasks.len()).filter(|t| e.woken[*t] && e.tasks[*t].is_some()).collect();
        if ready.is_empty() {
            return;
        }
        let t = if e.concurrent && ready.len() > 1 {
            match ready.iter().position(|t| *t == e.last) {
                Some(_) if e.budget == 0 => e.last,
                Some(i) => {
                    let c = rt::choice(ready.len() as u32) as usize;
                    if c != i {
                        e.budget -= 1;
                    }
                    ready[c]
                }
                None => ready[rt::choice(ready.len() as u32) as usize],
            }
        } else {
            ready[0]
        };
        E.get().last = t;
        poll(t);
    }
}
/// Runs a future whilst no other task has anything to do.
pub fn block_on<T: 'static>(f: impl Future<Output = T> + 'static) -> Option<T> {
    let out = std::rc::Rc::new(UnsafeCell::new(None));
    let o = out.clone();
    add(Box::pin(async move {
        let x = f.await;
        unsafe { *o.get() = Some(x) };
    }));
    run();
    unsafe { (*out.get()).take() }
}
/// A moment at which another task may run.
pub struct Point(bool);
pub fn point() -> Point {
    Point(!E.get().concurrent)
}
impl Future for Point {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        c.waker().wake_by_ref();
        Poll::Pending
    }
}
pub(crate) fn ticks() -> u32 {
    E.get().ticks
}
pub(crate) fn on_tick(w: Waker) {
    E.get().on_tick.push(w)
}
/// Every sleep ends.
pub fn tick() {
    E.get().ticks += 1;
    for w in std::mem::take(&mut E.get().on_tick) {
        w.wake();
    }
}
pub(crate) fn stopping(w: Waker) -> bool {
    E.get().on_stop.push(w);
    E.get().stop
}
pub(crate) fn by_ctrl_c() -> bool {
    E.get().ctrl_c
}
/// The process is asked to end.
pub fn stop(ctrl_c: bool) {
    E.get().stop = true;
    E.get().ctrl_c = ctrl_c;
    for w in std::mem::take(&mut E.get().on_stop) {
        w.wake();
    }
}
pub fn by(ctrl_c: bool) {
    E.get().ctrl_c = ctrl_c;
}
/// Runs a future to its end at once, without letting any other task go on.
pub fn now<T>(f: impl Future<Output = T>) -> Option<T> {
    let c = std::mem::replace(&mut E.get().concurrent, false);
    let w = unsafe { Waker::from_raw(RawWaker::new(usize::MAX as *const (), &V)) };
    let r = std::pin::pin!(f).poll(&mut Context::from_waker(&w));
    E.get().concurrent = c;
    match r {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}
