use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
/// A future whose result is kept until all are there.
pub enum Maybe<F: Future> {
    Going(Pin<Box<F>>),
    Done(Option<F::Output>),
}
impl<F: Future> Maybe<F> {
    pub fn new(f: F) -> Self {
        Maybe::Going(Box::pin(f))
    }
    pub fn take(&mut self) -> F::Output {
        match self {
            Maybe::Done(x) => x.take().unwrap(),
            _ => unreachable!(),
        }
    }
}
/// Whether it has ended, and whether with an error.
pub trait Step {
    fn step(&mut self, c: &mut Context<'_>) -> bool;
}
impl<F: Future> Step for Maybe<F> {
    fn step(&mut self, c: &mut Context<'_>) -> bool {
        if let Maybe::Going(f) = self {
            match f.as_mut().poll(c) {
                Poll::Ready(x) => *self = Maybe::Done(Some(x)),
                Poll::Pending => return false,
            }
        }
        true
    }
}
impl<F: Future<Output = Result<T, E>>, T, E> Maybe<F> {
    pub fn failed(&self) -> bool {
        matches!(self, Maybe::Done(Some(Err(_))))
    }
}
#[macro_export]
macro_rules! join {
    (@ [$($n:ident $f:expr,)*] [$m:ident $($ms:ident)*] $g:expr $(, $r:expr)* $(,)?) => { $crate::join!(@ [$($n $f,)* $m $g,] [$($ms)*] $($r),*) };
    (@ [$($n:ident $f:expr,)*] [$($ms:ident)*]) => {{
        $(let mut $n = $crate::stub::Maybe::new($f);)*
        ::std::future::poll_fn(|c| {
            let mut all = true;
            $(all &= $crate::stub::Step::step(&mut $n, c);)*
            if all { ::std::task::Poll::Ready(()) } else { ::std::task::Poll::Pending }
        })
        .await;
        ($($n.take(),)*)
    }};
    ($($f:expr),+ $(,)?) => { $crate::join!(@ [] [a b c d e f g h] $($f),+) };
}
#[macro_export]
macro_rules! try_join {
    (@ [$($n:ident $f:expr,)*] [$m:ident $($ms:ident)*] $g:expr $(, $r:expr)* $(,)?) => { $crate::try_join!(@ [$($n $f,)* $m $g,] [$($ms)*] $($r),*) };
    (@ [$($n:ident $f:expr,)*] [$($ms:ident)*]) => {{
        $(let mut $n = $crate::stub::Maybe::new($f);)*
        ::std::future::poll_fn(|c| {
            let mut all = true;
            $(
                all &= $crate::stub::Step::step(&mut $n, c);
                if $n.failed() {
                    return ::std::task::Poll::Ready(());
                }
            )*
            if all { ::std::task::Poll::Ready(()) } else { ::std::task::Poll::Pending }
        })
        .await;
        (|| {
            $(
                if $n.failed() {
                    if let Err(e) = $n.take() {
                        return Err(e);
                    }
                    unreachable!()
                }
            )*
            Ok(($(match $n.take() { Ok(x) => x, Err(_) => unreachable!() },)*))
        })()
    }};
    ($($f:expr),+ $(,)?) => { $crate::try_join!(@ [] [a b c d e f g h] $($f),+) };
}
