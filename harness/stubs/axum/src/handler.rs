use crate::extract::{FromRequest, FromRequestParts, Request};
use crate::response::{IntoResponse, Response};
use std::future::Future;
use std::pin::Pin;
pub trait Handler<T, S>: Clone + 'static {
    fn call(self, req: Request, state: S) -> Pin<Box<dyn Future<Output = Response>>>;
}
impl<F, Fut, R, S: 'static> Handler<((),), S> for F
where
    F: FnOnce() -> Fut + Clone + 'static,
    Fut: Future<Output = R> + 'static,
    R: IntoResponse,
{
    fn call(self, _: Request, _: S) -> Pin<Box<dyn Future<Output = Response>>> {
        Box::pin(async move { self().await.into_response() })
    }
}
macro_rules! handler {
    ([$($t:ident),*], $l:ident) => {
        #[allow(non_snake_case, unused_mut)]
        impl<F, Fut, R, S, M, $($t,)* $l> Handler<(M, $($t,)* $l,), S> for F
        where
            F: FnOnce($($t,)* $l,) -> Fut + Clone + 'static,
            Fut: Future<Output = R> + 'static,
            R: IntoResponse,
            S: Send + Sync + 'static,
            $($t: FromRequestParts<S>,)*
            $l: FromRequest<S, M>,
        {
            fn call(self, req: Request, state: S) -> Pin<Box<dyn Future<Output = Response>>> {
                Box::pin(async move {
                    let (mut p, b) = req.into_parts();
                    $(let $t = match $t::from_request_parts(&mut p, &state).await {
                        Ok(x) => x,
                        Err(e) => return e.into_response(),
                    };)*
                    let $l = match $l::from_request(Request::from_parts(p, b), &state).await {
                        Ok(x) => x,
                        Err(e) => return e.into_response(),
                    };
                    self($($t,)* $l,).await.into_response()
                })
            }
        }
    };
}
handler!([], T1);
handler!([T1], T2);
handler!([T1, T2], T3);
handler!([T1, T2, T3], T4);
handler!([T1, T2, T3, T4], T5);
