use crate::extract::{DefaultBodyLimit, Request};
use crate::handler::Handler;
use crate::response::{IntoResponse, Response};
use crate::stub::Limit;
use http::{Method, StatusCode};
use std::any::Any;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
type Erased<S> = Rc<dyn Fn(Request, S) -> Pin<Box<dyn Future<Output = Response>>>>;
fn erase<H: Handler<T, S>, T: 'static, S: 'static>(h: H) -> Erased<S> {
    Rc::new(move |r, s| h.clone().call(r, s))
}
pub struct MethodRouter<S = ()>(Vec<(Option<Method>, Erased<S>, Option<usize>)>);
impl<S> Clone for MethodRouter<S> {
    fn clone(&self) -> Self {
        MethodRouter(self.0.clone())
    }
}
/// What axum allows unless told otherwise.
const LIMIT: Option<usize> = Some(2_097_152);
macro_rules! methods {
    ($($f:ident $m:ident),*) => {
        $(pub fn $f<H: Handler<T, S>, T: 'static, S: 'static>(h: H) -> MethodRouter<S> {
            MethodRouter(vec![(Some(Method::$m), erase(h), LIMIT)])
        })*
        impl<S: 'static> MethodRouter<S> {
            $(pub fn $f<H: Handler<T, S>, T: 'static>(mut self, h: H) -> Self {
                self.0.push((Some(Method::$m), erase(h), LIMIT));
                self
            })*
        }
    };
}
methods!(get GET, post POST, put PUT, delete DELETE, patch PATCH, head HEAD, options OPTIONS);
pub fn any<H: Handler<T, S>, T: 'static, S: 'static>(h: H) -> MethodRouter<S> {
    MethodRouter(vec![(None, erase(h), LIMIT)])
}
impl<S: 'static> MethodRouter<S> {
    pub fn layer<L: Any>(mut self, l: L) -> Self {
        if let Some(l) = (&l as &dyn Any).downcast_ref::<DefaultBodyLimit>() {
            for r in &mut self.0 {
                r.2 = l.0;
            }
        }
        self
    }
}
pub struct Router<S = ()> {
    routes: Vec<(String, MethodRouter<S>)>,
    fallback: Option<Erased<S>>,
}
impl<S> Clone for Router<S> {
    fn clone(&self) -> Self {
        Router { routes: self.routes.clone(), fallback: self.fallback.clone() }
    }
}
impl<S: Clone + Send + Sync + 'static> Default for Router<S> {
    fn default() -> Self {
        Router::new()
    }
}
impl<S: Clone + Send + Sync + 'static> Router<S> {
    pub fn new() -> Self {
        Router { routes: vec![], fallback: None }
    }
    pub fn route(mut self, p: &str, m: MethodRouter<S>) -> Self {
        match self.routes.iter_mut().find(|r| r.0 == p) {
            Some(r) => r.1 .0.extend(m.0),
            None => self.routes.push((p.to_string(), m)),
        }
        self
    }
    pub fn nest(mut self, p: &str, r: Router<S>) -> Self {
        for (q, m) in r.routes {
            let q = if q == "/" { p.to_string() } else { format!("{}{q}", p.trim_end_matches('/')) };
            self = self.route(&q, m);
        }
        self
    }
    pub fn merge(mut self, r: Router<S>) -> Self {
        for (q, m) in r.routes {
            self = self.route(&q, m);
        }
        self
    }
    pub fn fallback<H: Handler<T, S>, T: 'static>(mut self, h: H) -> Self {
        self.fallback = Some(erase(h));
        self
    }
    /// Only what limits bodies does anything; it does so for the routes there are so far.
    pub fn layer<L: Any + Clone>(mut self, l: L) -> Self {
        for r in &mut self.routes {
            r.1 = MethodRouter(std::mem::take(&mut r.1 .0)).layer(l.clone());
        }
        self
    }
    pub fn route_layer<L: Any + Clone>(self, l: L) -> Self {
        self.layer(l)
    }
    pub fn with_state<S2: 'static>(self, s: S) -> Router<S2> {
        fn bind<S: Clone + 'static, S2: 'static>(h: Erased<S>, s: S) -> Erased<S2> {
            Rc::new(move |r, _| h(r, s.clone()))
        }
        Router {
            routes: self
                .routes
                .into_iter()
                .map(|(p, m)| (p, MethodRouter(m.0.into_iter().map(|(m, h, l)| (m, bind(h, s.clone()), l)).collect())))
                .collect(),
            fallback: self.fallback.map(|h| bind(h, s.clone())),
        }
    }
}
impl Router<()> {
    pub(crate) async fn answer(self, path: String, mut req: Request) -> Response {
        let Some(r) = self.routes.iter().find(|r| r.0 == path) else {
            return match &self.fallback {
                Some(h) => h(req, ()).await,
                None => StatusCode::NOT_FOUND.into_response(),
            };
        };
        match r.1 .0.iter().find(|h| h.0.as_ref().map_or(true, |m| m == req.method())) {
            Some(h) => {
                req.extensions_mut().insert(Limit(h.2));
                h.1(req, ()).await
            }
            None => StatusCode::METHOD_NOT_ALLOWED.into_response(),
        }
    }
    pub fn into_make_service(self) -> Self {
        self
    }
}
