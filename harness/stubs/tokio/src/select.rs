pub enum Out4<A, B, C, D> {
    A(A),
    B(B),
    C(C),
    D(D),
    Else,
}
/// Branches are polled in the order they are written.
#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::select!($($t)*) };
    // all branches are there: fill up to four, then run
    (@fill $e:tt [$($b1:tt)*]) => { $crate::select!(@fill $e [$($b1)*] [_, false, ::std::future::pending::<()>(), unreachable!()]) };
    (@fill $e:tt [$($b1:tt)*] [$($b2:tt)*]) => { $crate::select!(@fill $e [$($b1)*] [$($b2)*] [_, false, ::std::future::pending::<()>(), unreachable!()]) };
    (@fill $e:tt [$($b1:tt)*] [$($b2:tt)*] [$($b3:tt)*]) => { $crate::select!(@fill $e [$($b1)*] [$($b2)*] [$($b3)*] [_, false, ::std::future::pending::<()>(), unreachable!()]) };
    (@fill {$e:expr} [$p1:pat, $c1:expr, $f1:expr, $h1:expr] [$p2:pat, $c2:expr, $f2:expr, $h2:expr] [$p3:pat, $c3:expr, $f3:expr, $h3:expr] [$p4:pat, $c4:expr, $f4:expr, $h4:expr]) => {{
        let mut on = [$c1, $c2, $c3, $c4];
        let mut f1 = ::std::pin::pin!($f1);
        let mut f2 = ::std::pin::pin!($f2);
        let mut f3 = ::std::pin::pin!($f3);
        let mut f4 = ::std::pin::pin!($f4);
        let out = ::std::future::poll_fn(|c| {
            #[allow(unused_variables, unreachable_patterns)]
            if on[0] {
                if let ::std::task::Poll::Ready(x) = ::std::future::Future::poll(f1.as_mut(), c) {
                    match &x {
                        $p1 => return ::std::task::Poll::Ready($crate::stub::Out4::A(x)),
                        _ => on[0] = false,
                    }
                }
            }
            #[allow(unused_variables, unreachable_patterns)]
            if on[1] {
                if let ::std::task::Poll::Ready(x) = ::std::future::Future::poll(f2.as_mut(), c) {
                    match &x {
                        $p2 => return ::std::task::Poll::Ready($crate::stub::Out4::B(x)),
                        _ => on[1] = false,
                    }
                }
            }
            #[allow(unused_variables, unreachable_patterns)]
            if on[2] {
                if let ::std::task::Poll::Ready(x) = ::std::future::Future::poll(f3.as_mut(), c) {
                    match &x {
                        $p3 => return ::std::task::Poll::Ready($crate::stub::Out4::C(x)),
                        _ => on[2] = false,
                    }
                }
            }
            #[allow(unused_variables, unreachable_patterns)]
            if on[3] {
                if let ::std::task::Poll::Ready(x) = ::std::future::Future::poll(f4.as_mut(), c) {
                    match &x {
                        $p4 => return ::std::task::Poll::Ready($crate::stub::Out4::D(x)),
                        _ => on[3] = false,
                    }
                }
            }
            if on == [false; 4] {
                return ::std::task::Poll::Ready($crate::stub::Out4::Else);
            }
            ::std::task::Poll::Pending
        })
        .await;
        #[allow(unreachable_patterns, unreachable_code)]
        match out {
            $crate::stub::Out4::A($p1) => $h1,
            $crate::stub::Out4::B($p2) => $h2,
            $crate::stub::Out4::C($p3) => $h3,
            $crate::stub::Out4::D($p4) => $h4,
            _ => $e,
        }
    }};
    (@go $b:tt ;) => { $crate::select!(@done $b {panic!("all branches are disabled and there is no else branch")}) };
    (@go $b:tt ; else => $h:expr $(,)?) => { $crate::select!(@done $b {$h}) };
    (@done ($([$($b:tt)*])*) $e:tt) => { $crate::select!(@fill $e $([$($b)*])*) };
    (@go ($($b:tt)*) ; $p:pat = $f:expr, if $c:expr => $h:block , $($r:tt)*) => { $crate::select!(@go ($($b)* [$p, $c, $f, $h]) ; $($r)*) };
    (@go ($($b:tt)*) ; $p:pat = $f:expr, if $c:expr => $h:block $($r:tt)*) => { $crate::select!(@go ($($b)* [$p, $c, $f, $h]) ; $($r)*) };
    (@go ($($b:tt)*) ; $p:pat = $f:expr, if $c:expr => $h:expr , $($r:tt)*) => { $crate::select!(@go ($($b)* [$p, $c, $f, $h]) ; $($r)*) };
    (@go ($($b:tt)*) ; $p:pat = $f:expr, if $c:expr => $h:expr) => { $crate::select!(@go ($($b)* [$p, $c, $f, $h]) ;) };
    (@go ($($b:tt)*) ; $p:pat = $f:expr => $h:block , $($r:tt)*) => { $crate::select!(@go ($($b)* [$p, true, $f, $h]) ; $($r)*) };
    (@go ($($b:tt)*) ; $p:pat = $f:expr => $h:block $($r:tt)*) => { $crate::select!(@go ($($b)* [$p, true, $f, $h]) ; $($r)*) };
    (@go ($($b:tt)*) ; $p:pat = $f:expr => $h:expr , $($r:tt)*) => { $crate::select!(@go ($($b)* [$p, true, $f, $h]) ; $($r)*) };
    (@go ($($b:tt)*) ; $p:pat = $f:expr => $h:expr) => { $crate::select!(@go ($($b)* [$p, true, $f, $h]) ;) };
    ($p:pat = $($t:tt)*) => { $crate::select!(@go () ; $p = $($t)*) };
}
