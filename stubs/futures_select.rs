//! `futures` with the `select!` macro, which the build here leaves out (feature async-await): the branches are polled in the order written.
//@ deps: futures
pub use futures::*;
#[macro_export]
macro_rules! select {
    ($a:pat = $fa:expr => $ba:block, $b:pat = $fb:expr => $bb:block, complete => $c:expr $(,)?) => {{
        enum Out<A, B> { First(A), Second(B), Done }
        let out = {
            let mut fa = $fa; let mut fb = $fb;
            $crate::future::poll_fn(|cx| {
                let mut any = false;
                if !$crate::future::FusedFuture::is_terminated(&fa) { any = true; if let std::task::Poll::Ready(v) = std::future::Future::poll(std::pin::Pin::new(&mut fa), cx) { return std::task::Poll::Ready(Out::First(v)); } }
                if !$crate::future::FusedFuture::is_terminated(&fb) { any = true; if let std::task::Poll::Ready(v) = std::future::Future::poll(std::pin::Pin::new(&mut fb), cx) { return std::task::Poll::Ready(Out::Second(v)); } }
                if any { std::task::Poll::Pending } else { std::task::Poll::Ready(Out::Done) }
            }).await
        };
        match out { Out::First($a) => $ba, Out::Second($b) => $bb, Out::Done => $c }
    }};
}
