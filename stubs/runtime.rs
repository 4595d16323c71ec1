//! Stand-in for the `runtime` crate (threads and timers): spawned tasks are queued, the harness decides when each runs.
//@ deps:
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

type Task = Pin<Box<dyn Future<Output = ()> + Send>>;
static mut QUEUE: Option<Mutex<Vec<Task>>> = None;
static INIT: std::sync::Once = std::sync::Once::new();
fn queue() -> &'static Mutex<Vec<Task>> { INIT.call_once(|| unsafe { QUEUE = Some(Mutex::new(vec![])) }); unsafe { QUEUE.as_ref().unwrap() } }
/// The scheduler, for the harnesses.
pub mod sim {
    /// the tasks spawned since the last call, in order
    pub fn take() -> Vec<super::Task> { std::mem::replace(&mut *super::queue().lock().unwrap(), vec![]) }
}
pub mod task {
    use super::*;
    struct Slot<T> { val: Option<T>, waker: Option<Waker> }
    pub struct JoinHandle<T> { slot: Arc<Mutex<Slot<T>>> }
    impl<T> std::fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("JoinHandle") } }
    impl<T> Future for JoinHandle<T> {
        type Output = T;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> { let mut s = self.slot.lock().unwrap(); match s.val.take() { Some(v) => Poll::Ready(v), None => { s.waker = Some(cx.waker().clone()); Poll::Pending } } }
    }
    pub fn spawn<F, T>(fut: F) -> JoinHandle<T> where F: Future<Output = T> + Send + 'static, T: Send + 'static {
        let slot = Arc::new(Mutex::new(Slot { val: None, waker: None })); let s2 = slot.clone();
        let t: Task = Box::pin(async move { let v = fut.await; let mut s = s2.lock().unwrap(); s.val = Some(v); if let Some(w) = s.waker.take() { w.wake() } });
        queue().lock().unwrap().push(t); JoinHandle { slot }
    }
}
pub use task::spawn;
