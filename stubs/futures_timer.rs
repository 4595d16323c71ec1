//! Stand-in for the `futures-timer` crate: a delay elapses when the harness says so.
//@ deps:
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

static TICK: AtomicU64 = AtomicU64::new(0);
/// Time, for the harnesses.
pub mod sim {
    /// the durations asked for so far
    pub fn armed() -> Vec<super::Duration> { super::armed().lock().unwrap().clone() }
    /// every delay armed so far elapses
    pub fn elapse() { super::TICK.fetch_add(1, super::Ordering::SeqCst); }
}
static mut ARMED: Option<Mutex<Vec<Duration>>> = None;
static INIT: std::sync::Once = std::sync::Once::new();
fn armed() -> &'static Mutex<Vec<Duration>> { INIT.call_once(|| unsafe { ARMED = Some(Mutex::new(vec![])) }); unsafe { ARMED.as_ref().unwrap() } }
fn arm(d: Duration) -> u64 { armed().lock().unwrap().push(d); TICK.load(Ordering::SeqCst) }
#[derive(Debug)]
pub struct Delay { armed: u64 }
impl Delay {
    pub fn new(dur: Duration) -> Delay { Delay { armed: arm(dur) } }
    pub fn new_at(_at: Instant) -> Delay { Delay { armed: TICK.load(Ordering::SeqCst) } }
    pub fn reset(&mut self, dur: Duration) { self.armed = arm(dur) }
    pub fn reset_at(&mut self, _at: Instant) { self.armed = TICK.load(Ordering::SeqCst) }
}
impl Future for Delay {
    type Output = io::Result<()>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> { if TICK.load(Ordering::SeqCst) > self.armed { Poll::Ready(Ok(())) } else { Poll::Pending } }
}
