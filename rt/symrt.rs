//! Run-time of the harnesses.  Built twice: for symbolic execution (`sym_*` are intrinsics of the executor) and,
//! with `--cfg replay`, natively, where every symbolic value is read back from a solver model.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::future::Future;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::pin::Pin;

#[cfg(not(replay))]
mod imp {
    extern "C" {
        fn sym_bytes(p: *mut u8, n: usize, name: *const u8, l: usize);
        fn sym_u64(bits: u64, name: *const u8, l: usize) -> u64;
        fn sym_assume(b: bool);
        fn sym_check(b: bool, name: *const u8, l: usize);
        fn sym_cover(name: *const u8, l: usize);
        fn sym_conc(v: u64) -> u64;
        fn sym_pick(n: u64, name: *const u8, l: usize) -> u64;
        fn sym_param(name: *const u8, l: usize, d: u64) -> u64;
        fn sym_end();
        fn sym_bools(k: u64, a: bool, b: bool) -> bool;
        fn sym_set_clock(v: u64);
        fn sym_rand_seed(v: u64);
        fn sym_spawn(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64;
        fn sym_join(id: u64);
        fn sym_preempts(n: u64);
        fn sym_print(name: *const u8, l: usize);
    }
    pub fn fill(b: &mut [u8], name: &str) { if !b.is_empty() { unsafe { sym_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) } } }
    pub fn u(bits: u64, name: &str) -> u64 { unsafe { sym_u64(bits, name.as_ptr(), name.len()) } }
    pub fn assume(b: bool) { unsafe { sym_assume(b) } }
    pub fn check(b: bool, name: &str) { unsafe { sym_check(b, name.as_ptr(), name.len()) } }
    pub fn cover(name: &str) { unsafe { sym_cover(name.as_ptr(), name.len()) } }
    pub fn conc(v: u64) -> u64 { unsafe { sym_conc(v) } }
    pub fn pick(n: u64, name: &str) -> u64 { unsafe { sym_pick(n, name.as_ptr(), name.len()) } }
    pub fn param(name: &str, d: u64) -> u64 { unsafe { sym_param(name.as_ptr(), name.len(), d) } }
    pub fn end() -> ! { unsafe { sym_end() }; loop {} }
    pub fn and(a: bool, b: bool) -> bool { unsafe { sym_bools(0, a, b) } }
    pub fn or(a: bool, b: bool) -> bool { unsafe { sym_bools(1, a, b) } }
    pub fn set_clock(v: u64) { unsafe { sym_set_clock(v) } }
    pub fn rand_seed(v: u64) { unsafe { sym_rand_seed(v) } }
    pub fn preempts(v: u64) { unsafe { sym_preempts(v) } }
    pub fn print(s: &str) { unsafe { sym_print(s.as_ptr(), s.len()) } }
    pub fn spawn(f: Box<dyn FnOnce() + Send>) -> u64 {
        extern "C" fn tramp(p: *mut u8) { let f: Box<Box<dyn FnOnce() + Send>> = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce() + Send>) }; f() }
        unsafe { sym_spawn(tramp, Box::into_raw(Box::new(f)) as *mut u8) }
    }
    pub fn join(id: u64) { unsafe { sym_join(id) } }
    pub fn scratch(name: &str) -> String { name.to_string() }
}

#[cfg(replay)]
mod imp {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! { static ST: RefCell<Option<(HashMap<String, Vec<u8>>, HashMap<String, usize>)>> = RefCell::new(None); }
    fn take(name: &str, n: usize) -> Vec<u8> {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            if s.is_none() {
                let mut m = HashMap::new();
                if let Ok(f) = std::env::var("SYMX_MODEL") { for l in std::fs::read_to_string(f).unwrap().lines() {
                    let k = l.rfind('\t').unwrap();
                    m.insert(l[..k].to_string(), (0..(l.len() - k - 1) / 2).map(|i| u8::from_str_radix(&l[k + 1 + 2 * i..k + 3 + 2 * i], 16).unwrap()).collect());
                } }
                *s = Some((m, HashMap::new()));
            }
            let (m, c) = s.as_mut().unwrap();
            let k = c.entry(name.to_string()).or_insert(0);
            let full = if *k == 0 { name.to_string() } else { format!("{}#{}", name, *k) };
            *k += 1;
            let mut v = m.get(&full).cloned().unwrap_or_default(); v.resize(n, 0); v
        })
    }
    pub fn scratch(name: &str) -> String { format!("{}/symx-{}.{}", std::env::temp_dir().display(), name, std::process::id()) }
    pub fn fill(b: &mut [u8], name: &str) { if !b.is_empty() { let n = b.len(); b.copy_from_slice(&take(name, n)) } }
    pub fn u(bits: u64, name: &str) -> u64 { let v = take(name, ((bits + 7) / 8) as usize); let mut r = 0u64; for (i, b) in v.iter().enumerate() { r |= u64::from(*b) << (8 * i) } r }
    pub fn assume(b: bool) { if !b { println!("ASSUMED-OUT"); std::process::exit(3) } }
    pub fn check(b: bool, name: &str) { if !b { println!("FAILED {}", name); if std::env::var("SYMX_KEEPGOING").is_err() { std::process::exit(1) } } }
    pub fn cover(name: &str) { println!("COVER {}", name) }
    pub fn conc(v: u64) -> u64 { v }
    pub fn pick(n: u64, name: &str) -> u64 { u(if n <= 256 { 8 } else { 16 }, name) }
    pub fn param(name: &str, d: u64) -> u64 { std::env::var(format!("SYMX_PARAM_{}", name)).ok().and_then(|s| s.parse().ok()).unwrap_or(d) }
    pub fn end() -> ! { println!("END"); std::process::exit(0) }
    pub fn and(a: bool, b: bool) -> bool { a & b }
    pub fn or(a: bool, b: bool) -> bool { a | b }
    static mut CLOCK: Option<(i64, i64)> = None;
    pub fn set_clock(v: u64) { unsafe { CLOCK = Some((v as i64, 0)) } }
    #[repr(C)] pub struct Ts { s: i64, n: i64 }
    extern "C" { fn syscall(n: i64, ...) -> i64; }
    /// the clock of the native run, once the harness has set one
    #[no_mangle] pub unsafe extern "C" fn clock_gettime(k: i32, p: *mut Ts) -> i32 {
        match &mut CLOCK { Some((s, n)) => { *n += 1000; if *n >= 1_000_000_000 { *n = 0; *s += 1; } (*p).s = *s; (*p).n = *n; 0 } None => syscall(228, i64::from(k), p) as i32 }
    }
    pub fn rand_seed(_v: u64) {}
    pub fn preempts(_v: u64) {}
    pub fn print(s: &str) { println!("PRINT {}", s) }
    thread_local! { static TH: RefCell<Vec<Option<std::thread::JoinHandle<()>>>> = RefCell::new(vec![]); }
    pub fn spawn(f: Box<dyn FnOnce() + Send>) -> u64 { TH.with(|t| { let mut t = t.borrow_mut(); t.push(Some(std::thread::spawn(move || f()))); t.len() as u64 - 1 }) }
    pub fn join(id: u64) { let h = TH.with(|t| t.borrow_mut()[id as usize].take()); if let Some(h) = h { let _ = h.join(); } }
}

/// Inside `concrete`, "arbitrary" values are a fixed filler.
static CONCRETE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub const FILLER: u8 = 0x31;
fn is_concrete() -> bool { CONCRETE.load(std::sync::atomic::Ordering::Relaxed) }
pub fn concrete<T>(f: impl FnOnce() -> T) -> T { CONCRETE.store(true, std::sync::atomic::Ordering::Relaxed); let r = f(); CONCRETE.store(false, std::sync::atomic::Ordering::Relaxed); r }
fn isym(bits: u64, name: &str) -> u64 { if is_concrete() { u64::from(FILLER) } else { imp::u(bits, name) } }

pub use imp::{and, assume, check, conc, cover, end, join, or, param, preempts, print, rand_seed, set_clock};

/// `n` arbitrary bytes.
pub fn bytes(name: &str, n: usize) -> Vec<u8> { let mut v = vec![FILLER; n]; if !is_concrete() { imp::fill(&mut v, name); } v }
/// Arbitrary bytes of an arbitrary length in `lo..=hi` (the length is forked on).
pub fn bytes_upto(name: &str, lo: usize, hi: usize) -> Vec<u8> { let n = lo + pick(&format!("{}.len", name), hi - lo + 1); bytes(name, n) }
pub fn u8(name: &str) -> u8 { isym(8, name) as u8 }
pub fn u16(name: &str) -> u16 { isym(16, name) as u16 }
pub fn u32(name: &str) -> u32 { isym(32, name) as u32 }
pub fn u64(name: &str) -> u64 { isym(64, name) }
pub fn usize(name: &str) -> usize { isym(64, name) as usize }
pub fn bool(name: &str) -> bool { if is_concrete() { return true; } let v = isym(8, name); imp::assume(v < 2); v == 1 }
/// An arbitrary bit, decided (forked on) at once.
pub fn flag(name: &str) -> bool { pick(name, 2) == 1 }
/// An arbitrary number below `n`, decided (forked on) at once.
pub fn pick(name: &str, n: usize) -> usize {
    if n <= 1 { return 0; }
    if is_concrete() { return n / 2; }
    imp::pick(n as u64, name) as usize
}
/// An arbitrary number below `n`, kept symbolic.
pub fn below(name: &str, n: u64) -> u64 { if is_concrete() { return n / 2; } let v = isym(64, name); imp::assume(v < n); v }
pub fn upto(name: &str, bits: u64) -> u64 { isym(bits, name) }
/// An arbitrary 64-bit number; how many bytes it needs is forked on.
pub fn u64n(name: &str) -> u64 { if is_concrete() { return u64::from(FILLER); } let n = pick(&format!("{}.bytes", name), 9); let b = bytes(name, n); if n > 0 { assume(b[0] != 0); } b.iter().fold(0u64, |a, x| (a << 8) | u64::from(*x)) }
/// An arbitrary 64-bit number; how many 7-bit groups it needs is forked on.
pub fn u64v(name: &str) -> u64 {
    if is_concrete() { return u64::from(FILLER); }
    let n = pick(&format!("{}.groups", name), 11); let b = bytes(name, n); let mut v = 0u64;
    for i in 0..n { let top = i + 1 == n; if top { assume(and(b[i] & 0x7f != 0, or(i < 9, b[i] & 0x7f < 2))); } let g = if i == 9 { b[i] & 1 } else { b[i] & 0x7f }; v |= u64::from(g) << (7 * i); }
    v
}
/// Equality of byte strings as one condition, without branching on each byte.
pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a == b }
pub fn implies(a: bool, b: bool) -> bool { imp::or(!a, b) }
/// Runs `f`, reporting whether it panicked.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, ()> { catch_unwind(AssertUnwindSafe(f)).map_err(|_| ()) }
/// Runs `f` and asserts, under the given name, that it does not panic; the path ends when it does.
pub fn nopanic<T>(name: &str, f: impl FnOnce() -> T) -> T { match catch(f) { Ok(v) => v, Err(_) => { check(false, name); end() } } }
pub fn spawn(f: impl FnOnce() + Send + 'static) -> u64 { imp::spawn(Box::new(f)) }

fn vt_clone(_: *const ()) -> RawWaker { RawWaker::new(std::ptr::null(), &VT) }
fn vt_nop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(vt_clone, vt_nop, vt_nop, vt_nop);
pub fn noop_waker() -> Waker { unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) } }
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> { let w = noop_waker(); let mut cx = Context::from_waker(&w); f.poll(&mut cx) }
/// Drives a future that never has to wait for another task.
pub fn block_on<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    for _ in 0..64 { if let Poll::Ready(v) = poll_once(f.as_mut()) { return v; } }
    panic!("symrt: future never became ready")
}

/// name of a scratch file of this run
pub fn scratch(name: &str) -> String { imp::scratch(name) }

#[macro_export]
macro_rules! entries { ($($n:ident),* $(,)?) => {
    #[cfg(replay)]
    fn main() { let a: Vec<String> = std::env::args().collect(); match a[1].as_str() { $( stringify!($n) => $n(), )* _ => std::process::exit(9) } println!("END"); }
} }
