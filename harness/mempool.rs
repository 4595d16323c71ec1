//! The transaction pool: what it takes, packages, forgets and passes on.
//@ deps: protocol bytes num_bigint serde_json core_mempool core_storage common_crypto futures async_trait runtime futures_timer
use anyval as a;
use async_trait::async_trait;
use bytes::Bytes;
use common_crypto::Secp256k1;
use core_mempool::*;
use core_storage::adapter::memory::MemoryAdapter;
use core_storage::ImplStorage;
use protocol::fixed_codec::ProtocolFixedCodec;
use protocol::traits::*;
use protocol::types::*;
use protocol::{ProtocolError, ProtocolErrorKind, ProtocolResult};
use std::sync::{Arc, Mutex};
use std::task::Poll;
use symrt as s;

#[derive(Debug)] struct Down; impl std::fmt::Display for Down { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "down") } } impl std::error::Error for Down {}
fn down<T>() -> ProtocolResult<T> { Err(ProtocolError::new(ProtocolErrorKind::Network, Box::new(Down))) }
const CHAIN: u8 = 0xc4;
/// a transaction with its proper hash and signature
fn tx(k: u8, timeout: u64) -> SignedTransaction { tx_of(k, timeout, a::chash(CHAIN)) }
fn tx_of(k: u8, timeout: u64, chain_id: Hash) -> SignedTransaction {
    let mut raw = s::concrete(|| { let mut g = a::Gen::plain(); let x = a::transfer(&mut g); a::raw(&mut g, x) }); raw.chain_id = chain_id; raw.nonce = a::chash(k); raw.timeout = timeout; raw.fee.cycle = 5;
    let h = Hash::digest(raw.encode_fixed().unwrap()); sign(SignedTransaction { raw, tx_hash: h, pubkey: pubkey(k), signature: Bytes::new() }, k)
}
fn pubkey(k: u8) -> Bytes { let mut p = vec![k; 33]; p[0] = 2; Bytes::from(p) }
fn sign(mut t: SignedTransaction, k: u8) -> SignedTransaction { let mut v = t.tx_hash.as_bytes().to_vec(); v.extend_from_slice(&[k; 32]); t.signature = Bytes::from(v); t }

// ---- the surroundings
#[derive(Clone, Default)] struct Net { sent: Arc<Mutex<Vec<(String, Bytes, bool)>>>, answer: Arc<Mutex<Option<Bytes>>>, fails: Arc<Mutex<bool>> }
impl Net { fn take(&self) -> Vec<(String, Bytes, bool)> { std::mem::replace(&mut *self.sent.lock().unwrap(), vec![]) } fn put(&self, e: &str, b: Bytes, p: Priority) { let high = match p { Priority::High => true, _ => false }; self.sent.lock().unwrap().push((e.to_owned(), b, high)) } }
#[async_trait] impl Gossip for Net {
    async fn broadcast<M: MessageCodec>(&self, _: Context, end: &str, mut msg: M, p: Priority) -> ProtocolResult<()> { if *self.fails.lock().unwrap() { return down(); } let b = msg.encode().await?; self.put(end, b, p); Ok(()) }
    async fn users_cast<M: MessageCodec>(&self, _: Context, _: &str, _: Vec<UserAddress>, _: M, _: Priority) -> ProtocolResult<()> { s::check(false, "transactions are not sent to single users"); down() }
}
#[async_trait] impl Rpc for Net {
    async fn call<M: MessageCodec, R: MessageCodec>(&self, _: Context, end: &str, mut msg: M, p: Priority) -> ProtocolResult<R> { let b = msg.encode().await?; self.put(end, b, p); let r = self.answer.lock().unwrap().clone(); match r { Some(b) => R::decode(b).await, None => down() } }
    async fn response<M: MessageCodec>(&self, _: Context, end: &str, mut msg: M, p: Priority) -> ProtocolResult<()> { let b = msg.encode().await?; self.put(end, b, p); Ok(()) }
}
/// real storage, except for the number of the latest epoch and a failing disk
struct St { inner: ImplStorage<MemoryAdapter>, latest: Mutex<u64>, fails: Mutex<bool> }
impl St { fn new(latest: u64) -> Arc<St> { Arc::new(St { inner: ImplStorage::new(Arc::new(MemoryAdapter::new())), latest: Mutex::new(latest), fails: Mutex::new(false) }) } }
#[async_trait] impl Storage for St {
    async fn insert_transactions(&self, t: Vec<SignedTransaction>) -> ProtocolResult<()> { self.inner.insert_transactions(t).await }
    async fn insert_epoch(&self, _: Epoch) -> ProtocolResult<()> { down() }
    async fn insert_receipts(&self, _: Vec<Receipt>) -> ProtocolResult<()> { down() }
    async fn update_latest_proof(&self, _: Proof) -> ProtocolResult<()> { down() }
    async fn get_transaction_by_hash(&self, h: Hash) -> ProtocolResult<SignedTransaction> { if *self.fails.lock().unwrap() { return down(); } self.inner.get_transaction_by_hash(h).await }
    async fn get_transactions(&self, h: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> { self.inner.get_transactions(h).await }
    async fn get_latest_epoch(&self) -> ProtocolResult<Epoch> { let mut e = s::concrete(|| a::epoch(&mut a::Gen::plain(), 0)); e.header.chain_id = a::chash(CHAIN); e.header.epoch_id = *self.latest.lock().unwrap(); Ok(e) }
    async fn get_epoch_by_epoch_id(&self, _: u64) -> ProtocolResult<Epoch> { down() }
    async fn get_epoch_by_hash(&self, _: Hash) -> ProtocolResult<Epoch> { down() }
    async fn get_receipt(&self, _: Hash) -> ProtocolResult<Receipt> { down() }
    async fn get_receipts(&self, _: Vec<Hash>) -> ProtocolResult<Vec<Receipt>> { down() }
    async fn get_latest_proof(&self) -> ProtocolResult<Proof> { down() }
}
type Tasks = Vec<std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>>>;
type Pool = HashMemPool<DefaultMemPoolAdapter<Secp256k1, Net, St>>;
/// a pool with everything around it
struct World { pool: Arc<Pool>, net: Net, st: Arc<St>, tasks: Tasks }
fn world(size: usize, gap: u64, latest: u64, batch: usize) -> World { let net = Net::default(); let st = St::new(latest); let ad = DefaultMemPoolAdapter::new(net.clone(), st.clone(), gap, batch, 200); let pool = Arc::new(HashMemPool::new(size, gap, ad)); World { pool, net, st, tasks: runtime::sim::take() } }
impl World {
    fn run(&mut self) { for _ in 0..3 { for t in self.tasks.iter_mut() { s::check(s::nopanic("passing on does not panic", || s::poll_once(t.as_mut())) == Poll::Pending, "passing on goes on"); } self.tasks.extend(runtime::sim::take()); } }
    fn tick(&mut self) { self.run(); futures_timer::sim::elapse(); self.run(); }
    fn insert(&self, t: &SignedTransaction) -> bool { s::nopanic("taking a transaction does not panic", || s::block_on(self.pool.insert(Context::new(), t.clone()))).is_ok() }
    fn has(&self, t: &SignedTransaction) -> bool { has(&*self.pool, t) }
    fn gossiped(&self) -> Vec<Vec<SignedTransaction>> { self.net.take().into_iter().map(|(e, b, high)| { s::check(e == END_GOSSIP_NEW_TXS && !high, "new transactions are gossiped as such"); s::block_on(<NewTxsHandler<Pool> as MessageHandler>::Message::decode(b)).unwrap().batch_stxs }).collect() }
}
fn has<M: MemPool>(p: &M, t: &SignedTransaction) -> bool { match s::block_on(p.get_full_txs(Context::new(), vec![t.tx_hash.clone()])) { Ok(v) => { s::check(v.len() == 1 && v[0] == *t, "the pool gives back what it took"); true } Err(_) => false } }
fn ok_timeout(t: u64, latest: u64, gap: u64) -> bool { s::and(t >= latest, u128::from(t) <= u128::from(latest) + u128::from(gap)) }

/// a position below `n`: every `step`th and the last
fn at(n: usize) -> usize { let k = s::pick("at", n); if k % s::param("step", 16) as usize != 0 && k != n - 1 { s::end() } k }
/// one transaction, valid or not, against a pool that may be full or know it already
#[no_mangle] pub fn mp_insert() {
    let (latest, gap) = (s::u64("latest"), s::u64("gap")); let what = s::pick("what", 9); let size = 1 + s::pick("size", 2); let mut w = world(size, gap, latest, 1); let timeout = if what == 0 { [0u64, 1_000, 1 << 40, u64::max_value()][s::pick("timeout", 4)] } else { 1_000 };
    let before = (what == 0 || what == 6) && s::flag("another is there"); let other = tx(9, timeout); if before { let r = w.insert(&other); s::check(r == ok_timeout(timeout, latest, gap), "a valid transaction is taken exactly while its time has not run out"); if !r { s::cover("run out"); s::end(); } w.tick(); w.net.take(); }
    let mut t = tx(1, timeout); let mut good = true;
    match what {
        0 => s::cover("valid"),
        1 => { let at = at(64); let mut v = t.signature.to_vec(); let b = s::u8("byte"); good = v[at] == b; v[at] = b; t.signature = Bytes::from(v); s::cover("signature"); }
        2 => { let at = 1 + at(32); let mut v = t.pubkey.to_vec(); let b = s::u8("byte"); good = v[at] == b; v[at] = b; t.pubkey = Bytes::from(v); s::cover("key"); }
        3 => { let mut h = t.tx_hash.as_bytes().to_vec(); h[at(32)] ^= 1; t.tx_hash = Hash::from_bytes(Bytes::from(h)).unwrap(); t = sign(t, 1); good = false; s::cover("hash"); }
        4 => { match s::pick("field", 4) { 0 => t.raw.fee.cycle += 1, 1 => t.raw.timeout += 1, 2 => t.raw.nonce = a::chash(7), _ => t.raw.fee.asset_id = a::chash(7) } good = false; s::cover("contents"); }
        5 => { let mut c = vec![CHAIN; 32]; c[at(32)] ^= 0x40; t = tx_of(1, timeout, Hash::from_bytes(Bytes::from(c)).unwrap()); good = false; s::cover("chain"); }
        6 => { s::block_on(w.st.insert_transactions(vec![t.clone()])).unwrap(); good = false; s::cover("committed"); }
        7 => { *w.st.fails.lock().unwrap() = true; good = false; s::cover("disk"); }
        _ => { t.signature = Bytes::from(t.signature[..63].to_vec()); good = false; s::cover("short signature"); }
    }
    let full = before && size == 1; let r = w.insert(&t); let want = s::and(good && !full, ok_timeout(timeout, latest, gap));
    s::check(r == want, "a transaction is taken exactly when it is valid, new and there is room"); s::check(w.has(&t) == r, "the pool holds what it took, and nothing else"); if before { s::check(w.has(&other), "the pool keeps what it has"); }
    w.tick(); let g = w.gossiped(); s::check(g == if r { vec![vec![t.clone()]] } else { vec![] }, "a transaction taken from a user is passed on, once, and nothing else is");
    if r { s::cover("taken"); s::check(!w.insert(&t), "a transaction is taken once"); w.tick(); s::check(w.gossiped().is_empty(), "a transaction is passed on once"); } else { s::cover("refused") }
}
/// transactions taken from users are passed on in batches, in order, once
#[no_mangle] pub fn mp_broadcast() {
    let batch = 1 + s::pick("batch", 3); let mut w = world(8, 100, 0, batch); let n = s::pick("n", s::param("max", 4) as usize + 1); let mut all = vec![]; let mut out: Vec<Vec<SignedTransaction>> = vec![];
    for i in 0..n { let t = tx(1 + i as u8, 50); s::check(w.insert(&t), "a valid transaction is taken"); all.push(t); match s::pick("then", 3) { 0 => {} 1 => w.run(), _ => { w.tick(); let o = w.gossiped(); out.extend(o); s::check(out.iter().map(|b| b.len()).sum::<usize>() == all.len(), "at the latest when the interval ends, all is passed on"); s::cover("interval") } } }
    w.tick(); out.extend(w.gossiped()); s::check(out.iter().all(|b| !b.is_empty() && b.len() <= batch), "a batch has at most the size configured"); if out.iter().any(|b| b.len() > 1) { s::cover("batch") }
    let flat: Vec<_> = out.into_iter().flatten().collect(); s::check(flat == all, "every transaction is passed on, once and in order"); w.tick(); s::check(w.gossiped().is_empty(), "nothing is passed on twice");
    if n > 0 { *w.net.fails.lock().unwrap() = true; w.insert(&tx(0x50, 50)); w.tick(); *w.net.fails.lock().unwrap() = false; let t = tx(0x51, 50); w.insert(&t); s::check(w.has(&t), "a lost message does not stop the pool"); w.tick(); s::check(w.gossiped() == vec![vec![t]], "a lost message does not stop passing on"); s::cover("lost"); }
}

// ---- packaging
/// an adapter that finds every transaction valid
#[derive(Default)] struct Ad { latest: Mutex<u64>, answer: Mutex<Vec<SignedTransaction>> }
#[async_trait] impl MemPoolAdapter for Ad {
    async fn pull_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> { Ok(self.answer.lock().unwrap().clone()) }
    async fn broadcast_tx(&self, _: Context, _: SignedTransaction) -> ProtocolResult<()> { Ok(()) }
    async fn check_signature(&self, _: Context, _: SignedTransaction) -> ProtocolResult<()> { Ok(()) }
    async fn check_transaction(&self, _: Context, _: SignedTransaction) -> ProtocolResult<()> { Ok(()) }
    async fn check_storage_exist(&self, _: Context, _: Hash) -> ProtocolResult<()> { Ok(()) }
    async fn get_latest_epoch_id(&self, _: Context) -> ProtocolResult<u64> { Ok(*self.latest.lock().unwrap()) }
}
const KEYS: [u8; 5] = [0x11, 0x12, 0x21, 0x31, 0x1f];
fn any_tx(k: usize, cycles: u64, timeout: u64) -> SignedTransaction { let mut t = s::concrete(|| { let mut g = a::Gen::plain(); let x = a::transfer(&mut g); let r = a::raw(&mut g, x); a::signed(&mut g, r) }); t.tx_hash = a::chash(KEYS[k]); t.raw.fee.cycle = cycles; t.raw.timeout = timeout; t }
struct Held { tx: SignedTransaction, proposed: bool }
/// the pool as a list
#[derive(Default)] struct Listed { l: Vec<Held> }
impl Listed {
    fn package(&mut self, limit: u64, latest: u64, gap: u64) -> (Vec<Hash>, Vec<Hash>) {
        let end = latest.checked_add(gap).unwrap_or(u64::max_value()); self.l.retain(|h| { let t = h.tx.raw.timeout; let keep = !(t <= latest) && !(t > end); if keep { true } else { s::cover("run out"); false } });
        let fits = |sum: u64, h: &Held| sum.checked_add(h.tx.raw.fee.cycle).and_then(|x| if x <= limit { Some(x) } else { None });
        let (mut order, mut propose, mut sum, mut i) = (vec![], vec![], 0, 0);
        while i < self.l.len() { match fits(sum, &self.l[i]) { Some(x) => { sum = x; order.push(self.l[i].tx.tx_hash.clone()); i += 1; } None => break } }
        sum = 0; for h in self.l[i..].iter() { s::cover("does not fit"); if h.proposed { s::cover("proposed before"); continue; } match fits(sum, h) { Some(x) => { sum = x; propose.push(h.tx.tx_hash.clone()); s::cover("proposed"); } None => break } }
        (order, propose)
    }
}
/// a number of the width asked for
fn num(name: &str) -> u64 { match s::param("bits", 64) { 8 => u64::from(s::u8(name)), 16 => u64::from(s::u16(name)), _ => s::u64(name) } }
/// packaging, flushing and taking, against a list
#[no_mangle] pub fn mp_package() {
    let gap = num("gap"); let p = HashMemPool::new(4, gap, Ad::default()); let mut m = Listed::default(); let mut next = 0;
    let fresh = |m: &mut Listed, next: &mut usize| { let t = any_tx(*next, num("cycles"), num("timeout")); *next += 1; let proposed = s::flag("proposed");
        if proposed { *p.get_adapter().answer.lock().unwrap() = vec![t.clone()]; s::check(s::nopanic("fetching proposed transactions does not panic", || s::block_on(p.sync_propose_txs(Context::new(), vec![t.tx_hash.clone()]))).is_ok(), "proposed transactions are fetched"); } else { s::check(s::nopanic("taking a transaction does not panic", || s::block_on(p.insert(Context::new(), t.clone()))).is_ok(), "a valid transaction is taken"); }
        m.l.push(Held { tx: t, proposed }); };
    for _ in 0..s::pick("n", s::param("max", 3) as usize + 1) { fresh(&mut m, &mut next); }
    for round in 0..s::param("rounds", 2) {
        if round > 0 { match s::pick("between", 4) { 0 => {} 1 => { if next >= KEYS.len() { s::end() } fresh(&mut m, &mut next); s::cover("more"); }
            2 => { let k = s::pick("flush", 5); s::check(s::nopanic("flushing does not panic", || s::block_on(p.flush(Context::new(), vec![a::chash(KEYS[k])]))).is_ok(), "transactions are flushed"); m.l.retain(|h| h.tx.tx_hash != a::chash(KEYS[k])); s::cover("flushed"); }
            _ => { let l: Vec<Hash> = m.l.iter().map(|h| h.tx.tx_hash.clone()).collect(); s::check(s::block_on(p.flush(Context::new(), l)).is_ok(), "transactions are flushed"); if m.l.is_empty() { s::end() } let again = m.l.remove(0); m.l.clear(); s::check(s::block_on(p.insert(Context::new(), again.tx.clone())).is_ok(), "a flushed transaction may come again"); m.l.push(Held { tx: again.tx, proposed: false }); s::cover("again"); } } }
        let (limit, latest) = (num("limit"), num("latest")); *p.get_adapter().latest.lock().unwrap() = latest; let all: Vec<SignedTransaction> = m.l.iter().map(|h| h.tx.clone()).collect();
        let r = s::nopanic("packaging does not panic", || s::block_on(p.package(Context::new(), limit))); s::check(r.is_ok(), "transactions are packaged"); let r = r.ok().unwrap().clap(); let want = m.package(limit, latest, gap);
        s::check(r.0 == want.0, "what is ordered is the longest run of transactions, in the order taken, within the cycle limit"); s::check(r.1 == want.1, "what is proposed comes next, within the cycle limit, and was not proposed before"); if !r.0.is_empty() { s::cover("ordered"); }
        for t in all { s::check(has(&p, &t) == m.l.iter().any(|h| h.tx.tx_hash == t.tx_hash), "packaging forgets what has run out, and nothing else"); }
    }
}
/// transactions come and go without this node ever packaging
#[no_mangle] pub fn mp_turnover() {
    let size = 1 + s::pick("size", 2); let p = HashMemPool::new(size, 100, Ad::default()); let n = s::param("rounds", 10) as usize; let packaging = s::flag("packaging");
    for i in 0..n { let t = any_tx(i % KEYS.len(), 1, 50); s::check(s::block_on(p.insert(Context::new(), t.clone())).is_ok(), if packaging || i < 4 * size { "there is room after a flush" } else { "there is room after a flush, when 4 pools of transactions passed without packaging" }); if packaging { s::check(s::block_on(p.package(Context::new(), 9)).ok().map(|x| x.clap().0) == Some(vec![t.tx_hash.clone()]), "transactions are packaged"); s::cover("packaging"); } s::check(s::block_on(p.flush(Context::new(), vec![t.tx_hash.clone()])).is_ok() && !has(&p, &t), "a flushed transaction is gone"); }
    s::cover("turned over");
}
/// taking, packaging and flushing at the same time
#[no_mangle] pub fn mp_race() {
    s::preempts(s::param("preempts", 2));     let p = Arc::new(HashMemPool::new(4, 100, Ad::default())); let (x, y, z) = (any_tx(0, 1, 50), any_tx(1, 1, 50), any_tx(2, 1, 50)); for t in &[&x, &y] { s::block_on(p.insert(Context::new(), (*t).clone())).ok().unwrap(); }
    let out: Arc<Mutex<Vec<bool>>> = Default::default(); let packs: Arc<Mutex<Vec<Vec<Hash>>>> = Default::default(); let mut hs = vec![]; let kind = s::pick("kind", 5);
    let ins = |t: &SignedTransaction| { let (p, o, t) = (p.clone(), out.clone(), t.clone()); s::spawn(move || { let r = s::block_on(p.insert(Context::new(), t)).is_ok(); o.lock().unwrap().push(r); }) };
    let pack = || { let (p, o) = (p.clone(), packs.clone()); s::spawn(move || { let r = s::block_on(p.package(Context::new(), 9)).ok().map(|x| x.clap().0); if let Some(r) = r { o.lock().unwrap().push(r); } }) };
    let flush = |t: &SignedTransaction| { let (p, h) = (p.clone(), t.tx_hash.clone()); s::spawn(move || { let _ = s::block_on(p.flush(Context::new(), vec![h])); }) };
    match kind { 0 => { hs.push(ins(&z)); hs.push(ins(&z)); } 1 => { hs.push(ins(&z)); hs.push(pack()); } 2 => { hs.push(flush(&x)); hs.push(pack()); } 3 => { hs.push(ins(&z)); hs.push(flush(&x)); } _ => { hs.push(flush(&x)); hs.push(ins(&z)); hs.push(pack()); } }
    for h in hs { s::join(h); }
    let o = out.lock().unwrap().clone(); if kind == 0 { s::check(o.iter().filter(|r| **r).count() == 1, "of two equal transactions taken at once one is taken"); } else { s::check(o.iter().all(|r| *r), "a valid transaction is taken"); }
    let pk = packs.lock().unwrap().clone(); for l in pk.iter() { let mut l2 = l.clone(); l2.retain(|h| *h != z.tx_hash); let both = vec![x.tx_hash.clone(), y.tx_hash.clone()]; s::check(l2 == both || ((kind == 2 || kind == 4) && l2 == vec![y.tx_hash.clone()]), "what was there is packaged once, in order"); s::check(l.iter().filter(|h| **h == z.tx_hash).count() <= 1, "a transaction is packaged once");  }
    let mut want = if kind >= 2 { vec![y.clone()] } else { vec![x.clone(), y.clone()] }; if kind != 2 { want.push(z.clone()); }
    let r: Vec<Hash> = s::block_on(p.package(Context::new(), 9)).ok().unwrap().clap().0; s::check(r == want.iter().map(|t| t.tx_hash.clone()).collect::<Vec<_>>(), "nothing is lost, kept or doubled when things happen at once"); for t in &[&x, &y, &z] { s::check(has(&*p, t) == want.contains(t), "the pool holds what it took and was not flushed"); }
    if kind != 2 { s::block_on(p.flush(Context::new(), vec![z.tx_hash.clone()])).ok().unwrap(); want.pop(); let r: Vec<Hash> = s::block_on(p.package(Context::new(), 9)).ok().unwrap().clap().0; s::check(r == want.iter().map(|t| t.tx_hash.clone()).collect::<Vec<_>>() && !has(&*p, &z), "a flushed transaction does not come back"); }
    s::cover(["taken twice", "taken and packaged", "flushed and packaged", "taken and flushed", "all three"][kind]);
}
// ---- what peers supply
/// an answer to a request for two transactions, honest or not; which of them are genuine
fn answer(u: &[SignedTransaction]) -> (Option<Bytes>, Vec<SignedTransaction>) {
    let (x, y) = (u[0].clone(), u[1].clone()); let forged = |f: &dyn Fn(&mut SignedTransaction)| { let mut t = u[1].clone(); f(&mut t); t };
    let l = match s::pick("answer", 12) {
        0 => { s::cover("honest"); vec![x, y] } 1 => vec![x], 2 => vec![y, x], 3 => vec![x.clone(), x], 4 => vec![x, y.clone(), y], 5 => vec![x, tx(0x77, 1_000)], 6 => vec![],
        7 => { let t = forged(&|t| match s::pick("field", 3) { 0 => t.raw.fee.cycle += 1, 1 => t.raw.nonce = a::chash(3), _ => t.raw.timeout += 1 }); s::cover("other contents"); vec![x, t] }
        8 => { let b = s::u8("byte"); let at = at(64); let t = forged(&|t| { let mut v = t.signature.to_vec(); v[at] = b; t.signature = Bytes::from(v) }); s::cover("other signature"); vec![x, t] }
        9 => { let t = forged(&|t| { t.pubkey = pubkey(0x33); *t = sign(t.clone(), 0x34); }); vec![x, t] }
        10 => { let k = s::pick("n", 4); s::cover("garbage"); return (Some(Bytes::from(s::bytes("junk", k))), vec![]); } _ => { s::cover("no answer"); return (None, vec![]); }
    };
    let good = l.iter().filter(|t| u.contains(t)).cloned().collect(); (Some(s::block_on(MsgPushTxs { sig_txs: l }.encode()).unwrap()), good)
}
/// the transactions of a block are at hand before it is voted for, and are the ones it names
#[no_mangle] pub fn mp_ensure() {
    let w = world(4, 2_000, 10, 1); let known = tx(5, 1_000); s::check(w.insert(&known), "a valid transaction is taken"); let u = [tx(1, 1_000), tx(2, 1_000)]; let (b, _) = answer(&u); *w.net.answer.lock().unwrap() = b; w.net.take();
    let l = match s::pick("list", 3) { 0 => vec![known.clone(), u[0].clone(), u[1].clone()], 1 => vec![u[0].clone(), known.clone(), u[1].clone()], _ => vec![u[0].clone(), u[1].clone()] }; let hs: Vec<Hash> = l.iter().map(|t| t.tx_hash.clone()).collect();
    let r = s::nopanic("fetching the transactions of a block does not panic", || s::block_on(w.pool.ensure_order_txs(Context::new(), hs.clone()))); let asked = w.net.take(); s::check(asked.len() == 1 && asked[0].0 == END_RPC_PULL_TXS && asked[0].2, "what is not at hand is asked for, once");
    let q = s::block_on(<PullTxsHandler<Net, Pool> as MessageHandler>::Message::decode(asked[0].1.clone())).unwrap().hashes; s::check(q == vec![u[0].tx_hash.clone(), u[1].tx_hash.clone()], "what is not at hand is asked for, and nothing else");
    let full = s::nopanic("looking up transactions does not panic", || s::block_on(w.pool.get_full_txs(Context::new(), hs.clone())));
    if r.is_ok() { s::check(full.ok() == Some(l.clone()), "after fetching, the genuine transactions of the block are at hand, in order"); s::cover("at hand"); } else { s::cover("refused"); s::check(full.ok().map_or(true, |f| f == l), "what is looked up is genuine"); }
    let pk = s::block_on(w.pool.package(Context::new(), 1_000_000)).ok().unwrap().clap(); s::check(pk.0 == vec![known.tx_hash.clone()] && pk.1.is_empty(), "what is fetched for a block is not packaged again");
    s::block_on(w.pool.flush(Context::new(), hs.clone())).ok().unwrap(); s::check(s::block_on(w.pool.get_full_txs(Context::new(), vec![u[0].tx_hash.clone()])).is_err(), "a committed block's transactions are forgotten");
}
/// an honest answer suffices, and nothing is asked for when all is at hand
#[no_mangle] pub fn mp_ensure_honest() {
    let w = world(4, 2_000, 10, 1); let (x, y) = (tx(1, 1_000), tx(2, 1_000)); let (kx, ky) = (s::flag("x known"), s::flag("y known")); if kx { s::check(w.insert(&x), "a valid transaction is taken"); } if ky { s::check(w.insert(&y), "a valid transaction is taken"); }
    let missing: Vec<_> = [(kx, &x), (ky, &y)].iter().filter(|p| !p.0).map(|p| p.1.clone()).collect(); *w.net.answer.lock().unwrap() = Some(s::block_on(MsgPushTxs { sig_txs: missing.clone() }.encode()).unwrap()); w.net.take(); let l = if s::flag("turned") { vec![y.clone(), x.clone()] } else { vec![x.clone(), y.clone()] }; if l[0] == y && missing.len() == 2 { s::end() }
    let hs: Vec<Hash> = l.iter().map(|t| t.tx_hash.clone()).collect(); let r = s::block_on(w.pool.ensure_order_txs(Context::new(), hs.clone())); s::check(r.is_ok(), "an honest answer suffices"); s::check(w.net.take().len() == if missing.is_empty() { 0 } else { 1 }, "nothing is asked for when all is at hand"); s::check(s::block_on(w.pool.get_full_txs(Context::new(), hs)).ok() == Some(l), "after fetching, the genuine transactions of the block are at hand, in order"); s::cover(if missing.is_empty() { "all known" } else { "fetched" });
}
/// proposed transactions enter the pool when they could have been taken from a user
#[no_mangle] pub fn mp_propose() {
    let latest = s::u64("latest"); s::assume(latest < 1 << 60); let mut w = world(4, 2_000, latest, 1); let u = [tx(1, 1_000), tx(2, 1_000)]; let (b, good) = answer(&u); *w.net.answer.lock().unwrap() = b; let committed = s::flag("committed"); if committed { s::block_on(w.st.insert_transactions(vec![u[0].clone()])).unwrap(); s::cover("committed"); }
    let hs: Vec<Hash> = u.iter().map(|t| t.tx_hash.clone()).collect(); let r = s::nopanic("fetching proposed transactions does not panic", || s::block_on(w.pool.sync_propose_txs(Context::new(), hs))); if r.is_err() { s::cover("failed"); }
    for (i, t) in u.iter().enumerate() { let want = s::and(good.contains(t) && !(committed && i == 0), ok_timeout(1_000, latest, 2_000)); let got = s::block_on(w.pool.get_full_txs(Context::new(), vec![t.tx_hash.clone()])).ok(); s::check(got.is_some() == want, "a proposed transaction enters the pool when it is valid and not committed"); if let Some(g) = got { s::check(g == vec![t.clone()], "a transaction in the pool is genuine"); s::cover("entered"); } }
    w.tick(); s::check(w.net.take().iter().all(|m| m.0 == END_RPC_PULL_TXS), "what peers supply is not passed on");
}
/// gossiped transactions: the valid ones are taken, and not passed on again
#[no_mangle] pub fn mp_gossiped() {
    let mut w = world(4, 2_000, 10, 1); let mut l = vec![]; let n = s::pick("n", 4); let mut good = vec![]; for i in 0..n { let mut t = tx(1 + i as u8, 1_000); if s::flag("bad") { t.raw.fee.cycle += 1; good.push(false); } else { good.push(true); } l.push(t); }
    let h = NewTxsHandler::new(w.pool.clone()); let mut b = <NewTxsHandler<Pool> as MessageHandler>::Message::decode(s::block_on(MsgPushTxs { sig_txs: l.clone() }.encode()).unwrap()); let m = match s::poll_once(unsafe { std::pin::Pin::new_unchecked(&mut b) }) { Poll::Ready(m) => m.unwrap(), Poll::Pending => { s::check(false, "decoding does not wait"); return; } };
    let mut f = h.process(Context::new(), m); let mut r = s::poll_once(f.as_mut()); let mut ts = runtime::sim::take(); if s::flag("last first") { ts.reverse(); } for t in ts.iter_mut() { s::check(s::nopanic("taking gossiped transactions does not panic", || s::poll_once(t.as_mut())) != Poll::Pending, "taking a transaction ends"); } if r.is_pending() { r = s::poll_once(f.as_mut()); }
    s::check(!r.is_pending(), "taking gossiped transactions ends"); for (t, g) in l.iter().zip(good.iter()) { let got = s::block_on(w.pool.get_full_txs(Context::new(), vec![t.tx_hash.clone()])).is_ok(); s::check(got == *g, "of the transactions gossiped the valid ones are taken"); s::cover(if *g { "taken" } else { "refused" }); }
    drop(f); w.tick(); s::check(w.net.take().is_empty(), "gossiped transactions are not passed on again");
}
/// a peer that asks for transactions gets all of them, in order, or nothing
#[no_mangle] pub fn mp_pulled() {
    let w = world(4, 2_000, 10, 1); let known = [tx(1, 1_000), tx(2, 1_000)]; for t in &known { s::check(w.insert(t), "a valid transaction is taken"); } let all = [known[0].clone(), known[1].clone(), tx(3, 1_000)]; let l: Vec<SignedTransaction> = (0..s::pick("n", 4)).map(|_| all[s::pick("which", 3)].clone()).collect(); let hs: Vec<Hash> = l.iter().map(|t| t.tx_hash.clone()).collect();
    // the request as a peer's pool makes it
    let p = world(4, 2_000, 10, 1); let _ = s::block_on(p.pool.ensure_order_txs(Context::new(), hs.clone())); let asked = p.net.take(); if hs.is_empty() { s::check(asked.is_empty(), "nothing is asked for when all is at hand"); s::end(); }
    let m = s::block_on(<PullTxsHandler<Net, Pool> as MessageHandler>::Message::decode(asked[0].1.clone())).unwrap(); let r = s::nopanic("answering a request does not panic", || s::block_on(PullTxsHandler::new(w.net.clone(), w.pool.clone()).process(Context::new(), m))); let out = w.net.take();
    if l.iter().all(|t| known.contains(t)) { s::check(r.is_ok() && out.len() == 1 && out[0].0 == END_RESP_PULL_TXS && out[0].2, "a request is answered once"); s::check(s::block_on(MsgPushTxs::decode(out[0].1.clone())).ok().map(|m| m.sig_txs) == Some(l), "an answer has the transactions asked for, in order"); s::cover("answered"); } else { s::check(r.is_err() && out.is_empty(), "a request for what is not there is not answered"); s::cover("not there"); }
}
s::entries!(mp_insert, mp_broadcast, mp_package, mp_turnover, mp_race, mp_ensure, mp_ensure_honest, mp_propose, mp_gossiped, mp_pulled);
