//! Network: endpoints, rpc bookkeeping, what goes out comes in.
//@ deps: protocol bytes num_bigint serde_json core_network tentacle futures async_trait runtime serde serde_derive bincode
use async_trait::async_trait;
use anyval as a;
use bytes::Bytes;
use core_network::verif_hooks::*;
use futures::channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender};
use protocol::traits::{Context, Gossip, MessageCodec, MessageHandler, Priority, Rpc};
use protocol::types::*;
use protocol::ProtocolResult;
use serde_derive::{Deserialize, Serialize};
use std::convert::TryFrom;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use symrt as s;
use tentacle::service::TargetSession;
use tentacle::SessionId;

const SCHEMES: [&str; 3] = ["/gossip", "/rpc_call", "/rpc_resp"];
fn scheme_of(k: usize) -> EndpointScheme { match k { 0 => EndpointScheme::Gossip, 1 => EndpointScheme::RpcCall, _ => EndpointScheme::RpcResponse } }
/// `n` arbitrary ASCII characters
fn ascii(name: &str, n: usize) -> String { let b = s::bytes(name, n); for c in &b { s::assume(*c < 0x80); } String::from_utf8(b).unwrap() }
fn comps(x: &str) -> Vec<String> { let mut v: Vec<String> = vec![]; let mut cur = String::new(); for c in x.bytes() { if c == b'/' { if !cur.is_empty() { v.push(std::mem::replace(&mut cur, String::new())); } } else { cur.push(c as char); } } if !cur.is_empty() { v.push(cur); } v }
fn root(c: &[String]) -> String { format!("/{}/{}/{}", c[0], c[1], c[2]) }

/// any endpoint of a known scheme
#[no_mangle] pub fn nt_endpoint() {
    let k = s::pick("scheme", 3); let url = format!("{}/{}", SCHEMES[k], ascii("rest", s::param("len", 4) as usize)); let c = comps(&url);
    let r = s::nopanic("parsing an endpoint does not panic", || url.parse::<Endpoint>());
    s::check(r.is_ok() == (c.len() == 3 || c.len() == 4), "an endpoint has three or four parts");
    if let Ok(e) = r {
        s::cover("endpoint"); s::check(e.scheme() == scheme_of(k), "the first part is the scheme"); s::check(e.full_url() == url, "an endpoint keeps its text"); s::check(e.root() == root(&c), "the root is the first three parts");
    } else { s::cover("refused"); }
}
/// any number of parts
#[no_mangle] pub fn nt_endpoint_parts() {
    let k = s::pick("scheme", 3); let n = s::pick("parts", 8); let url = format!("{}{}", SCHEMES[k], (0..n).map(|i| if s::flag("doubled") { format!("//x{}", i) } else { format!("/x{}", i) }).collect::<String>());
    let r = s::nopanic("parsing an endpoint does not panic", || url.parse::<Endpoint>()); s::check(r.is_ok() == (n == 2 || n == 3), "an endpoint has three or four parts"); s::cover(if r.is_ok() { "endpoint" } else { "refused" });
}
/// any text: what does not start with a scheme is refused, and so is what is too long
#[no_mangle] pub fn nt_endpoint_text() {
    let url = match s::pick("kind", 4) {
        0 => ascii("text", s::pick("n", 8)),
        1 => { let mut b = b"/gossip/a/b".to_vec(); let at = s::pick("at", 7); b[at] = s::u8("c"); s::assume(b[at] < 0x80 && b[at] != b"/gossip/a/b"[at]); String::from_utf8(b).unwrap() }
        2 => { let mut b = b"/rpc_resp/a/b".to_vec(); let at = s::pick("at", 9); b[at] = s::u8("c"); s::assume(b[at] < 0x80 && b[at] != b"/rpc_resp/a/b"[at]); String::from_utf8(b).unwrap() }
        _ => { let n = 115 + s::pick("over", 10); let mut t = "/rpc_call/a/".to_owned(); while t.len() < n { t.push('b'); } let r = s::nopanic("parsing an endpoint does not panic", || t.parse::<Endpoint>()); s::check(r.is_ok() == (n <= 120), "an endpoint has at most 120 characters"); s::cover(if n <= 120 { "fits" } else { "too long" }); return; }
    };
    let r = s::nopanic("parsing an endpoint does not panic", || url.parse::<Endpoint>()); s::check(r.is_err(), "what does not start with a scheme is refused"); s::cover("refused");
}
#[derive(Default)] struct Fed(Vec<u8>);
impl std::hash::Hasher for Fed { fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } fn finish(&self) -> u64 { 0 } }
/// what is fed to a hasher
fn hash_of<T: std::hash::Hash>(x: &T) -> Vec<u8> { let mut h = Fed::default(); x.hash(&mut h); h.0 }
/// equality is equality of the first three parts, and hashing agrees with it
#[no_mangle] pub fn nt_endpoint_eq() {
    let mk = |n: &str| { let t = ascii(n, s::pick(&format!("{}.len", n), 3)); format!("/rpc_call/a{}/b", t) }; let (x, y) = (mk("x"), mk("y")); let (cx, cy) = (comps(&x), comps(&y));
    if let (Ok(ex), Ok(ey)) = (x.parse::<Endpoint>(), y.parse::<Endpoint>()) {
        let eq = root(&cx) == root(&cy); s::check((ex == ey) == eq, "endpoints are equal when their first three parts are"); if eq { s::cover("equal"); s::check(hash_of(&ex) == hash_of(&ey), "equal endpoints hash alike"); } else { s::cover("different"); }
    }
}
/// an rpc endpoint carries its id
#[no_mangle] pub fn nt_rpc_id() {
    let id = [0u64, 9_990, 1 << 32, u64::max_value() - 255][s::pick("base", 4)].wrapping_add(u64::from(s::u8("id"))); let scheme = SCHEMES[1 + s::pick("scheme", 2)];
    let e = format!("{}/a/b", scheme).parse::<Endpoint>().unwrap(); let x = s::nopanic("extending an endpoint does not panic", || e.extend(&id.to_string())); s::check(x.is_ok(), "an endpoint takes an id"); let x = x.unwrap(); s::check(x == e, "an endpoint with an id has the same root"); s::check(x.full_url() == format!("{}/a/b/{}", scheme, id), "the id is the last part");
    let r = RpcEndpoint::try_from(x.clone()).ok(); s::check(r.as_ref().map(|r| r.rpc_id().value()) == Some(id), "the id of an rpc endpoint is read back"); s::check(r.map_or(false, |r| r.endpoint().full_url() == x.full_url()), "an rpc endpoint keeps its endpoint");
    let r = x.full_url().parse::<RpcEndpoint>(); s::check(r.map(|r| r.rpc_id().value()).ok() == Some(id), "the id of an rpc endpoint is read back"); s::cover("id");
}
/// what is not a number is no rpc id
#[no_mangle] pub fn nt_rpc_bad() {
    let t = match s::pick("kind", 3) { 0 => ascii("id", s::pick("n", 4)), 1 => format!("1844674407370955161{}", ascii("last", 1)), _ => format!("{}", ["18446744073709551616", "99999999999999999999", "00000000000000000000000007", "-1", "+5"][s::pick("t", 5)]) };
    let k = s::pick("scheme", 3); let url = format!("{}/a/b/{}", SCHEMES[k], t); let b = t.as_bytes(); s::assume(b.iter().all(|c| *c != b'/'));
    let digits = !b.is_empty() && b.iter().enumerate().all(|(i, c)| (*c >= b'0' && *c <= b'9') || (i == 0 && *c == b'+' && b.len() > 1)); let mut v: u128 = 0; if digits { for c in b { if *c != b'+' { v = v * 10 + u128::from(*c - b'0'); } } }
    let want = if digits && v <= u128::from(u64::max_value()) { Some(v as u64) } else { None };
    let r = s::nopanic("parsing an rpc endpoint does not panic", || url.parse::<RpcEndpoint>()); s::check(r.map(|r| r.rpc_id().value()).ok() == if k == 0 { None } else { want }, "an rpc endpoint has a number for its id"); if want.is_some() { s::cover("number") } else { s::cover("no number") }
    let r = s::nopanic("parsing an rpc endpoint does not panic", || RpcEndpoint::try_from(url.parse::<Endpoint>()?)); s::check(r.map(|r| r.rpc_id().value()).ok() == want, "an rpc endpoint has a number for its id");
}

// ---- rpc map
type Rx<T> = futures::channel::oneshot::Receiver<T>;
fn got<T>(r: &mut Rx<T>) -> Poll<Option<T>> { match s::poll_once(Pin::new(r)) { Poll::Ready(v) => Poll::Ready(v.ok()), Poll::Pending => Poll::Pending } }
/// calls and responses by session and id
#[no_mangle] pub fn nt_rpc_map() {
    let m = RpcMap::new(); let mut wait: Vec<((usize, u64), bool, Rx<u32>, Option<Rx<String>>)> = vec![]; // key, text?, receivers
    for i in 0..s::param("ops", 3) {
        let sid = s::pick("sid", 2); let rid = s::pick("rid", 2) as u64; let key = (sid, rid); let text = s::flag("text");
        if s::flag("insert") {
            if wait.iter().any(|w| w.0 == key) { s::end() } // ids are not handed out twice
            if text { let (_, dead) = futures::channel::oneshot::channel::<u32>(); wait.push((key, true, dead, Some(m.insert::<String>(sid.into(), rid)))) } else { wait.push((key, false, m.insert::<u32>(sid.into(), rid), None)) }
        } else {
            let at = wait.iter().position(|w| w.0 == key);
            if text { match s::nopanic("taking a call does not panic", || m.take::<String>(sid.into(), rid)) {
                Ok(tx) => { s::check(at.map_or(false, |p| wait[p].1), "only a waiting call of the same kind is answered"); let mut w = wait.remove(at.unwrap()); let v = i.to_string(); s::check(tx.send(v.clone()).is_ok(), "the caller is still there"); s::check(got(w.3.as_mut().unwrap()) == Poll::Ready(Some(v)), "the response reaches its caller"); s::cover("answered"); }
                Err(_) => { s::check(at.map_or(true, |p| !wait[p].1), "a waiting call can be answered"); if let Some(p) = at { wait.remove(p); s::cover("other type"); } else { s::cover("unknown"); } } } }
            else { match s::nopanic("taking a call does not panic", || m.take::<u32>(sid.into(), rid)) {
                Ok(tx) => { s::check(at.map_or(false, |p| !wait[p].1), "only a waiting call of the same kind is answered"); let mut w = wait.remove(at.unwrap()); let v = s::u32("v"); s::check(tx.send(v).is_ok(), "the caller is still there"); s::check(got(&mut w.2) == Poll::Ready(Some(v)), "the response reaches its caller"); s::cover("answered"); }
                Err(_) => { s::check(at.map_or(true, |p| wait[p].1), "a waiting call can be answered"); if let Some(p) = at { wait.remove(p); s::cover("other type"); } else { s::cover("unknown"); } } } }
        }
        for w in wait.iter_mut() { if w.1 { s::check(got(w.3.as_mut().unwrap()) == Poll::Pending, "an unanswered call keeps waiting"); } else { s::check(got(&mut w.2) == Poll::Pending, "an unanswered call keeps waiting"); } }
    }
}
/// many calls outstanding at once, to several peers, answered in another order
#[no_mangle] pub fn nt_rpc_many() {
    let m = RpcMap::new(); let n = s::param("calls", 80) as usize; let v = s::bytes("v", 4); let mut ids = vec![]; let mut rx: Vec<Rx<u32>> = vec![];
    for i in 0..n { let id = m.next_rpc_id(); s::check(!ids.contains(&id), "rpc ids are handed out once"); ids.push(id); rx.push(m.insert::<u32>((i % 5).into(), id)); }
    let rev = s::flag("backwards"); let order: Vec<usize> = if rev { (0..n).rev().collect() } else { (0..n).map(|i| (i * 7) % n).collect() };
    for i in order {
        s::check(s::nopanic("taking a call does not panic", || m.take::<u32>((i % 5 + 1).into(), ids[i])).is_err(), "another peer does not answer a call"); s::check(got(&mut rx[i]) == Poll::Pending, "an unanswered call keeps waiting");
        let want = u32::from(v[i % 4]) * 1000 + i as u32; let r = m.take::<u32>((i % 5).into(), ids[i]); s::check(r.is_ok(), "a waiting call can be answered"); s::check(r.unwrap().send(want).is_ok(), "the caller is still there"); s::check(got(&mut rx[i]) == Poll::Ready(Some(want)), "the response reaches its caller");
        s::check(m.take::<u32>((i % 5).into(), ids[i]).is_err(), "a call is answered once");
    }
    s::cover(if rev { "backwards" } else { "shuffled" });
}
/// two tasks at once: ids differ, and only one of two responses is taken
#[no_mangle] pub fn nt_rpc_race() {
    let m = Arc::new(RpcMap::new()); let out = Arc::new(Mutex::new(vec![])); let mut rx = m.insert::<u32>(7.into(), 1_000);
    let hs: Vec<u64> = (0..2u32).map(|i| { let (m, out) = (m.clone(), out.clone()); s::spawn(move || { let id = m.next_rpc_id(); let took = match m.take::<u32>(7.into(), 1_000) { Ok(tx) => { let _ = tx.send(i); true } Err(_) => false }; out.lock().unwrap().push((id, took, i)); }) }).collect();
    for h in hs { s::join(h); }
    let o = out.lock().unwrap().clone(); s::check(o[0].0 != o[1].0, "rpc ids are handed out once"); s::check(o.iter().filter(|x| x.1).count() == 1, "one of two responses is taken"); let who = o.iter().find(|x| x.1).map(|x| x.2); s::check(got(&mut rx) == Poll::Ready(who), "the response reaches its caller"); s::cover("raced");
}

// ---- outbound to inbound
#[derive(Clone)] struct Plain;
impl Compression for Plain { fn compress(&self, b: tentacle::bytes::Bytes) -> Result<tentacle::bytes::Bytes, NetworkError> { Ok(b) } fn decompress(&self, b: tentacle::bytes::Bytes) -> Result<tentacle::bytes::Bytes, NetworkError> { Ok(b) } }
type Sent = (TargetSession, Vec<UserAddress>, Bytes, bool);
/// records what would go on the wire; fails when told to
#[derive(Clone, Default)] struct Wire { sent: Arc<Mutex<Vec<Sent>>>, down: Arc<Mutex<bool>> }
impl Wire { fn take(&self) -> Vec<Sent> { std::mem::replace(&mut *self.sent.lock().unwrap(), vec![]) } fn go(&self, x: Sent) -> Result<(), NetworkError> { if *self.down.lock().unwrap() { return Err(NetworkError::Busy); } self.sent.lock().unwrap().push(x); Ok(()) } }
#[async_trait] impl MessageSender for Wire {
    fn send(&self, tar: TargetSession, msg: tentacle::bytes::Bytes, pri: Priority) -> Result<(), NetworkError> { self.go((tar, vec![], msg, match pri { Priority::High => true, _ => false })) }
    async fn users_send(&self, users: Vec<UserAddress>, msg: tentacle::bytes::Bytes, pri: Priority) -> Result<(), NetworkError> { self.go((TargetSession::All, users, msg, match pri { Priority::High => true, _ => false })) }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)] struct Msg { #[serde(with = "core_network::serde_multi")] hashes: Vec<Hash>, n: u32, text: Vec<u8> }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)] struct Reply { v: u16, #[serde(with = "core_network::serde")] sig: Proof }
fn msg(nh: usize, nt: usize) -> Msg { Msg { hashes: (0..nh).map(|i| a::hash(&format!("h{}", i))).collect(), n: s::u32("n"), text: s::bytes("text", nt) } }
fn reply() -> Reply { let mut p = s::concrete(|| a::proof(&mut a::Gen::plain())); p.signature = Bytes::from(s::bytes("sig", 2)); p.round = 3; Reply { v: s::u16("v"), sig: p } }
type Seen<M> = Arc<Mutex<Vec<(usize, Option<u64>, M)>>>;
/// records what arrives, and answers calls
struct Rec<M> { seen: Seen<M>, rpc: Option<(NetworkRpc<Wire, Plain>, &'static str, Reply)> }
#[async_trait] impl<M: MessageCodec + Clone + Sync> MessageHandler for Rec<M> {
    type Message = M;
    async fn process(&self, cx: Context, m: M) -> ProtocolResult<()> {
        let sid = cx.session_id().map(|x| x.value()).unwrap_or(usize::max_value()); self.seen.lock().unwrap().push((sid, cx.rpc_id().ok(), m));
        if let Some((rpc, end, r)) = &self.rpc { rpc.response(cx, end, r.clone(), Priority::High).await?; }
        Ok(())
    }
}
/// the receiving side of a node
struct Node<C: Compression + Send + Unpin + Clone + 'static> { router: Pin<Box<MessageRouter<C>>>, reactors: Vec<Pin<Box<dyn Future<Output = ()>>>>, raw: UnboundedSender<RawSessionMessage>, sys: UnboundedReceiver<NetworkError>, map: Arc<RpcMap> }
impl<C: Compression + Send + Unpin + Clone + 'static> Node<C> {
    fn new(c: C) -> Self { let (raw, raw_rx) = unbounded(); let (sys_tx, sys) = unbounded(); Node { router: Box::pin(MessageRouter::new(raw_rx, c, sys_tx)), reactors: vec![], raw, sys, map: Arc::new(RpcMap::new()) } }
    fn handle<M: MessageCodec + Clone + Sync>(&mut self, end: &str, rpc: Option<(NetworkRpc<Wire, Plain>, &'static str, Reply)>) -> Seen<M> {
        let seen: Seen<M> = Arc::new(Mutex::new(vec![])); let (tx, rx) = unbounded(); self.router.register_reactor(end.parse().unwrap(), tx); self.reactors.push(Box::pin(Reactor::new(rx, Box::new(Rec { seen: seen.clone(), rpc }), self.map.clone()))); seen
    }
    fn responses<M: MessageCodec>(&mut self, end: &str) { let (tx, rx) = unbounded(); self.router.register_reactor(end.parse().unwrap(), tx); self.reactors.push(Box::pin(Reactor::<M>::rpc_resp(rx, self.map.clone()))); }
    fn run(&mut self) { loop {
        s::check(s::poll_once(self.router.as_mut()) == Poll::Pending, "the router keeps running"); let mut tasks = runtime::sim::take(); for t in tasks.iter_mut() { s::check(s::poll_once(t.as_mut()) == Poll::Pending || true, "routing ends"); }
        for r in self.reactors.iter_mut() { s::check(s::poll_once(r.as_mut()) == Poll::Pending, "a reactor keeps running"); }
        let mut handlers = runtime::sim::take(); for t in handlers.iter_mut() { let _ = s::poll_once(t.as_mut()); }
        if tasks.is_empty() && handlers.is_empty() { break; }
    } }
    fn deliver(&mut self, sid: usize, b: Bytes) { s::nopanic("a message from a peer does not bring the node down", || { self.raw.unbounded_send(RawSessionMessage::new(sid.into(), b)).unwrap(); self.run() }) }
}
fn seen<M: Clone>(x: &Seen<M>) -> Vec<(usize, Option<u64>, M)> { x.lock().unwrap().clone() }
fn is_all(t: &TargetSession) -> bool { match t { TargetSession::All => true, _ => false } }
fn is_one(t: &TargetSession, n: usize) -> bool { match t { TargetSession::Single(x) => x.value() == n, _ => false } }
/// a gossip message arrives as it was sent, at the handler of its endpoint
fn gossip<C: Compression + Send + Sync + Unpin + Clone + 'static>(c: C) {
    let w = Wire::default(); let g = NetworkGossip::new(w.clone(), c.clone()); let mut m = msg(s::pick("hashes", 3), s::pick("bytes", 3)); if s::flag("big") { m.text.extend(vec![5u8; 3_000]) } let high = s::flag("high"); let users = s::flag("users"); let end = ["/gossip/chain/new", "/gossip/chain/newer", "/gossip/chain/unknown"][s::pick("end", 3)]; let pri = || if high { Priority::High } else { Priority::Normal };
    let to = vec![s::concrete(|| a::user("u"))];
    let r = s::nopanic("sending does not panic", || if users { s::block_on(g.users_cast(Context::new(), end, to.clone(), m.clone(), pri())) } else { s::block_on(g.broadcast(Context::new(), end, m.clone(), pri())) }); s::check(r.is_ok(), "a message is sent");
    let out = w.take(); s::check(out.len() == 1, "a message goes out once"); let o = &out[0]; s::check(is_all(&o.0) && o.1 == if users { to } else { vec![] } && o.3 == high, "a message goes out to whom it is addressed");
    let mut n = Node::new(c); let (x, y) = (n.handle::<Msg>("/gossip/chain/new", None), n.handle::<Msg>("/gossip/chain/newer", None)); let sid = 3 + s::below("sid", 1 << 60) as usize; n.deliver(sid, o.2.clone());
    let (ex, ey) = (if end == "/gossip/chain/new" { vec![(sid, None, m.clone())] } else { vec![] }, if end == "/gossip/chain/newer" { vec![(sid, None, m)] } else { vec![] }); if ex.len() + ey.len() == 1 { s::cover("delivered") } else { s::cover("no handler") }
    s::check(seen(&x) == ex && seen(&y) == ey, "a message arrives as it was sent, once, at the handler of its endpoint");
}
#[no_mangle] pub fn nt_gossip() { gossip(Plain) }
/// what is compressed is decompressed to the same bytes
#[no_mangle] pub fn nt_snappy() {
    let b = match s::pick("kind", 3) { 0 => { let n = s::pick("n", s::param("len", 12) as usize + 1); s::cover("short"); s::bytes("b", n) } 1 => { let mut b = vec![7u8; 40]; b[s::pick("at", 3) * 19] = [0u8, 8, 255][s::pick("x", 3)]; s::cover("repeated"); b } _ => { s::cover("long"); (0..[60usize, 61, 257, 70_000][s::pick("long", 4)]).map(|i| (i * i / 7) as u8).collect() } };
    let b = Bytes::from(b); let r = s::nopanic("compressing does not panic", || Snappy.compress(b.clone()).and_then(|c| Snappy.decompress(c))); s::check(r.ok() == Some(b), "what is compressed is decompressed to the same bytes");
}
/// arbitrary bytes are decompressed or refused
#[no_mangle] pub fn nt_snappy_bad() {
    let n = s::pick("n", s::param("len", 4) as usize + 1); let b = Bytes::from(s::bytes("b", n)); s::assume(n == 0 || b[0] < 64 || b[0] >= 128);
    let r = s::nopanic("decompressing does not panic", || Snappy.decompress(b.clone())); if let Ok(d) = r { s::check(d.len() <= 64 * n, "what is decompressed has the size announced"); s::cover("decompressed") } else { s::cover("refused") }
}
/// the whole way with compression
#[no_mangle] pub fn nt_gossip_snappy() {
    let m = Msg { hashes: (0..s::pick("hashes", 3)).map(|i| a::chash(i as u8)).collect(), n: s::pick("n", 3) as u32 * 1_000_000_007, text: vec![9; s::pick("bytes", 3) * 50] }; let w = Wire::default(); let r = s::nopanic("sending does not panic", || s::block_on(NetworkGossip::new(w.clone(), Snappy).broadcast(Context::new(), "/gossip/chain/new", m.clone(), Priority::High))); s::check(r.is_ok(), "a message is sent");
    let o = w.take(); let mut n = Node::new(Snappy); let x = n.handle::<Msg>("/gossip/chain/new", None); n.deliver(3, o[0].2.clone()); s::check(seen(&x) == vec![(3, None, m)], "a message arrives as it was sent"); s::cover("delivered");
}
/// calls to two peers; answers in any order, twice, from the wrong peer
#[no_mangle] pub fn nt_rpc() {
    let wa = Wire::default(); let mut na = Node::new(Plain); na.responses::<Reply>("/rpc_resp/chain/pull"); let rpc = NetworkRpc::new(wa.clone(), Plain, na.map.clone());
    let cx = |sid: usize| Context::new().set_session_id(sid.into()); let ms = [msg(1, 1), msg(0, 2)]; let sids = [5usize, if s::flag("same peer") { 5 } else { 6 }]; let rs = [reply(), reply()];
    let mut calls: Vec<Pin<Box<dyn Future<Output = ProtocolResult<Reply>>>>> = vec![]; for i in 0..2 { let (rpc, m, c) = (rpc.clone(), ms[i].clone(), cx(sids[i])); calls.push(Box::pin(async move { rpc.call::<Msg, Reply>(c, "/rpc_call/chain/pull", m, Priority::High).await })); }
    let mut asked = vec![]; for i in 0..2 { s::check(s::nopanic("calling does not panic", || s::poll_once(calls[i].as_mut()).is_pending()), "a call waits for its answer"); let o = wa.take(); s::check(o.len() == 1 && is_one(&o[0].0, sids[i]) && o[0].3, "a call goes to its peer"); asked.push(o[0].2.clone()); }
    // the peers
    let mut answers = vec![]; for i in 0..2 { let wb = Wire::default(); let mut nb = Node::new(Plain); let rb = NetworkRpc::new(wb.clone(), Plain, nb.map.clone()); let h = nb.handle::<Msg>("/rpc_call/chain/pull", Some((rb, "/rpc_resp/chain/pull", rs[i].clone()))); nb.deliver(9, asked[i].clone()); let sv = seen(&h); s::check(sv.len() == 1 && sv[0].0 == 9 && sv[0].1.is_some() && sv[0].2 == ms[i], "a call arrives as it was sent"); let o = wb.take(); s::check(o.len() == 1 && is_one(&o[0].0, 9) && o[0].3, "an answer goes back to the caller"); answers.push(o[0].2.clone()); }
    let mut done = [false, false];
    for _ in 0..s::param("answers", 3) {
        let k = s::pick("answer", 2); let from = if s::flag("wrong peer") { 7 } else { sids[k] }; na.deliver(from, answers[k].clone()); let now = from == sids[k] && !done[k]; if !now { s::cover("ignored"); }
        for i in 0..2 { if done[i] { continue; } let p = s::nopanic("an answer does not panic", || s::poll_once(calls[i].as_mut())); match p { Poll::Ready(r) => { s::check(now && i == k, "a call is answered by its own peer's answer to it"); s::check(r.ok().as_ref() == Some(&rs[i]), "the answer arrives as it was sent"); done[i] = true; s::cover("answered"); } Poll::Pending => s::check(!(now && i == k), "an answered call returns") } }
    }
    if done[0] && done[1] { s::cover("both"); }
}
/// a call that cannot be sent fails and leaves nothing waiting
#[no_mangle] pub fn nt_rpc_fail() {
    let w = Wire::default(); let map = Arc::new(RpcMap::new()); let rpc = NetworkRpc::new(w.clone(), Plain, map.clone()); let m = msg(0, 1);
    let (cx, end) = match s::pick("why", 4) { 0 => { *w.down.lock().unwrap() = true; (Context::new().set_session_id(5.into()), "/rpc_call/chain/pull".to_owned()) } 1 => (Context::new(), "/rpc_call/chain/pull".to_owned()), 2 => (Context::new().set_session_id(5.into()), "/nothing/chain/pull".to_owned()), _ => { let mut e = "/rpc_call/chain/".to_owned(); let n = 118 + s::pick("n", 3); while e.len() < n { e.push('x'); } (Context::new().set_session_id(5.into()), e) } };
    let mut f: Pin<Box<dyn Future<Output = ProtocolResult<Reply>>>> = { let rpc = rpc.clone(); Box::pin(async move { rpc.call::<Msg, Reply>(cx, &end, m, Priority::Normal).await }) };
    let r = s::nopanic("a failing call does not panic", || s::poll_once(f.as_mut())); if r.is_pending() { s::check(w.take().len() == 1, "a waiting call was sent"); s::cover("sent"); return; }
    s::check(w.take().is_empty(), "a failed call was not sent"); s::check(match r { Poll::Ready(Err(_)) => true, _ => false }, "a call that cannot be sent fails"); s::cover("failed");
    for rid in 0..map.next_rpc_id() + 1 { s::check(map.take::<Reply>(5.into(), rid).is_err(), "a failed call leaves nothing waiting"); }
}
/// hostile packages
#[no_mangle] pub fn nt_hostile() {
    let mut n = Node::new(Plain); let g = n.handle::<Msg>("/gossip/a/b", None); let c = n.handle::<Msg>("/rpc_call/a/b", None); n.responses::<Reply>("/rpc_resp/a/b"); let mut waiting = n.map.insert::<Reply>(4.into(), 0);
    let m = Msg { hashes: vec![], n: 7, text: vec![1] }; let k = s::pick("end", 3); let end = ["/gossip/a/b", "/rpc_call/a/b/3", "/rpc_resp/a/b/0"][k]; let mut mm = m.clone(); let mut rr = s::concrete(reply); let content = if k == 2 { s::block_on(MessageCodec::encode(&mut rr)) } else { s::block_on(MessageCodec::encode(&mut mm)) }.unwrap();
    let good = s::block_on(NetworkMessage { url: end.to_owned(), content: content.to_vec() }.encode()).unwrap().to_vec();
    let bad = match s::pick("kind", 3) {
        0 => { let at = s::pick("at", good.len()); if at > 1 && at % s::param("step", 3) as usize != 0 { s::end() } let mut b = good.clone(); b[at] = s::u8("byte"); s::cover("one byte overwritten"); b }
        1 => { let at = s::pick("cut", good.len()); s::cover("cut short"); good[..at].to_vec() }
        _ => { let n = s::pick("n", s::param("len", 3) as usize + 1); s::cover("arbitrary bytes"); s::bytes("junk", n) }
    };
    n.deliver(4, Bytes::from(bad)); let (sg, sc) = (seen(&g), seen(&c)); s::check(sg.len() + sc.len() <= 1, "a message is handled at most once"); for x in sg.iter().chain(sc.iter()) { s::check(x.0 == 4, "a message is handled as its sender's"); s::cover("accepted"); } if sg.is_empty() && sc.is_empty() { s::cover("dropped"); }
    s::check(sg.iter().all(|x| x.1.is_none()) && sc.iter().all(|x| x.1.is_some()), "a call has an id, gossip has none"); let p = got(&mut waiting); s::check(k == 2 || p == Poll::Pending, "only a response answers a call");
    // the node still works
    let w = Wire::default(); s::block_on(NetworkGossip::new(w.clone(), Plain).broadcast(Context::new(), "/gossip/a/b", m.clone(), Priority::High)).unwrap(); let before = seen(&g).len(); n.deliver(8, w.take()[0].2.clone()); let after = seen(&g); s::check(after.len() == before + 1 && after[before] == (8, None, m), "the node still handles the next message");
}
/// a call keeps its id to the handler and into the answer
#[no_mangle] pub fn nt_rpc_number() {
    let id = [0u64, 1 << 32, u64::max_value() - 255][s::pick("base", 3)] + u64::from(s::u8("id")); let w = Wire::default(); let mut n = Node::new(Plain); let rpc = NetworkRpc::new(w.clone(), Plain, n.map.clone()); let r = s::concrete(reply); let c = n.handle::<Msg>("/rpc_call/a/b", Some((rpc, "/rpc_resp/a/b", r.clone()))); let mut m = Msg { hashes: vec![], n: 7, text: vec![1] };
    let content = s::block_on(MessageCodec::encode(&mut m)).unwrap().to_vec(); let raw = s::block_on(NetworkMessage { url: format!("/rpc_call/a/b/{}", id), content }.encode()).unwrap(); n.deliver(9, raw); let sc = seen(&c); s::check(sc.len() == 1 && sc[0] == (9, Some(id), m), "a call keeps its id");
    let o = w.take(); s::check(o.len() == 1 && is_one(&o[0].0, 9), "an answer goes back to the caller"); let back = s::block_on(NetworkMessage::decode(o[0].2.clone())).unwrap(); s::check(back.url == format!("/rpc_resp/a/b/{}", id), "an answer keeps the id of its call"); s::cover("id");
}
/// answers before the sender knows that the call went out
#[derive(Clone)] struct Quick(Arc<RpcMap>, Reply);
#[async_trait] impl MessageSender for Quick {
    fn send(&self, _: TargetSession, _: tentacle::bytes::Bytes, _: Priority) -> Result<(), NetworkError> { for rid in 0..3 { if let Ok(tx) = self.0.take::<Reply>(5.into(), rid) { let _ = tx.send(self.1.clone()); } } Ok(()) }
    async fn users_send(&self, _: Vec<UserAddress>, _: tentacle::bytes::Bytes, _: Priority) -> Result<(), NetworkError> { Ok(()) }
}
/// an answer that is back at once reaches its caller
#[no_mangle] pub fn nt_rpc_quick() {
    let map = Arc::new(RpcMap::new()); let r = s::concrete(reply); let rpc = NetworkRpc::new(Quick(map.clone(), r.clone()), Plain, map); let m = msg(0, 1); let f: Pin<Box<dyn Future<Output = ProtocolResult<Reply>>>> = Box::pin(async move { rpc.call::<Msg, Reply>(Context::new().set_session_id(5.into()), "/rpc_call/chain/pull", m, Priority::Normal).await });
    let mut f = f; let mut p = s::poll_once(f.as_mut()); if p.is_pending() { p = s::poll_once(f.as_mut()) } s::check(match p { Poll::Ready(Ok(x)) => x == r, _ => false }, "an answer that is back at once reaches its caller"); s::cover("answered");
}
s::entries!(nt_endpoint, nt_endpoint_text, nt_endpoint_eq, nt_rpc_id, nt_rpc_bad, nt_rpc_map, nt_rpc_race, nt_rpc_many, nt_gossip, nt_gossip_snappy, nt_snappy, nt_snappy_bad, nt_rpc, nt_rpc_fail, nt_hostile, nt_endpoint_parts, nt_rpc_number, nt_rpc_quick);
