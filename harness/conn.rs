//! Network: connections, and the service as a whole; the sockets stood in for.
//@ deps: protocol bytes num_bigint serde_json core_network tentacle futures async_trait runtime futures_timer hex serde serde_derive bincode
use async_trait::async_trait;
use bytes::Bytes;
use core_network::verif_hooks::*;
use core_network::{NetworkConfig, NetworkService, NetworkServiceHandle};
use serde_derive::{Deserialize, Serialize};
use futures::channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender};
use protocol::traits::{Context, Gossip, MessageHandler, Priority, Rpc};
use protocol::types::UserAddress;
use protocol::ProtocolResult;
use std::future::Future;
use std::io;
use std::net::{IpAddr, SocketAddr};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;
use symrt as s;
use tentacle::context::SessionContext;
use tentacle::error::Error as TErr;
use tentacle::multiaddr::{Multiaddr, Protocol};
use tentacle::secio::{PeerId, PublicKey};
use tentacle::service::{DialProtocol, ProtocolMeta, ServiceError, ServiceEvent, SessionType, TargetProtocol, TargetSession};
use tentacle::sim::{self, Asked, Input, Node};
use tentacle::{ProtocolId, SessionId};

fn key(p: usize) -> Vec<u8> { let mut b = vec![0x40 + p as u8; 33]; b[0] = 2; b }
fn pubkey(p: usize) -> PublicKey { PublicKey::Secp256k1(key(p)) }
fn pid(p: usize) -> PeerId { s::concrete(|| pubkey(p).peer_id()) }
fn user(p: usize) -> UserAddress { s::concrete(|| UserAddress::from_pubkey_bytes(Bytes::from(key(p))).unwrap()) }
fn addr(n: usize) -> Multiaddr { Multiaddr::empty().with(Protocol::Ip4([10, 0, 0, n as u8].into())).with(Protocol::Tcp(1000)) }
/// every task spawned so far, and those they spawn, as far as they get
struct Tasks(Vec<Pin<Box<dyn Future<Output = ()> + Send>>>);
impl Tasks { fn run(&mut self) { for _ in 0..6 { self.0.extend(runtime::sim::take()); self.0.retain_mut2(|t| s::poll_once(t.as_mut()) == Poll::Pending); } } }
trait RetainMut<T> { fn retain_mut2<F: FnMut(&mut T) -> bool>(&mut self, f: F); }
impl<T> RetainMut<T> for Vec<T> { fn retain_mut2<F: FnMut(&mut T) -> bool>(&mut self, mut f: F) { let v = std::mem::replace(self, vec![]); for mut x in v { if f(&mut x) { self.push(x) } } } }

/// what a report to the peer manager says
#[derive(Debug, Clone, PartialEq)] enum E { Attach(PublicKey, SessionId, Multiaddr, SessionType), Detach(PeerId, SessionId), Alive(PeerId), Remove(PeerId), RemoveBy(SessionId), Retry(PeerId), Found(Multiaddr), FoundMany(Vec<Multiaddr>), Identified(PeerId, Vec<Multiaddr>), Repeated(bool, SessionId, Multiaddr), Dead(Multiaddr), Later(Multiaddr), Listen(Multiaddr), Unlisten(Multiaddr), Route }
fn plain(e: PeerManagerEvent) -> E { use PeerManagerEvent as P; match e { P::AttachPeerSession { pubkey, session } => E::Attach(pubkey, session.sid, session.addr, session.ty), P::DetachPeerSession { pid, sid, .. } => E::Detach(pid, sid), P::PeerAlive { pid } => E::Alive(pid), P::RemovePeer { pid, .. } => E::Remove(pid), P::RemovePeerBySession { sid, .. } => E::RemoveBy(sid), P::RetryPeerLater { pid, .. } => E::Retry(pid), P::DiscoverAddr { addr } => E::Found(addr), P::DiscoverMultiAddrs { addrs } => E::FoundMany(addrs), P::IdentifiedAddrs { pid, addrs } => E::Identified(pid, addrs), P::RepeatedConnection { ty, sid, addr } => E::Repeated(ty == ConnectionType::Dialer, sid, addr), P::UnconnectableAddress { addr, .. } => E::Dead(addr), P::ReconnectLater { addr, .. } => E::Later(addr), P::AddListenAddr { addr } => E::Listen(addr), P::RemoveListenAddr { addr } => E::Unlisten(addr), P::RouteMultiUsersMessage { .. } => E::Route } }
fn reported(rx: &mut UnboundedReceiver<PeerManagerEvent>) -> Vec<E> { let mut v = vec![]; while let Ok(Some(e)) = rx.try_next() { v.push(plain(e)) } v }

/// a protocol with nothing in it
struct Bare;
impl NetworkProtocol for Bare { fn target() -> DialProtocol { DialProtocol::Multi(vec![1.into(), 7.into()]) } fn metas(self) -> Vec<ProtocolMeta> { vec![] } fn message_proto_id() -> ProtocolId { 7.into() } }
/// the connections alone
struct Conn<P: NetworkProtocol> { node: Node, srv: Pin<Box<ConnectionService<P>>>, ctrl: ConnectionServiceControl<P>, ev: UnboundedSender<ConnectionEvent>, mgr_tx: UnboundedSender<PeerManagerEvent>, mgr: UnboundedReceiver<PeerManagerEvent>, sys: UnboundedReceiver<NetworkError> }
fn conn<P: NetworkProtocol + Unpin>(p: P, mgr_tx: UnboundedSender<PeerManagerEvent>, mgr: UnboundedReceiver<PeerManagerEvent>) -> Conn<P> {
    let (sys_tx, sys) = unbounded(); let (ev, erx) = unbounded(); let cfg = NetworkConfig::new();
    let srv = ConnectionService::new(p, ConnectionConfig::from(&cfg), ConnectionServiceKeeper::new(mgr_tx.clone(), sys_tx), erx); let ctrl = srv.control(mgr_tx.clone()); let node = sim::take().pop().unwrap(); Conn { node, srv: Box::pin(srv), ctrl, ev, mgr_tx, mgr, sys }
}
impl<P: NetworkProtocol + Unpin> Conn<P> {
    fn run(&mut self) -> Poll<()> { s::nopanic("the connections do not panic", || s::poll_once(self.srv.as_mut())) }
    fn troubles(&mut self) -> usize { let mut n = 0; while let Ok(Some(_)) = self.sys.try_next() { n += 1 } n }
}
fn bare() -> Conn<Bare> { let (t, r) = unbounded(); conn(Bare, t, r) }
fn session(p: usize, sid: usize, a: usize, out: bool) -> Arc<SessionContext> { sim::session(sid, addr(a), if out { SessionType::Outbound } else { SessionType::Inbound }, Some(pubkey(p))) }
fn io_err(k: usize) -> TErr { TErr::IoError([io::ErrorKind::ConnectionRefused, io::ErrorKind::NotFound, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe, io::ErrorKind::UnexpectedEof][k].into()) }

/// whatever happens to the connections, the peer manager is told of it, in order
#[no_mangle] pub fn cn_keeper() {
    let mut c = bare(); let mut want = vec![]; let mut wt = 0; let n = s::param("n", 2);
    for i in 0..n {
        let one = n == 1; let pick = |name: &str, k: usize| if one { s::pick(name, k) } else { i as usize % k };
        let what = s::pick("what", 11); let p = i as usize % 2; let sid = if what == 9 { 1 } else { s::below("sid", 1 << 40) as usize + 1 }; let a = 20 + i as usize; let out = match what { 0 | 1 | 4 | 8 => pick("outbound", 2) == 0, _ => false }; let cx = session(p, sid, a, out);
        match what {
            0 => { c.node.inject(Input::Event(ServiceEvent::SessionOpen { session_context: cx })); want.push(E::Attach(pubkey(p), sid.into(), addr(a), if out { SessionType::Outbound } else { SessionType::Inbound })); s::cover("opened"); }
            1 => { c.node.inject(Input::Event(ServiceEvent::SessionClose { session_context: cx })); want.push(E::Detach(pid(p), sid.into())); s::cover("closed"); }
            2 => { c.node.inject(Input::Event(ServiceEvent::ListenStarted { address: addr(a) })); want.push(E::Listen(addr(a))); s::cover("listening"); }
            3 => { c.node.inject(Input::Event(ServiceEvent::ListenClose { address: addr(a) })); want.push(E::Unlisten(addr(a))); s::cover("not listening"); }
            4 => {
                let (error, w) = match pick("why", 6) {
                    0 => (TErr::ConnectSelf, E::Listen(addr(a))), 1 => (TErr::RepeatedConnection(sid.into()), E::Repeated(out, sid.into(), addr(a))),
                    2 => (TErr::IoError(io::ErrorKind::TimedOut.into()), E::Later(addr(a))), 3 => (TErr::IoError(io::ErrorKind::Interrupted.into()), E::Later(addr(a))),
                    4 => (io_err(pick("io", 5)), E::Dead(addr(a))), _ => (match pick("e", 3) { 0 => TErr::PeerIdNotMatch, 1 => TErr::DNSResolverError(io::ErrorKind::TimedOut.into()), _ => TErr::ServiceProtoHandleBlock }, E::Dead(addr(a))) };
                c.node.inject(Input::Error(if out { ServiceError::DialerError { error, address: addr(a) } } else { ServiceError::ListenError { error, address: addr(a) } })); s::cover("not connected"); want.push(w);
            }
            5 => { c.node.inject(Input::Error(ServiceError::ProtocolSelectError { proto_name: Some("x".into()), session_context: cx })); want.push(E::Remove(pid(p))); s::cover("speaks otherwise"); }
            6 => { c.node.inject(Input::Error(ServiceError::ProtocolSelectError { proto_name: None, session_context: cx })); want.push(E::Retry(pid(p))); }
            7 => { c.node.inject(Input::Error(ServiceError::ProtocolError { id: sid.into(), proto_id: 4.into(), error: io_err(pick("io", 5)) })); want.push(E::RemoveBy(sid.into())); s::cover("breaks the protocol"); }
            8 => { c.node.inject(Input::Error(if out { ServiceError::SessionTimeout { session_context: cx } } else { ServiceError::MuxerError { session_context: cx, error: io_err(pick("io", 5)) } })); want.push(E::Retry(pid(p))); s::cover("shaky"); }
            9 => { c.node.inject(Input::Error(ServiceError::ProtocolHandleError { error: TErr::ServiceProtoHandleBlock, proto_id: 4.into() })); wt += 1; s::cover("own fault"); }
            _ => { c.node.inject(Input::Error(ServiceError::SessionBlocked { session_context: cx })); want.push(E::RemoveBy(sid.into())); wt += 1; s::cover("blocked"); }
        }
        if i + 1 < n && s::flag("at once") { continue }
        s::check(c.run() == Poll::Pending, "the connections go on");
    }
    s::check(reported(&mut c.mgr) == want, "what happens to the connections is reported once, as it is, in order"); s::check(c.troubles() == wt, "faults of our own are reported upwards"); s::check(c.node.asked().is_empty(), "the connections do nothing of their own accord");
}
/// the peer manager gone, the connections go on, and say so once
#[no_mangle] pub fn cn_keeper_gone() {
    let mut c = bare(); let (t, r) = unbounded(); let old = std::mem::replace(&mut c.mgr, r); drop(old); drop(t);
    for _ in 0..2 { let cx = session(0, 1, 20, true); c.node.inject(match s::pick("what", 3) { 0 => Input::Event(ServiceEvent::SessionOpen { session_context: cx }), 1 => Input::Error(ServiceError::SessionTimeout { session_context: cx }), _ => Input::Error(ServiceError::DialerError { error: TErr::ConnectSelf, address: addr(20) }) }); s::check(c.run() == Poll::Pending, "the connections go on"); }
    s::check(c.troubles() == 2, "that the peer manager is gone is reported upwards"); s::cover("gone");
}
#[derive(Clone, Copy, PartialEq)] enum Full { No, Normal, Quick, Both }
fn full(c: &Node, f: Full) { c.full(f == Full::Normal || f == Full::Both, f == Full::Quick || f == Full::Both) }
/// what is asked of the connections is done once, in order, nothing lost while they are busy
#[no_mangle] pub fn cn_events() {
    let mut c = bare(); let (mut quick, mut normal): (Vec<Asked>, Vec<Asked>) = (vec![], vec![]); let mut got: Vec<Asked> = vec![]; let protos = TargetProtocol::Multi(vec![1.into(), 7.into()]); let mut busy = false;
    let n = s::param("n", 3);
    for i in 0..n {
        let few = n > 2; let f = if few { [Full::No, Full::Both][s::pick("full", 2)] } else { [Full::No, Full::Normal, Full::Quick, Full::Both][s::pick("full", 4)] }; busy |= f != Full::No; full(&c.node, f);
        let e = match s::pick("event", 3) {
            0 => { let k = if few { 2 } else { s::pick("addrs", 3) }; for j in 0..k { quick.push(Asked::Dial { addr: addr(20 + 3 * i as usize + j), protos: protos.clone() }) } ConnectionEvent::Connect { addrs: (0..k).map(|j| addr(20 + 3 * i as usize + j)).collect(), proto: DialProtocol::All } }
            1 => { let sid = s::below("sid", 1 << 40) as usize; quick.push(Asked::Close(sid.into())); ConnectionEvent::Disconnect(sid.into()) }
            _ => { let msg = Bytes::from(vec![i as u8, s::u8("msg")]); let tar = match if few { 0 } else { s::pick("to", 3) } { 0 => TargetSession::All, 1 => TargetSession::Single((s::below("sid", 1 << 40) as usize).into()), _ => TargetSession::Multi(vec![1.into(), 2.into()]) }; let high = s::flag("high");
                (if high { &mut quick } else { &mut normal }).push(Asked::Send { quick: high, to: tar.clone(), proto: 7.into(), data: msg.clone() }); ConnectionEvent::SendMsg { tar, msg, pri: if high { Priority::High } else { Priority::Normal } } }
        };
        c.ev.unbounded_send(e).unwrap(); if s::flag("poll") { s::check(c.run() == Poll::Pending, "the connections go on"); full(&c.node, Full::No); got.extend(c.node.asked()); }
    }
    full(&c.node, Full::No); for _ in 0..2 { s::check(c.run() == Poll::Pending, "the connections go on"); got.extend(c.node.asked()); }
    let is_normal = |a: &Asked| match a { Asked::Send { quick, .. } => !quick, _ => false };
    let (gn, gq): (Vec<Asked>, Vec<Asked>) = got.into_iter().partition(is_normal);
    s::check(gn == normal, "an ordinary message asked for is sent once, in order"); s::check(gq == quick, "a dial, a close or an urgent message asked for is done once, in order"); if busy { s::cover("was busy") } else { s::cover("never busy") }
    c.node.close(); s::check(c.run() == Poll::Ready(()), "closed connections end"); s::cover("closed");
}
/// a message sent: passed on with its session, protocol and urgency, or refused, being busy or shut down
#[no_mangle] pub fn cn_send() {
    let mut c = bare(); let high = s::flag("high"); let pri = || if high { Priority::High } else { Priority::Normal }; let msg = Bytes::from(s::bytes_upto("msg", 0, 3)); let tar = match s::pick("to", 3) { 0 => TargetSession::All, 1 => TargetSession::Single((s::u32("sid") as usize).into()), _ => TargetSession::Multi(vec![(s::u32("sid") as usize).into(), 2.into()]) };
    let f = [Full::No, Full::Normal, Full::Quick, Full::Both][s::pick("full", 4)]; full(&c.node, f); let shut = s::flag("shut"); if shut { c.node.close() }
    let r = s::nopanic("sending does not panic", || c.ctrl.send(tar.clone(), msg.clone(), pri())); full(&c.node, Full::No); let a = c.node.asked();
    let busy = f == Full::Both || (high && f == Full::Quick) || (!high && f == Full::Normal);
    match r {
        Ok(()) => { s::check(!shut && !busy, "connections that are busy or shut down say so"); s::check(a == vec![Asked::Send { quick: high, to: tar, proto: 7.into(), data: msg }], "a message is passed on once, as it is"); s::cover("sent"); }
        Err(NetworkError::Shutdown) => { s::check(shut && a.is_empty(), "only what is shut down says so"); s::cover("shut down"); }
        Err(NetworkError::Busy) => { s::check(busy && !shut && a.is_empty(), "only what is busy says so"); s::cover("busy"); }
        Err(_) => s::check(false, "a message is sent, or the sender told why not"),
    }
}
/// a message for users: handed to the peer manager, and the sender told who was missed
#[no_mangle] pub fn cn_users_send() {
    let mut c = bare(); let n = s::pick("users", 3); let to: Vec<UserAddress> = (0..n).map(user).collect(); let msg = Bytes::from(s::bytes_upto("msg", 0, 2)); let high = s::flag("high"); let gone = s::flag("manager gone");
    if gone { let (_, r) = unbounded(); drop(std::mem::replace(&mut c.mgr, r)); }
    let ctrl = c.ctrl.clone(); let mut f: Pin<Box<dyn Future<Output = Result<(), NetworkError>>>> = Box::pin({ let (to, msg) = (to.clone(), msg.clone()); async move { ctrl.users_send(to, msg, if high { Priority::High } else { Priority::Normal }).await } });
    let first = s::poll_once(f.as_mut());
    if gone { match first { Poll::Ready(Err(_)) => s::cover("no manager"), _ => s::check(false, "without a peer manager, a message for users is refused") } return; }
    s::check(match first { Poll::Pending => true, _ => false }, "a message for users waits for the peer manager");
    match c.mgr.try_next() {
        Ok(Some(PeerManagerEvent::RouteMultiUsersMessage { users_msg, miss_tx })) => {
            s::check(users_msg.user_addrs == to && users_msg.msg == msg, "a message for users is handed over as it is"); s::check(match users_msg.pri { Priority::High => high, Priority::Normal => !high }, "a message for users keeps its urgency");
            let miss = (0..n).filter(|_| s::flag("missed")).map(user).collect::<Vec<_>>(); s::check(miss_tx.send(miss.clone()).is_ok(), "the sender waits for the answer");
            match s::poll_once(f.as_mut()) { Poll::Ready(Ok(())) => { s::check(miss.is_empty(), "users missed are reported"); s::cover("all reached"); } Poll::Ready(Err(NetworkError::PartialRouteMessage { miss: m })) => { s::check(!miss.is_empty() && m == miss, "the users missed are reported"); s::cover("missed"); } _ => s::check(false, "the sender is answered") }
        }
        _ => s::check(false, "a message for users is handed to the peer manager"),
    }
    s::check(c.mgr.try_next().is_err() && c.node.asked().is_empty(), "a message for users is handed over once");
}
/// what the protocols hear of a peer is reported to the peer manager; what it sends is passed on
#[no_mangle] pub fn cn_protocols() {
    let (t, r) = unbounded(); let (raw_tx, mut raw) = unbounded(); let (unused, _rx) = unbounded(); let (ct, _cr) = unbounded();
    let config = PeerManagerConfig { our_id: pid(9), pubkey: pubkey(9), bootstraps: vec![], max_connections: 4, routine_interval: Duration::from_secs(10), persistence_path: "/nonexistent".into() };
    let mgr = PeerManager::new(config, _rx, ct); drop(unused); let h = mgr.handle(); let l = 30 + s::pick("listen", 2); mgr.set_listen(addr(l));
    let proto = CoreProtocol::build().ping(Duration::from_secs(15), Duration::from_secs(30), t.clone()).identify(IdentifyCallback::new(h.clone(), t.clone())).discovery(DiscoveryAddrManager::new(h, t.clone()), Duration::from_secs(60)).transmitter(raw_tx).build();
    let mut c = conn(proto, t, r); let mut want = vec![]; let mut asked = vec![]; let mut raws = 0;
    s::check(c.node.forever && c.node.protos.len() == 4 && (1..5).all(|i| c.node.protos.contains_key(&ProtocolId::new(i))), "the four protocols are spoken"); s::check(match CoreProtocol::target() { DialProtocol::Multi(v) => (1..5).all(|i| v.contains(&ProtocolId::new(i))) && v.len() == 4, DialProtocol::All => true, _ => false }, "all protocols are asked of a peer"); s::check(c.run() == Poll::Pending, "the connections go on"); c.node.asked();
    let n = s::param("n", 2);
    for i in 0..n {
        let one = n == 1; let pick = |name: &str, k: usize| if one { s::pick(name, k) } else { i as usize % k };
        let k = s::pick("proto", 4); let p = i as usize % 2; let sid = 1 + s::below("sid", 1 << 30) as usize; let cx = session(p, sid, 20, pick("outbound", 2) == 0);
        let data: Vec<u8> = match k {
            0 => { let e = if one { s::pick("ping", 4) } else { 2 * s::pick("ping", 2) }; want.push(if e < 2 { E::Alive(pid(p)) } else { E::Retry(pid(p)) }); s::cover(if e < 2 { "alive" } else { "not heard of" }); vec![e as u8] }
            1 => match s::pick("identify", 5) { 0 => { want.push(E::Identified(pid(p), vec![addr(40), addr(41)])); s::cover("identified"); vec![0, 40, 41] } 1 => vec![1, 42], 2 => { asked.push(Asked::Close(sid.into())); s::cover("misbehaves"); vec![2, pick("mis", 5) as u8] } 3 => { asked.push(Asked::Send { quick: false, to: TargetSession::Single(sid.into()), proto: 2.into(), data: Bytes::from(vec![l as u8]) }); s::cover("asks where we listen"); vec![3] } _ => vec![4, 1, 2] },
            2 => match s::pick("discovery", 3) { 0 => { want.push(E::Found(addr(43))); vec![0, 43] } 1 => { want.push(E::FoundMany(vec![addr(44), addr(45)])); s::cover("hears of others"); vec![1, 44, 45] } _ => { want.push(E::RemoveBy(sid.into())); asked.push(Asked::Close(sid.into())); s::cover("misbehaves"); vec![2, pick("mis", 4) as u8] } },
            _ => { let d = if one { s::bytes_upto("data", 0, 3) } else { vec![i as u8] }; raws += 1; s::cover("message"); d }
        };
        c.node.inject(Input::Received((k + 1).into(), cx, Bytes::from(data))); if s::flag("at once") { continue } s::check(c.run() == Poll::Pending, "the connections go on");
    }
    s::check(c.run() == Poll::Pending, "the connections go on"); let got = c.node.asked(); let (closed, rest): (Vec<Asked>, Vec<Asked>) = got.into_iter().partition(|a| match a { Asked::Close(_) => true, _ => false }); let (wc, wr): (Vec<Asked>, Vec<Asked>) = asked.into_iter().partition(|a| match a { Asked::Close(_) => true, _ => false });
    s::check(reported(&mut c.mgr) == want, "what the protocols hear of a peer is reported once, in order"); s::check(closed == wc, "a peer that misbehaves is let go"); s::check(rest == wr, "what a peer asks is answered"); let mut v = 0; while let Ok(Some(m)) = raw.try_next() { let _: RawSessionMessage = m; v += 1 } s::check(v == raws, "a message is passed on once");
    if n > 1 { return }
    // the peer manager gone
    let (_, r) = unbounded(); drop(std::mem::replace(&mut c.mgr, r)); drop(raw); let cx = session(0, 1, 20, true); let (k, d): (usize, Vec<u8>) = match s::pick("after", 5) { 0 => (1, vec![0]), 1 => (2, vec![0, 40]), 2 => (3, vec![0, 40]), 3 => (3, vec![2, 0]), _ => (4, vec![1]) };
    for _ in 0..2 { c.node.inject(Input::Received(k.into(), cx.clone(), Bytes::from(d.clone()))); s::check(c.run() == Poll::Pending, "the connections go on"); } s::cover("manager gone");
}

// ---- the service as a whole
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)] struct Msg { n: u32, text: Vec<u8> }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)] struct Reply { v: u16 }
type Seen<M> = Arc<Mutex<Vec<(usize, Option<u64>, M)>>>;
/// records what arrives, and answers calls
struct Rec<M> { seen: Seen<M>, answer: Option<(NetworkServiceHandle, Reply, bool)> }
#[async_trait] impl<M: protocol::traits::MessageCodec + Clone + Sync> MessageHandler for Rec<M> {
    type Message = M;
    async fn process(&self, cx: Context, m: M) -> ProtocolResult<()> {
        let sid = cx.session_id().map(|x| x.value()).unwrap_or(usize::max_value()); self.seen.lock().unwrap().push((sid, cx.rpc_id().ok(), m));
        if let Some((h, r, high)) = &self.answer { h.response(cx, "/rpc_resp/chain/pull", r.clone(), if *high { Priority::High } else { Priority::Normal }).await?; }
        Ok(())
    }
}
struct Svc { srv: Pin<Box<NetworkService>>, node: Node, h: NetworkServiceHandle }
fn config(k: u8) -> NetworkConfig { s::concrete(|| NetworkConfig::new().secio_keypair(hex::encode([0x40 + k; 32])).ok().unwrap()) }
fn svc(cfg: NetworkConfig) -> Svc { let srv = s::nopanic("a service is made without a panic", || NetworkService::new(cfg)); let h = srv.handle(); let node = sim::take().pop().unwrap(); Svc { srv: Box::pin(srv), node, h } }
impl Svc {
    fn on<M: protocol::traits::MessageCodec + Clone + Sync>(&mut self, end: &str, answer: Option<(NetworkServiceHandle, Reply, bool)>) -> Seen<M> { let seen: Seen<M> = Arc::new(Mutex::new(vec![])); s::check(self.srv.register_endpoint_handler(end, Box::new(Rec { seen: seen.clone(), answer })).is_ok(), "a handler is registered"); seen }
    fn run(&mut self, t: &mut Tasks) { s::nopanic("the service does not panic", || { s::check(s::poll_once(self.srv.as_mut()) == Poll::Pending, "the service goes on"); t.run(); }) }
    /// what was sent since the last call
    fn sent(&mut self) -> Vec<(bool, TargetSession, Bytes)> { self.node.asked().into_iter().filter_map(|a| match a { Asked::Send { quick, to, proto, data } => { s::check(proto == 4.into(), "messages go out on their protocol"); Some((quick, to, data)) } _ => None }).collect() }
    fn meet(&mut self, p: usize, sid: usize, out: bool) { self.node.inject(Input::Event(ServiceEvent::SessionOpen { session_context: session(p, sid, 20 + p, out) })); }
    fn hear(&mut self, t: &mut Tasks, p: usize, sid: usize, data: Bytes) { self.node.inject(Input::Received(4.into(), session(p, sid, 20 + p, true), data)); self.run(t) }
}
fn what<M: Clone>(x: &Seen<M>) -> Vec<(usize, Option<u64>, M)> { x.lock().unwrap().clone() }
fn to_sids(t: &TargetSession) -> Option<Vec<usize>> { match t { TargetSession::All => None, TargetSession::Single(x) => Some(vec![x.value()]), TargetSession::Multi(v) => Some(v.iter().map(|x| x.value()).collect()) } }
fn msg() -> Msg { Msg { n: 7, text: vec![9; 50 * s::pick("bytes", 2)] } }
fn pri(high: bool) -> Priority { if high { Priority::High } else { Priority::Normal } }

/// gossip between two services, to everyone or to users
#[no_mangle] pub fn cn_gossip() {
    let mut t = Tasks(vec![]); let (mut a, mut b) = (svc(config(8)), svc(config(9))); let ends = ["/gossip/chain/new", "/gossip/chain/newer", "/gossip/chain/unknown"]; let (x, y) = (b.on::<Msg>(ends[0], None), b.on::<Msg>(ends[1], None));
    a.run(&mut t); b.run(&mut t); let here: Vec<bool> = (0..2).map(|_| s::flag("connected")).collect(); for p in 0..2 { if here[p] { a.meet(p, 60 + p, s::flag("outbound")) } } a.run(&mut t); let left = here[0] && s::flag("one leaves"); if left { a.node.inject(Input::Event(ServiceEvent::SessionClose { session_context: session(0, 60, 20, true) })); a.run(&mut t); } let here = [here[0] && !left, here[1]]; a.sent();
    let m = msg(); let high = s::flag("high"); let k = s::pick("end", 3); let h = a.h.clone(); let users: Option<Vec<usize>> = if s::flag("to all") { None } else { Some((0..3).filter(|_| s::flag("to")).collect()) };
    let mut f: Pin<Box<dyn Future<Output = ProtocolResult<()>>>> = { let (m, u) = (m.clone(), users.clone()); Box::pin(async move { match u { None => h.broadcast(Context::new(), ends[k], m, pri(high)).await, Some(u) => h.users_cast(Context::new(), ends[k], u.into_iter().map(user).collect(), m, pri(high)).await } }) };
    let mut r = s::nopanic("sending does not panic", || s::poll_once(f.as_mut())); a.run(&mut t); if r.is_pending() { r = s::poll_once(f.as_mut()) }
    let sent = a.sent(); s::check(sent.iter().all(|o| o.0 == high), "a message keeps its urgency");
    match (users.clone(), r) {
        (None, Poll::Ready(Ok(()))) => { s::check(sent.len() == 1 && to_sids(&sent[0].1).is_none(), "a broadcast goes out once, to all"); s::cover("broadcast"); }
        (Some(u), Poll::Ready(r)) => {
            let mut got: Vec<usize> = vec![]; for o in &sent { got.extend(to_sids(&o.1).unwrap_or(vec![999])) } got.sort(); let want: Vec<usize> = u.iter().filter(|p| **p < 2 && here[**p]).map(|p| 60 + p).collect(); s::check(got == want, "a message for users goes to each of them that is connected, once, and to nobody else");
            s::check(r.is_ok() == (want.len() == u.len()), "a message that misses a user is reported so"); s::cover(if want.len() == u.len() { "all reached" } else { "missed" });
        }
        _ => s::check(false, "sending ends"),
    }
    for o in &sent { let n = what(&x).len() + what(&y).len(); b.hear(&mut t, 2, 70, o.2.clone()); let (ex, ey) = (what(&x), what(&y)); s::check(ex.len() + ey.len() == n + if k < 2 { 1 } else { 0 }, "a message is handled once, where its endpoint is known"); for (i, e) in [ex, ey].iter().enumerate() { for g in e { s::check(i == k && *g == (70, None, m.clone()), "a message arrives as it was sent, as its sender's, at the handler of its endpoint"); s::cover("handled"); } } }
}
/// calls between two services
#[no_mangle] pub fn cn_call() {
    let mut t = Tasks(vec![]); let (mut a, mut b) = (svc(config(8)), svc(config(9))); let n = s::param("n", 2) as usize; let rh = s::flag("answers urgently"); let bh = b.h.clone(); let seen = b.on::<Msg>("/rpc_call/chain/pull", Some((bh, Reply { v: 0x1234 }, rh))); s::check(a.srv.register_rpc_response::<Reply>("/rpc_resp/chain/pull").is_ok(), "a response is registered");
    a.run(&mut t); b.run(&mut t); a.node.asked(); b.node.asked(); let m = msg(); let high = s::flag("high"); let sid = 60;
    let mut calls: Vec<Pin<Box<dyn Future<Output = ProtocolResult<Reply>>>>> = vec![]; let mut asked = vec![];
    for _ in 0..n { let (h, m) = (a.h.clone(), m.clone()); calls.push(Box::pin(async move { h.call::<Msg, Reply>(Context::new().set_session_id(sid.into()), "/rpc_call/chain/pull", m, pri(high)).await })); s::check(s::poll_once(calls.last_mut().unwrap().as_mut()).is_pending(), "a call waits for its answer"); let o = a.sent(); s::check(o.len() == 1 && o[0].0 == high && to_sids(&o[0].1).map_or(false, |v| same(&v, &[sid])), "a call goes to its peer, once"); asked.push(o[0].2.clone()); }
    let mut answers = vec![]; for q in &asked { b.hear(&mut t, 2, 70, q.clone()); let o = b.sent(); s::check(o.len() == 1 && o[0].0 == rh && to_sids(&o[0].1) == Some(vec![70]), "an answer goes back to the caller, once"); answers.push(o[0].2.clone()); }
    let w = what(&seen); s::check(w.len() == n && w.iter().all(|x| x.0 == 70 && x.1.is_some() && x.2 == m), "a call arrives as it was sent");
    let order: Vec<usize> = if n == 2 && s::flag("other way round") { vec![1, 0] } else { (0..n).collect() };
    for i in order { let wrong = s::flag("from another first"); if wrong { a.hear(&mut t, 3, 61, answers[i].clone()); s::check(s::poll_once(calls[i].as_mut()).is_pending(), "another peer's answer is not taken for this one's"); s::cover("from another"); }
        a.hear(&mut t, 2, sid, answers[i].clone()); s::check(match s::poll_once(calls[i].as_mut()) { Poll::Ready(Ok(r)) => r == Reply { v: 0x1234 }, _ => false }, "a call is answered as its peer answered"); s::cover("answered"); }
}
fn same(a: &[usize], b: &[usize]) -> bool { a == b }
/// what is registered, and where
#[no_mangle] pub fn cn_register() {
    let mut t = Tasks(vec![]); let mut a = svc(config(8)); let k = s::pick("scheme", 4); let parts = s::pick("parts", 3); let end = format!("/{}/a{}", ["gossip", "rpc_call", "rpc_resp", "other"][k], ["", "/b", "/b/c/d"][parts]); let resp = s::flag("response");
    let r = s::nopanic("registering does not panic", || if resp { a.srv.register_rpc_response::<Msg>(&end) } else { a.srv.register_endpoint_handler(&end, Box::new(Rec::<Msg> { seen: Arc::new(Mutex::new(vec![])), answer: None })) });
    s::check(r.is_ok() == (k < 3 && parts == 1 && resp == (k == 2)), "responses are registered as such, all else as handlers, and nothing else at all"); s::cover(if r.is_ok() { "registered" } else { "refused" }); a.run(&mut t);
}
/// where a service listens, with which key and limits
#[no_mangle] pub fn cn_listen() {
    let mut t = Tasks(vec![]); let f = (1 << 20) + s::below("frame", 1 << 30) as usize; let cfg = config(5).max_frame_length(f); let default = cfg.default_listen.clone(); let mut a = svc(cfg); s::check(a.node.max_frame_length == f, "the longest frame is the configured one"); s::check(a.node.key_pair.as_ref().map(|k| k.to_peer_id() == key_pair(5).to_peer_id()) == Some(true), "the key is the configured one"); s::check(a.node.listens().is_empty(), "a service listens when told to");
    let mut at = default.clone(); let how = s::pick("how", 4); let sock = |k: u8| SocketAddr::new([10, 9, 8, k].into(), 4000 + u16::from(k)); let multi = |k: u8| Multiaddr::empty().with(Protocol::Ip4([10, 9, 8, k].into())).with(Protocol::Tcp(4000 + u16::from(k)));
    if how > 0 { if how == 3 { a.node.refuse_listen(true); s::check(a.srv.listen(sock(2)).is_err(), "an address that cannot be listened at is refused"); a.node.refuse_listen(false); s::cover("refused"); } s::check(a.srv.listen(sock(1)).is_ok(), "a free address is listened at"); at = multi(1); if how == 2 { let _ = a.srv.listen(sock(3)); } }
    a.run(&mut t); a.run(&mut t); s::check(a.node.listens() == vec![at.clone()], "a service listens once, at the address given or else the default one"); s::cover(if how == 0 { "default" } else { "given" }); a.node.asked();
    a.node.inject(Input::Received(2.into(), session(1, 60, 20, false), Bytes::from(vec![3u8]))); a.run(&mut t); let said: Vec<Bytes> = a.node.asked().into_iter().filter_map(|x| match x { Asked::Send { proto, data, .. } => if proto == 2.into() { Some(data) } else { None }, _ => None }).collect();
    let last = |m: &Multiaddr| match m.iter().next() { Some(Protocol::Ip4(ip)) => ip.octets()[3], _ => 255 }; s::check(said == vec![Bytes::from(vec![last(&at)])], "the address listened at is the one told to peers");
}
fn key_pair(k: u8) -> tentacle::secio::SecioKeyPair { tentacle::secio::SecioKeyPair::secp256k1_raw_key(&[0x40 + k; 32]).unwrap() }
/// trouble reported by the parts does not bring the service down
#[no_mangle] pub fn cn_trouble() {
    let mut t = Tasks(vec![]); let mut a = svc(config(8)); let x = a.on::<Msg>("/gossip/chain/new", None); a.run(&mut t); let m = msg(); let mut w = svc(config(9)); w.run(&mut t); w.sent(); s::check(s::block_on(w.h.broadcast(Context::new(), "/gossip/chain/new", m.clone(), Priority::High)).is_ok(), "a message is sent"); let good = w.sent()[0].2.clone();
    for i in 0..s::param("n", 2) {
        match s::pick("what", 5) {
            0 => { let n = s::pick("junk", 3); a.hear(&mut t, 1, 60, Bytes::from(s::bytes("junk", n).into_iter().map(|b| { s::assume(b < 64 || b >= 128); b }).collect::<Vec<u8>>())) }
            1 => a.hear(&mut t, 1, 60, good.slice(0, s::pick("cut", good.len() / 4) * 4)),
            2 => { a.node.inject(Input::Error(ServiceError::ProtocolHandleError { error: TErr::ServiceProtoHandleBlock, proto_id: 4.into() })); a.run(&mut t) }
            3 => { a.node.inject(Input::Error(ServiceError::SessionBlocked { session_context: session(1, 60, 20, true) })); a.run(&mut t) }
            _ => { futures_timer::sim::elapse(); a.run(&mut t) }
        }
        let n = what(&x).len(); s::check(n == i as usize, "what is not a message is not handled"); a.hear(&mut t, 2, 61, good.clone()); let w = what(&x); s::check(w.len() == n + 1 && w[n] == (61, None, m.clone()), "messages are still handled after trouble"); s::cover("handled");
    }
}

// ---- configuration
fn octets(v6: bool) -> Vec<u8> { s::bytes("ip", if v6 { 16 } else { 4 }) }
/// a socket address becomes the multi-address of the same host and port, whose host is read back
#[no_mangle] pub fn cn_addr() {
    let v6 = s::flag("v6"); let o = octets(v6); let port = s::u16("port"); let ip: IpAddr = if v6 { let mut b = [0u8; 16]; b.copy_from_slice(&o); b.into() } else { let mut b = [0u8; 4]; b.copy_from_slice(&o); b.into() };
    let m = s::nopanic("an address converts without a panic", || socket_to_multi_addr(SocketAddr::new(ip, port))); let c: Vec<Protocol> = m.iter().collect(); s::check(c.len() == 2, "an address has a host and a port");
    s::check(match (&c[0], ip) { (Protocol::Ip4(x), IpAddr::V4(y)) => *x == y, (Protocol::Ip6(x), IpAddr::V6(y)) => *x == y, _ => false }, "the host is kept"); s::check(match c[1] { Protocol::Tcp(p) => p == port, _ => false }, "the port is kept");
    let n = s::pick("more", 4); let m = match n { 0 => m, 1 => m.with(Protocol::Ws), 2 => { s::check(multi_addr_ip(&Multiaddr::empty().with(Protocol::Tcp(port)).with(Protocol::Tcp(port))).is_err(), "an address without a host has none"); s::check(multi_addr_ip(&Multiaddr::empty()).is_err(), "an empty address has no host"); m } _ => { let alone = Multiaddr::from(ip); s::check(multi_addr_ip(&alone).is_err(), "a host alone is no address"); m } };
    s::check(multi_addr_ip(&m).ok() == Some(ip), "the host is read back"); s::cover(if v6 { "v6" } else { "v4" });
}
/// the settings given are the settings used; keys are read or refused
#[no_mangle] pub fn cn_config() {
    let v: Vec<u64> = (0..7).map(|i| s::u64(&format!("v{}", i))).collect(); let c = s::concrete(NetworkConfig::new); let order = s::flag("other order");
    let c = if order { c.heart_beat_interval(v[5]).peer_manager_heart_beat_interval(v[4]).discovery_sync_interval(v[3]).ping_timeout(v[2]).ping_interval(v[1]).max_frame_length(v[6] as usize).max_connections(v[0] as usize) } else { c.max_connections(v[0] as usize).max_frame_length(v[6] as usize).ping_interval(v[1]).ping_timeout(v[2]).discovery_sync_interval(v[3]).peer_manager_heart_beat_interval(v[4]).heart_beat_interval(v[5]) };
    let d = Duration::from_secs; s::check(c.max_connections == v[0] as usize && c.max_frame_length == v[6] as usize && c.ping_interval == d(v[1]) && c.ping_timeout == d(v[2]) && c.discovery_sync_interval == d(v[3]) && c.peer_manager_heart_beat_interval == d(v[4]) && c.heart_beat_interval == d(v[5]), "a setting given is kept");
    // our key
    let (sk, good) = match s::pick("key", 6) { 0 => (hex::encode([0x45u8; 32]), true), 1 => (hex::encode([0x45u8; 31]), false), 2 => (hex::encode([0u8; 32]), false), 3 => ("zz".repeat(32), false), 4 => ("".to_owned(), false), _ => (hex::encode([0x45u8; 32])[..63].to_owned(), false) };
    let r = s::nopanic("a key is read or refused without a panic", || c.secio_keypair(sk)); s::check(r.is_ok() == good, "a key is read when it is one"); let c = match r { Ok(c) => c, Err(_) => { s::cover("key refused"); return } };
    // bootstraps
    let n = s::pick("bootstraps", 3); let mut ok = true; let mut want = vec![]; let list: Vec<(String, SocketAddr)> = (0..n).map(|i| { let k = s::pick("boot", 4); let text = [hex::encode(key(i)), "02zz".to_owned(), "020".to_owned(), format!("0x{}", hex::encode(key(i)))][k].clone(); ok &= k == 0; want.push((pubkey(i), Multiaddr::empty().with(Protocol::Ip4([10, 1, 1, i as u8].into())).with(Protocol::Tcp(77)))); (text, SocketAddr::new([10, 1, 1, i as u8].into(), 77)) }).collect();
    let path = s::flag("path"); let c = if path { c.persistence_path("/some/where") } else { c };
    let r = s::nopanic("bootstraps are read or refused without a panic", || c.bootstraps(list)); s::check(r.is_ok() == ok, "bootstraps are read when their keys are keys"); let c = match r { Ok(c) => c, Err(_) => { s::cover("bootstraps refused"); return } };
    let pc = PeerManagerConfig::from(&c); s::check(pc.our_id == key_pair(5).to_peer_id() && pc.pubkey == key_pair(5).to_public_key(), "a node is who its key says"); s::check(pc.max_connections == v[0] as usize && pc.routine_interval == d(v[4]), "the peer manager uses the settings given"); s::check(pc.persistence_path == std::path::PathBuf::from(if path { "/some/where/peers.dat" } else { "./peers.dat" }), "peers are kept where told");
    s::check(pc.bootstraps.len() == n && pc.bootstraps.iter().zip(want.iter()).all(|(b, w)| b.id() == &w.0.peer_id() && b.owned_addrs() == vec![w.1.clone()]), "each bootstrap has its key and its address"); s::cover("settings");
    // the service
    let c = c.max_frame_length(1 << 20).max_connections(9); let mut t = Tasks(vec![]); let mut a = svc(c); a.run(&mut t); let mut dials: Vec<u8> = a.node.asked().into_iter().filter_map(|x| match x { Asked::Dial { addr, .. } => match addr.iter().next() { Some(Protocol::Ip4(ip)) => Some(ip.octets()[3]), _ => Some(255) }, _ => None }).collect(); dials.sort(); s::check(dials == (0..n as u8).collect::<Vec<u8>>(), "a service dials each of its bootstraps when started"); if n > 0 { s::cover("dials") }
}
/// a service that is to keep its peers dials them when it starts again, one that is not does not
#[no_mangle] pub fn cn_kept() {
    let f = s::scratch("peers"); let _ = std::fs::remove_file(&f); let cfg = |keep: bool| { let mut c = config(8); c.persistence_path = f.clone().into(); c.enable_persistence = keep; c }; let dials = |a: &mut Svc| -> Vec<Multiaddr> { a.node.asked().into_iter().filter_map(|x| match x { Asked::Dial { addr, .. } => Some(addr), _ => None }).collect() };
    s::set_clock(1_600_000_000); let keep = s::flag("keeps"); let met = s::flag("met"); let mut t = Tasks(vec![]); let mut a = svc(cfg(keep)); a.run(&mut t); s::check(dials(&mut a).is_empty(), "an unknown peer is not dialled"); if met { a.meet(0, 60, true); a.meet(1, 61, false); a.run(&mut t); if s::flag("ended") { s::set_clock(1_600_000_100); a.node.inject(Input::Event(ServiceEvent::SessionClose { session_context: session(0, 60, 20, true) })); a.run(&mut t); } }
    s::nopanic("a service stops without a panic", || { drop(a); drop(t) }); s::set_clock(1_600_010_000); let again = s::flag("keeps again"); let mut t = Tasks(vec![]); let mut a = svc(cfg(again)); s::set_clock(1_600_010_010); a.run(&mut t); a.run(&mut t);
    let want = if keep && again && met { s::cover("dialled"); vec![addr(20)] } else { s::cover("nobody"); vec![] }; s::check(dials(&mut a) == want, "known peers are dialled after a restart, if they were kept"); drop(a); drop(t); let _ = std::fs::remove_file(&f);
}
struct Woken(std::sync::atomic::AtomicUsize);
impl futures::task::ArcWake for Woken { fn wake_by_ref(me: &Arc<Self>) { me.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }
/// a heart beats once each interval
#[no_mangle] pub fn cn_heart() {
    let w = Arc::new(futures::task::AtomicWaker::new()); let count = Arc::new(Woken(Default::default())); let int = Duration::from_secs(s::u64("interval")); let mut h = Box::pin(HeartBeat::new(w.clone(), int)); let mut beats = 0;
    for _ in 0..s::param("n", 4) { w.register(&futures::task::waker(count.clone())); if s::flag("elapses") { futures_timer::sim::elapse(); beats += 1; s::cover("beat"); } for _ in 0..1 + s::pick("polls", 2) { s::check(s::nopanic("a heart does not panic", || s::poll_once(h.as_mut())).is_pending(), "a heart goes on"); } s::check(count.0.load(std::sync::atomic::Ordering::SeqCst) == beats, "a heart beats once each interval"); }
    s::check(futures_timer::sim::armed().into_iter().all(|d| d == int), "a heart beats at its interval");
}
s::entries!(cn_keeper, cn_keeper_gone, cn_events, cn_send, cn_users_send, cn_protocols, cn_gossip, cn_call, cn_register, cn_listen, cn_trouble, cn_addr, cn_config, cn_kept, cn_heart);
