//! Network: the peer manager.
//@ deps: protocol bytes core_network tentacle futures runtime futures_timer
use bytes::Bytes;
use core_network::verif_hooks::*;
use futures::channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender};
use futures::channel::oneshot;
use protocol::traits::Priority;
use protocol::types::UserAddress;
use std::pin::Pin;
use std::task::Poll;
use std::time::Duration;
use symrt as s;
use tentacle::multiaddr::{Multiaddr, Protocol};
use tentacle::secio::{PeerId, PublicKey};
use tentacle::service::{SessionType, TargetSession};
use tentacle::SessionId;

fn key(p: usize) -> Vec<u8> { let mut b = vec![0x40 + p as u8; 33]; b[0] = 2; b }
fn pubkey(p: usize) -> PublicKey { PublicKey::Secp256k1(key(p)) }
fn pid(p: usize) -> PeerId { s::concrete(|| pubkey(p).peer_id()) }
fn user(p: usize) -> UserAddress { s::concrete(|| UserAddress::from_pubkey_bytes(Bytes::from(key(p))).unwrap()) }
fn addr(n: usize) -> Multiaddr { Multiaddr::empty().with(Protocol::Ip4([10, 0, 0, n as u8].into())).with(Protocol::Tcp(1000)) }
const ME: usize = 9;
const T0: u64 = 1_600_000_000;

/// what the peer manager asks of the connections in one round
#[derive(Default, Debug)] struct Asked { dial: Vec<Multiaddr>, close: Vec<SessionId>, send: Vec<(Vec<SessionId>, Bytes)> }
struct Mgr { m: Pin<Box<PeerManager>>, tx: UnboundedSender<PeerManagerEvent>, rx: UnboundedReceiver<ConnectionEvent>, now: u64 }
impl Mgr {
    /// peers 0.. of `boot` are bootstrap peers, at address 10+p
    fn new(boot: usize, max: usize) -> Mgr { Mgr::kept(boot, max, None, T0) }
    /// what is known is kept in a file
    fn kept(boot: usize, max: usize, file: Option<&str>, now: u64) -> Mgr {
        s::set_clock(now); let (tx, erx) = unbounded(); let (ctx, rx) = unbounded();
        let config = PeerManagerConfig { our_id: pid(ME), pubkey: pubkey(ME), bootstraps: (0..boot).map(|p| Peer::from_pair((pubkey(p), addr(10 + p)))).collect(), max_connections: max, routine_interval: Duration::from_secs(10), persistence_path: file.unwrap_or("/nodir/none").into() };
        let mut m = PeerManager::new(config, erx, ctx); m.set_listen(addr(200)); if file.is_some() { m.enable_persistence() } Mgr { m: Box::pin(m), tx, rx, now }
    }
    fn at(&mut self, t: u64) { self.now = t; s::set_clock(t) }
    /// one round
    fn round(&mut self) -> Asked {
        s::nopanic("the peer manager does not panic", || s::check(s::poll_once(self.m.as_mut()) == Poll::Pending, "the peer manager keeps running")); runtime::sim::take();
        let mut a = Asked::default();
        while let Ok(Some(e)) = self.rx.try_next() { match e { ConnectionEvent::Connect { addrs, .. } => a.dial.extend(addrs), ConnectionEvent::Disconnect(x) => a.close.push(x), ConnectionEvent::SendMsg { tar: TargetSession::Multi(x), msg, .. } => a.send.push((x, msg)), ConnectionEvent::SendMsg { .. } => s::check(false, "a message for users goes to their sessions only") } }
        a
    }
    fn event(&mut self, e: PeerManagerEvent) -> Asked { self.tx.unbounded_send(e).unwrap(); self.round() }
    fn attach(&mut self, p: usize, sid: usize, a: Multiaddr, out: bool) -> Asked { self.event(PeerManagerEvent::AttachPeerSession { pubkey: pubkey(p), session: Session { sid: sid.into(), addr: a, ty: if out { SessionType::Outbound } else { SessionType::Inbound } } }) }
    fn detach(&mut self, p: usize, sid: usize) -> Asked { self.event(PeerManagerEvent::DetachPeerSession { pid: pid(p), sid: sid.into(), ty: SessionType::Inbound }) }
    fn fail(&mut self, a: Multiaddr) -> Asked { self.event(PeerManagerEvent::ReconnectLater { addr: a, kind: RetryKind::TimedOut }) }
    fn dead(&mut self, a: Multiaddr) -> Asked { self.event(PeerManagerEvent::UnconnectableAddress { addr: a.clone(), kind: RemoveKind::UnknownProtocol("x".into()) }) }
    /// a message for users: sessions it goes to, users missed, addresses dialled
    fn route(&mut self, to: &[UserAddress]) -> (Vec<SessionId>, Vec<UserAddress>, Vec<Multiaddr>) {
        let (miss_tx, mut miss) = oneshot::channel(); let msg = Bytes::from(vec![1, 2]);
        let a = self.event(PeerManagerEvent::RouteMultiUsersMessage { users_msg: MultiUsersMessage { user_addrs: to.to_vec(), msg: msg.clone(), pri: Priority::High }, miss_tx });
        let m = match s::poll_once(Pin::new(&mut miss)) { Poll::Ready(Ok(m)) => m, _ => { s::check(false, "a message for users is reported on"); vec![] } };
        s::check(a.send.len() == 1 && a.send[0].1 == msg, "a message for users is sent once"); (a.send[0].0.clone(), m, a.dial)
    }
}
fn kind() -> RemoveKind { RemoveKind::UnknownProtocol("x".into()) }
fn same_set<T: PartialEq>(a: &[T], b: &[T]) -> bool { a.len() == b.len() && a.iter().all(|x| b.contains(x)) && b.iter().all(|x| a.contains(x)) }

/// messages for users go to the sessions of those connected, the others are reported
#[no_mangle] pub fn pm_route() {
    let boot = s::pick("boot", 2); let mut m = Mgr::new(boot, 0); if boot == 1 { m.m.bootstrap(); m.round(); }
    // session of a peer, as the manager should have it; the session really open; whether the peer is known
    let mut ses: [Option<usize>; 2] = [None; 2]; let mut open: [Option<usize>; 2] = [None; 2]; let mut known = [boot == 1, false]; let mut next = 1; let mut has_addr = [boot == 1, false];
    for _ in 0..s::param("ops", 3) {
        m.at(m.now + 10); let p = s::pick("peer", 2);
        let a = match s::pick("op", 7) {
            0 => { if open[p].is_some() { s::end() } let out = s::flag("out"); let sid = next; next += 1; open[p] = Some(sid); ses[p] = Some(sid); known[p] = true; if out { has_addr[p] = true } m.attach(p, sid, addr(10 + p), out) }
            1 => { let sid = match open[p] { Some(x) => x, None => s::end() }; open[p] = None; ses[p] = None; s::cover("closed"); m.detach(p, sid) }
            2 => { ses[p] = None; let keep = p < boot; if !keep { known[p] = false; has_addr[p] = false } m.event(PeerManagerEvent::RemovePeer { pid: pid(p), kind: kind() }) }
            3 => { let sid = match open[p] { Some(x) => x, None => s::end() }; if ses[p] == Some(sid) { ses[p] = None; if p >= boot { known[p] = false; has_addr[p] = false } s::cover("removed by session") } m.event(PeerManagerEvent::RemovePeerBySession { sid: sid.into(), kind: kind() }) }
            4 => { let a = m.event(PeerManagerEvent::RetryPeerLater { pid: pid(p), kind: RetryKind::TimedOut }); s::check(a.close.iter().map(|x| x.value()).collect::<Vec<_>>() == ses[p].into_iter().collect::<Vec<_>>(), "a peer to be retried later is disconnected"); if ses[p].is_some() { s::cover("disconnected") } Asked { close: vec![], ..a } }
            5 => m.event(PeerManagerEvent::PeerAlive { pid: pid(p) }),
            _ => { if known[p] { has_addr[p] = true } m.event(PeerManagerEvent::IdentifiedAddrs { pid: pid(p), addrs: vec![addr(10 + p)] }) }
        };
        s::check(a.close.is_empty() && a.send.is_empty(), "nobody is disconnected without a reason");
        let all = [0, 1, 5]; let who: Vec<usize> = match s::pick("to", 3) { 0 => all.to_vec(), 1 => vec![1, 0], _ => vec![p] }; let to: Vec<UserAddress> = who.iter().map(|x| user(*x)).collect();
        let (sids, miss, dial) = m.route(&to);
        let want: Vec<usize> = who.iter().filter_map(|x| if *x < 2 { ses[*x] } else { None }).collect(); s::check(same_set(&sids.iter().map(|x| x.value()).collect::<Vec<_>>(), &want), "a message for users goes to the sessions of those connected"); if !want.is_empty() { s::cover("sent") }
        let lost: Vec<UserAddress> = who.iter().filter(|x| **x >= 2 || ses[**x].is_none()).map(|x| user(*x)).collect(); s::check(same_set(&miss, &lost), "users without a session are reported"); if !lost.is_empty() { s::cover("missed") }
        let call: Vec<Multiaddr> = who.iter().filter(|x| **x < 2 && ses[**x].is_none() && known[**x] && has_addr[**x]).map(|x| addr(10 + *x)).collect(); s::check(same_set(&dial, &call), "known users without a session are dialled"); if !call.is_empty() { s::cover("dialled") }
    }
}
/// a peer that cannot be reached is tried again, later and later, and given up
#[no_mangle] pub fn pm_retry() {
    let boot = s::pick("boot", 2); let mut m = Mgr::new(boot, 3); let a = addr(10);
    let first = if boot == 1 { m.m.bootstrap(); let d = m.round().dial; s::cover("bootstrap"); d } else { m.attach(0, 1, a.clone(), true); m.at(T0 + 100); m.detach(0, 1).dial };
    s::check(first == vec![a.clone()], "a known peer without a session is dialled"); let fails = s::param("fails", 6);
    for k in 1..=fails {
        s::check(m.round().dial.is_empty(), "a peer being dialled is not dialled again"); let t = m.now; let d = m.fail(a.clone()).dial; s::check(d.is_empty(), "an unreachable peer is not dialled again at once");
        let wait = u64::from(s::u16("wait")); let back = 5u64.pow(k as u32); m.at(t + wait); let d = m.round().dial;
        if k == 6 && boot == 0 { m.at(t + 1_000_000); s::check(d.is_empty() && m.round().dial.is_empty(), "an unreachable peer is given up after six failures"); let (_, miss, dial) = m.route(&[user(0)]); s::check(miss == vec![user(0)] && dial.is_empty(), "a peer given up is not known"); s::cover("given up"); return; }
        if wait < back { s::check(d.is_empty(), "an unreachable peer is tried again no sooner than 5^n seconds"); s::cover("too early"); m.at(t + back + 1); s::check(m.round().dial == vec![a.clone()], "an unreachable peer is tried again after 5^n seconds"); } else if wait > back { s::check(d == vec![a.clone()], "an unreachable peer is tried again after 5^n seconds"); s::cover("in time"); } else { s::end() }
        if k == 2 && s::flag("connects") { m.attach(0, 7, a.clone(), true); s::check(m.event(PeerManagerEvent::PeerAlive { pid: pid(0) }).dial.is_empty(), "a connected peer is not dialled"); let (sids, ..) = m.route(&[user(0)]); s::check(sids.len() == 1 && sids[0].value() == 7, "a message for users goes to the sessions of those connected"); s::cover("connected");
            let t = m.now + 100; m.at(t); s::check(m.detach(0, 7).dial == vec![a.clone()], "a peer whose connection lasted is dialled again"); m.at(t + 100); s::check(m.fail(a.clone()).dial.is_empty(), "an unreachable peer is not dialled again at once"); m.at(t + 106); s::check(m.round().dial == vec![a.clone()], "a peer heard of is tried as if for the first time"); return; }
    }
    if boot == 1 { for _ in 0..3 { m.at(m.now + 100); let d = m.fail(a.clone()).dial; s::check(d.is_empty(), "an unreachable peer is not dialled again at once"); m.at(m.now + 16_000); s::check(m.round().dial == vec![a.clone()], "a bootstrap peer is tried for ever"); s::cover("for ever"); } }
}
/// no more peers are dialled in a round than connections are free, and as many as can be
#[no_mangle] pub fn pm_slots() {
    let max = s::pick("max", 4); let mut m = Mgr::new(0, max); const N: usize = 3; let mut st = [0u8; N]; /* 0 unknown, 1 connected, 2 idle, 3 being dialled, 4 waiting */ let mut has = [false; N];
    for p in 0..N { if s::flag("known") { m.attach(p, 1 + p, addr(10 + p), true); st[p] = 1; has[p] = true } } m.at(T0 + 100);
    for i in 0..s::param("ops", 3) {
        m.at(m.now + 1_000_000); for x in st.iter_mut() { if *x == 4 { *x = 2 } }
        let p = s::pick("peer", N); let a = match s::pick("op", 4) {
            0 => { if st[p] != 1 { s::end() } st[p] = 2; m.event(PeerManagerEvent::DetachPeerSession { pid: pid(p), sid: 0.into(), ty: SessionType::Outbound }) }
            1 => { if st[p] != 3 { s::end() } st[p] = 1; s::cover("connects"); has[p] = true; m.attach(p, 10 + 10 * p + i as usize, addr(10 + p), true) }
            2 => { if st[p] != 3 { s::end() } st[p] = 4; s::cover("fails"); m.fail(addr(10 + p)) }
            _ => { if st[p] == 1 || st[p] == 3 { s::end() } st[p] = 1; s::cover("comes in"); m.attach(p, 10 + 10 * p + i as usize, addr(100 + p), false) }
        };
        let busy = st.iter().filter(|x| **x == 1 || **x == 3).count(); let free = if max > busy { max - busy } else { 0 };
        let who: Vec<usize> = a.dial.iter().map(|x| match (0..N).find(|p| addr(10 + p) == *x) { Some(p) => p, None => { s::check(false, "only known addresses are dialled"); 0 } }).collect();
        s::check(who.iter().all(|p| st[*p] == 2), "only peers without a connection are dialled, once"); s::check((1..who.len()).all(|i| !who[..i].contains(&who[i])), "a peer is dialled once"); s::check(who.len() <= free, "no more peers are dialled than connections are free"); if free > 0 && who.len() == free { s::cover("filled") }
        // a peer met through an incoming connection has no address to dial
        let idle = (0..N).filter(|p| st[*p] == 2 && has[*p]).count(); s::check(who.iter().all(|p| has[*p]), "only known addresses are dialled"); if idle <= free { s::check(who.len() == idle, "peers are dialled while connections are free") } for p in who { st[p] = 3; s::cover("dialled") }
    }
}
/// addresses heard of are dialled, tried again and given up, or adopted
#[no_mangle] pub fn pm_unknown() {
    #[derive(Clone, Copy, PartialEq, Debug)] enum St { None, Waiting(u64), Dialling(u64), Peer }
    let max = 1 + s::pick("max", 2); let mut m = Mgr::new(0, max); const N: usize = 2; let mut st = [St::None; N]; let ad = |x: usize| addr(30 + x);
    for i in 0..s::param("ops", 3) {
        let x = s::pick("addr", N); let hear = |y: St| if y == St::None { St::Waiting(0) } else { y };
        let a = match s::pick("op", 5) {
            0 => { st[x] = hear(st[x]); s::cover("heard of"); m.event(PeerManagerEvent::DiscoverAddr { addr: ad(x) }) }
            1 => { for y in st.iter_mut() { *y = hear(*y) } m.event(PeerManagerEvent::DiscoverMultiAddrs { addrs: vec![ad(x), ad(1 - x)] }) }
            2 => { let n = match st[x] { St::Dialling(n) => n, _ => s::end() }; st[x] = St::Waiting(n + 1); s::cover("fails"); m.fail(ad(x)) }
            3 => { match st[x] { St::Dialling(_) => (), _ => s::end() } st[x] = St::None; s::cover("unconnectable"); m.dead(ad(x)) }
            _ => { match st[x] { St::Dialling(_) => (), _ => s::end() } st[x] = St::Peer; s::cover("connects"); m.attach(x, 1 + i as usize, ad(x), true) }
        };
        let busy = st.iter().filter(|y| **y == St::Peer).count(); let free = if max > busy { max - busy } else { 0 };
        let who: Vec<usize> = a.dial.iter().map(|y| match (0..N).find(|p| ad(*p) == *y) { Some(p) => p, None => { s::check(false, "only known addresses are dialled"); 0 } }).collect();
        for p in &who { st[*p] = match st[*p] { St::Waiting(n) => St::Dialling(n), _ => { s::check(false, "an address heard of is dialled once"); St::None } }; s::cover("dialled") }
        let wait = st.iter().filter(|y| match y { St::Waiting(_) => true, _ => false }).count(); s::check(who.len() <= free && (wait == 0 || who.len() == free), "addresses heard of are dialled while connections are free");
    }
    let (sids, ..) = m.route(&[user(0), user(1)]); s::check(sids.len() == st.iter().filter(|y| **y == St::Peer).count(), "a message for users goes to the sessions of those connected");
}
/// an address heard of that cannot be reached is tried six times
#[no_mangle] pub fn pm_unknown_retry() {
    let mut m = Mgr::new(0, 2); let a = addr(30); let d = m.event(PeerManagerEvent::DiscoverAddr { addr: a.clone() }).dial; s::check(d == vec![a.clone()], "an address heard of is dialled");
    for k in 1..=6 {
        if s::flag("again") { let d = m.event(PeerManagerEvent::DiscoverAddr { addr: a.clone() }).dial; s::check(d.is_empty(), "an address heard of is dialled once") }
        m.at(m.now + 100); let d = m.fail(a.clone()).dial; m.at(m.now + 100_000); let e = m.round().dial;
        if k < 6 { s::check(d.len() + e.len() == 1 && d.iter().chain(e.iter()).all(|x| *x == a), "an address heard of is tried again") } else { s::check(d.is_empty() && e.is_empty(), "an address heard of is given up after six failures"); s::cover("given up") }
    }
}
fn part(i: usize) -> Protocol<'static> {
    let p2p = |p: usize| { let p = pid(p); s::concrete(|| Protocol::P2p(tentacle::multiaddr::multihash::Multihash::from_bytes(p.as_bytes().to_vec()).unwrap())) };
    let k = if s::param("wide", 0) == 1 { s::pick("part", 9) } else { match i { 0 => [0, 1, 2, 7][s::pick("part", 4)], 1 => [3, 4, 7][s::pick("part", 3)], _ => [5, 7, 8][s::pick("part", 3)] } };
    match k { 0 => Protocol::Ip4([10, 0, 0, 10].into()), 1 => Protocol::Ip4([10, 0, 0, 50].into()), 2 => Protocol::Dns4("x".into()), 3 => Protocol::Tcp(1000), 4 => Protocol::Udp(7), 5 => Protocol::Ws, 6 => Protocol::Ip6([0, 0, 0, 0, 0, 0, 0, 1].into()), 7 => p2p(0), _ => p2p(2) }
}
/// whatever peers announce, the manager keeps running and keeps its connections
#[no_mangle] pub fn pm_hostile() {
    let mut m = Mgr::new(0, 2); let out = s::flag("out"); m.attach(0, 1, addr(10), out); let mut heard = if out { vec![addr(10)] } else { vec![] };
    for _ in 0..s::param("ops", 1) {
        m.at(m.now + 10); let n = s::pick("parts", 5); let mut x = Multiaddr::empty(); if n == 4 { x = addr(10) } else { for i in 0..n { x = x.with(part(i)) } }
        let mut adds = true; let who = s::pick("who", 2) * 2; let unknown = 5 + s::pick("session", 2);
        let a = match s::pick("op", 8) {
            0 => { s::cover("discovered"); m.event(PeerManagerEvent::DiscoverAddr { addr: x.clone() }) }
            1 => m.event(PeerManagerEvent::DiscoverMultiAddrs { addrs: vec![x.clone(), x.clone()] }),
            2 => { s::cover("identified"); m.event(PeerManagerEvent::IdentifiedAddrs { pid: pid(who), addrs: vec![x.clone()] }) }
            3 => { s::cover("repeated"); m.event(PeerManagerEvent::RepeatedConnection { ty: if s::flag("dialer") { ConnectionType::Dialer } else { ConnectionType::Listen }, sid: [1, unknown][s::pick("which", 2)].into(), addr: x.clone() }) }
            4 => { adds = false; m.event(PeerManagerEvent::RemovePeerBySession { sid: unknown.into(), kind: kind() }) }
            5 => { adds = false; m.fail(x.clone()) }
            6 => { adds = false; m.dead(x.clone()) }
            _ => { adds = false; match s::pick("unknown", 4) { 0 => m.detach(2, unknown), 1 => m.event(PeerManagerEvent::PeerAlive { pid: pid(2) }), 2 => m.event(PeerManagerEvent::RetryPeerLater { pid: pid(2), kind: RetryKind::TimedOut }), _ => m.event(PeerManagerEvent::RemovePeer { pid: pid(2), kind: kind() }) } }
        };
        if adds { heard.push(x) }
        s::check(a.close.is_empty() && a.send.is_empty() && a.dial.iter().all(|d| heard.contains(d)), "announcements make the manager dial announced addresses only");
        let (sids, miss, _) = m.route(&[user(0), user(2)]); s::check(sids.len() == 1 && sids[0].value() == 1 && miss == vec![user(2)], "announcements leave connections as they are");
    }
}
fn with_id(a: Multiaddr, p: usize) -> Multiaddr { let p = pid(p); a.with(s::concrete(|| Protocol::P2p(tentacle::multiaddr::multihash::Multihash::from_bytes(p.as_bytes().to_vec()).unwrap()))) }
/// a connection that did not last is not tried again at once
#[no_mangle] pub fn pm_short() {
    let mut m = Mgr::new(0, 3); m.attach(0, 1, addr(10), true); let d = u64::from(s::u8("lasted")); m.at(T0 + 1 + d); let how = s::flag("identified"); if how { m.at(T0); m.event(PeerManagerEvent::IdentifiedAddrs { pid: pid(0), addrs: vec![addr(10)] }); m.at(T0 + 1 + d); }
    let a = m.detach(0, 1).dial; if d < 2 { s::check(a.is_empty(), "a peer whose connection did not last is not dialled at once"); m.at(T0 + 1 + d + 6); s::check(m.round().dial == vec![addr(10)], "a peer whose connection did not last is dialled later"); s::cover("short") } else { s::check(a == vec![addr(10)], "a peer whose connection lasted is dialled again"); s::cover("lasted") }
}
/// a peer removed is forgotten with all its addresses; a bootstrap peer never
#[no_mangle] pub fn pm_forget() {
    let boot = s::pick("boot", 3); let mut m = Mgr::new(boot, 3); if boot > 0 { m.m.bootstrap(); m.round(); } let p = if boot > 0 { s::pick("peer", boot) } else { 0 }; m.attach(p, 1, addr(10 + p), true); m.event(PeerManagerEvent::IdentifiedAddrs { pid: pid(p), addrs: vec![addr(20), addr(21)] }); m.at(T0 + 100);
    let a = match s::pick("how", 2) { 0 => m.event(PeerManagerEvent::RemovePeer { pid: pid(p), kind: kind() }), _ => m.event(PeerManagerEvent::RemovePeerBySession { sid: 1.into(), kind: kind() }) };
    let all = [addr(10 + p), addr(20), addr(21)]; let (sids, miss, dial) = m.route(&[user(p)]); s::check(sids.is_empty() && miss == vec![user(p)], "a peer removed is not sent to");
    if boot > 0 { let d = if dial.is_empty() { a.dial } else { dial }; s::check(same_set(&d, &all), "a bootstrap peer stays known"); s::cover("bootstrap"); return; }
    s::check(a.dial.is_empty() && dial.is_empty(), "a peer removed is forgotten"); let x = all[s::pick("heard", 3)].clone(); s::check(m.event(PeerManagerEvent::DiscoverAddr { addr: x.clone() }).dial == vec![x], "an address of a peer removed, heard of again, is new"); s::cover("forgotten");
}
/// what is said of a session that is over does not concern its successor
#[no_mangle] pub fn pm_stale() {
    let mut m = Mgr::new(0, 0); m.attach(0, 1, addr(10), true); m.at(T0 + 100); match s::pick("ended", 3) { 0 => { m.detach(0, 1); } 1 => { m.event(PeerManagerEvent::RemovePeer { pid: pid(0), kind: kind() }); } _ => { m.event(PeerManagerEvent::RemovePeerBySession { sid: 1.into(), kind: kind() }); } }
    let other = s::flag("other peer"); let p = if other { 1 } else { 0 }; m.at(T0 + 200); m.attach(p, 2, addr(10 + p), true); m.at(T0 + 300); let a = match s::pick("said", 2) { 0 => m.event(PeerManagerEvent::RemovePeerBySession { sid: 1.into(), kind: kind() }), _ => m.event(PeerManagerEvent::RepeatedConnection { ty: ConnectionType::Dialer, sid: 1.into(), addr: addr(77) }) };
    s::check(a.close.is_empty() && a.dial.is_empty(), "a session that is over concerns nobody"); let (sids, miss, _) = m.route(&[user(p)]); s::check(sids.len() == 1 && sids[0].value() == 2 && miss.is_empty(), "a session that is over does not concern its successor"); s::cover("stale");
    m.at(T0 + 400); m.detach(p, 2); let (_, _, d) = m.route(&[user(p)]); s::check(!d.contains(&addr(77)), "an address said of a session that is over is nobody's");
}
/// whose an address heard of is
#[no_mangle] pub fn pm_match() {
    let mut m = Mgr::new(0, 3); m.attach(0, 1, addr(10), true); let up = s::flag("connected"); m.at(T0 + 1); if !up { s::check(m.detach(0, 1).dial.is_empty(), "a peer whose connection did not last is not dialled at once") }
    let k = s::pick("heard", 4); let x = match k { 0 => addr(10), 1 => with_id(addr(10), 0), 2 => with_id(addr(10), 2), _ => with_id(addr(30), 0) }; let a = if s::flag("alone") { m.event(PeerManagerEvent::DiscoverAddr { addr: x.clone() }) } else { m.event(PeerManagerEvent::DiscoverMultiAddrs { addrs: vec![x.clone()] }) };
    if k >= 2 { s::check(a.dial == vec![x.clone()], "an address heard of, not known as a peer's, is dialled"); s::cover("another's") } else { s::check(a.dial.is_empty(), "an address heard of, of a known peer, is not dialled for itself"); s::cover("known") }
    m.at(T0 + 100); let d = if up { m.detach(0, 1).dial } else { m.round().dial }; let mut want = vec![addr(10)]; if up && k == 1 { want.push(x) } s::check(same_set(&d, &want), "a peer is dialled at its own addresses");
}
/// who else dialled whom: an address that connected is kept, a caller's is not
#[no_mangle] pub fn pm_repeated() {
    let mut m = Mgr::new(0, 3); let out = s::flag("out"); m.attach(0, 1, addr(10), out); m.at(T0 + 100); let dialer = s::flag("dialer"); let heard = s::flag("heard before"); if heard { let d = m.event(PeerManagerEvent::DiscoverAddr { addr: addr(77) }).dial; s::check(d == vec![addr(77)], "an address heard of is dialled") }
    let a = m.event(PeerManagerEvent::RepeatedConnection { ty: if dialer { ConnectionType::Dialer } else { ConnectionType::Listen }, sid: 1.into(), addr: addr(77) }); s::check(a.dial.is_empty() && a.close.is_empty(), "a repeated connection is left at that"); m.at(T0 + 200); let d = m.detach(0, 1).dial; let mut want = vec![]; if out { want.push(addr(10)) } if dialer { want.push(addr(77)); s::cover("dialler") } else { s::cover("caller") } s::check(same_set(&d, &want), "a peer is dialled at the addresses it was reached at");
}
/// failing to reach a connected peer at another address leaves its connection alone
#[no_mangle] pub fn pm_connected() {
    let mut m = Mgr::new(0, 3); m.attach(0, 1, addr(10), true); m.event(PeerManagerEvent::IdentifiedAddrs { pid: pid(0), addrs: vec![addr(11)] }); let which = 10 + s::pick("which", 2);
    for _ in 0..7 { m.at(m.now + 100); let a = m.fail(addr(which)); s::check(a.dial.is_empty() && a.close.is_empty(), "a connected peer is not dialled"); let (sids, miss, _) = m.route(&[user(0)]); s::check(sids.len() == 1 && miss.is_empty(), "a connected peer stays connected"); }
    m.at(m.now + 100); s::check(same_set(&m.detach(0, 1).dial, &[addr(10), addr(11)]), "a peer whose connection lasted is dialled again"); s::cover("left alone");
}
/// known peers and addresses heard of together take no more than the free connections
#[no_mangle] pub fn pm_mixed() {
    let max = s::pick("max", 5); let mut m = Mgr::new(0, max); let k = s::pick("known", 3); let j = s::pick("heard", 4); for p in 0..k { m.attach(p, 1 + p, addr(10 + p), true); } m.at(T0 + 100);
    for p in 0..k { m.tx.unbounded_send(PeerManagerEvent::DetachPeerSession { pid: pid(p), sid: (1 + p).into(), ty: SessionType::Outbound }).unwrap() } m.tx.unbounded_send(PeerManagerEvent::DiscoverMultiAddrs { addrs: (0..j).map(|x| addr(30 + x)).collect() }).unwrap(); let d = m.round().dial;
    s::check(d.len() == std::cmp::min(max, k + j), "as many are dialled as connections are free"); s::check((0..d.len()).all(|i| !d[..i].contains(&d[i]) && ((0..k).any(|p| d[i] == addr(10 + p)) || (0..j).any(|x| d[i] == addr(30 + x)))), "each is dialled once"); if d.len() == max && max < k + j { s::cover("filled") } else { s::cover("room") }
}
fn scratch() -> String { let f = s::scratch("peers"); let _ = std::fs::remove_file(&f); f }
/// what is known of peers when a node stops is known when it starts again
#[no_mangle] pub fn pm_saved() {
    let f = scratch(); let boot = s::pick("boot", 2); let mut m = Mgr::kept(boot, 5, Some(&f), T0); s::check(m.m.load_peers().is_err(), "a missing file is reported"); if boot == 1 { m.m.bootstrap(); m.round(); }
    let mut known: [Vec<Multiaddr>; 2] = [vec![], vec![]]; if boot == 1 { known[0].push(addr(10)) }
    for p in 0..2 {
        let k = s::pick("met", 4); if k == 0 { continue } m.attach(p, 1 + p, addr(10 + p), k != 1); if k != 1 && !known[p].contains(&addr(10 + p)) { known[p].push(addr(10 + p)) } if s::flag("identified") { m.event(PeerManagerEvent::IdentifiedAddrs { pid: pid(p), addrs: vec![addr(20 + p)] }); known[p].push(addr(20 + p)) }
        if k == 2 { m.at(m.now + 100); m.detach(p, 1 + p); s::cover("gone") }
    }
    drop(m); let later = u64::from(s::u8("later")); let mut m = Mgr::kept(boot, 5, Some(&f), T0 + 1000 + later); s::check(m.m.load_peers().is_ok(), "what was saved can be loaded"); if boot == 1 { m.m.bootstrap() }
    m.at(m.now + 10); let d = m.round().dial; let own: Vec<Multiaddr> = if boot == 1 { vec![addr(10)] } else { known[0].clone() }; let want: Vec<Multiaddr> = own.iter().chain(known[1].iter()).cloned().collect(); s::check(same_set(&d, &want), "known peers are dialled after a restart"); if !want.is_empty() { s::cover("dialled") }
    if boot == 1 { m.at(m.now + 100); m.fail(addr(10)); m.at(m.now + 100_000); let d = m.round().dial; s::check(same_set(&d, &known[0]), "a bootstrap peer keeps the addresses learned"); if known[0].len() > 1 { s::cover("bootstrap") } }
    let x = known[1].first().cloned(); if let Some(x) = x { s::check(m.event(PeerManagerEvent::DiscoverAddr { addr: x }).dial.is_empty(), "an address of a known peer is not dialled for itself"); s::cover("heard of") }
    let (sids, miss, _) = m.route(&[user(1)]); s::check(sids.is_empty() && miss == vec![user(1)], "nobody is connected after a restart"); m.attach(1, 7, addr(11), true); let (sids, miss, _) = m.route(&[user(1)]); s::check(sids.len() == 1 && miss.is_empty(), "a message for users goes to the sessions of those connected");
    drop(m); let _ = std::fs::remove_file(&f);
}
/// a damaged file is refused, or what can be read of it is used; the node starts
#[no_mangle] pub fn pm_damaged() {
    use std::io::{Read, Write};
    let f = scratch(); let mut m = Mgr::kept(0, 5, Some(&f), T0); m.attach(0, 1, addr(10), true); m.at(T0 + 100); m.detach(0, 1); drop(m);
    let mut b = vec![]; std::fs::File::open(&f).unwrap().read_to_end(&mut b).unwrap(); let k = key(0); let at = (0..b.len()).find(|i| b[*i..].starts_with(&k)).unwrap_or(0); let step = s::param("step", 4) as usize; let mut cut = false;
    let whole = b.len(); let how = s::param("how", 9); match if how < 9 { how as usize } else { s::pick("damage", 4) } {
        0 => { let n = step * s::pick("kept", (whole + step - 1) / step); b.truncate(n); cut = true; s::cover("cut") }
        1 => { let i = std::cmp::min(at.saturating_sub(16) + step * s::pick("where", 120 / step), whole - 1); b[i] = if i >= at && i < at + k.len() { b[i] ^ 1 } else { s::u8("byte") }; s::cover("overwritten") }
        2 => { b = s::bytes_upto("junk", 0, s::param("junk", 10) as usize); if b.len() >= 8 { let n = (0..8).fold(0, |x, i| x | u64::from(b[i]) << (8 * i as u32)); s::assume(s::or(n < 3, n > 5000)) } }
        _ => { b.push(s::u8("more")) }
    }
    std::fs::File::create(&f).unwrap().write_all(&b).unwrap();
    let mut m = Mgr::kept(0, 5, Some(&f), T0 + 1000); let r = s::nopanic("a damaged file does not stop a node", || m.m.load_peers()); if cut { s::check(r.is_err(), "a cut file is refused") }
    m.at(m.now + 10); let d = m.round().dial; if r.is_err() { s::check(d.is_empty(), "nothing is taken from a file refused"); s::cover("refused") }
    m.attach(1, 7, addr(11), true); let (sids, miss, _) = m.route(&[user(1)]); s::check(sids.len() == 1 && miss.is_empty(), "a message for users goes to the sessions of those connected");
    m.at(m.now + 100); m.detach(1, 7); drop(m); let mut m = Mgr::kept(0, 5, Some(&f), T0 + 9000); s::check(m.m.load_peers().is_ok(), "what was saved can be loaded"); m.at(m.now + 10); s::check(m.round().dial.contains(&addr(11)), "known peers are dialled after a restart");
    drop(m); let _ = std::fs::remove_file(&f);
}
/// a disk that cannot be written or read stops nothing
#[no_mangle] pub fn pm_nodisk() {
    let boot = s::pick("boot", 2); let mut m = Mgr::kept(boot, 5, Some("/nodir/peers"), T0); s::check(s::nopanic("a failing disk does not stop a node", || m.m.load_peers()).is_err(), "a missing file is reported"); if boot == 1 { m.m.bootstrap(); s::cover("bootstrap") }
    let d = m.round().dial; s::check(d.len() == boot, "bootstrap peers are dialled"); m.attach(1, 7, addr(11), true); let (sids, miss, _) = m.route(&[user(1)]); s::check(sids.len() == 1 && miss.is_empty(), "a message for users goes to the sessions of those connected"); s::nopanic("a failing disk does not stop a node", || drop(m));
}
s::entries!(pm_saved, pm_damaged, pm_nodisk, pm_route, pm_retry, pm_slots, pm_unknown, pm_unknown_retry, pm_hostile, pm_short, pm_forget, pm_stale, pm_match, pm_repeated, pm_connected, pm_mixed);
