//! Stand-in for `tentacle-discovery`: what is received says what the protocol does with the address manager.
//@ deps: p2p=@tentacle
use p2p::{bytes::Bytes, context::{ProtocolContext, ProtocolContextMutRef}, multiaddr::{Multiaddr, Protocol}, traits::ServiceProtocol, SessionId};
use std::time::Duration;
#[derive(Clone, Debug, PartialEq, Eq, Hash)] pub enum Misbehavior { DuplicateGetNodes, DuplicateFirstNodes, TooManyItems { announce: bool, length: usize }, TooManyAddresses(usize) }
pub enum MisbehaveResult { Continue, Disconnect }
impl MisbehaveResult { pub fn is_continue(&self) -> bool { match self { MisbehaveResult::Continue => true, _ => false } } pub fn is_disconnect(&self) -> bool { !self.is_continue() } }
pub trait AddressManager {
    fn add_new_addr(&mut self, session_id: SessionId, addr: Multiaddr);
    fn add_new_addrs(&mut self, session_id: SessionId, addrs: Vec<Multiaddr>);
    fn misbehave(&mut self, session_id: SessionId, kind: Misbehavior) -> MisbehaveResult;
    fn get_random(&mut self, n: usize) -> Vec<Multiaddr>;
}
pub struct Discovery<M> { addr_mgr: M, pub cycle: Option<Duration> }
impl<M: AddressManager> Discovery<M> { pub fn new(addr_mgr: M, cycle: Option<Duration>) -> Discovery<M> { Discovery { addr_mgr, cycle } } pub fn global_ip_only(self, _: bool) -> Self { self } pub fn addr_mgr(&self) -> &M { &self.addr_mgr } }
pub struct DiscoveryProtocol<M> { d: Discovery<M> }
impl<M: AddressManager> DiscoveryProtocol<M> { pub fn new(d: Discovery<M>) -> DiscoveryProtocol<M> { DiscoveryProtocol { d } } }
fn addr(n: u8) -> Multiaddr { Multiaddr::empty().with(Protocol::Ip4([10, 0, 0, n].into())).with(Protocol::Tcp(1000)) }
impl<M: AddressManager + Send + 'static> ServiceProtocol for DiscoveryProtocol<M> {
    fn init(&mut self, _: &mut ProtocolContext) {}
    /// [0, a]: address a is learnt; [1, a..]: addresses; [2, k]: misbehaviour (the session is closed if so answered); [3, n]: n addresses are asked for, and answered by their last octets
    fn received(&mut self, cx: ProtocolContextMutRef, data: Bytes) {
        let sid = cx.session.id;
        match data[0] {
            0 => self.d.addr_mgr.add_new_addr(sid, addr(data[1])),
            1 => self.d.addr_mgr.add_new_addrs(sid, data[1..].iter().map(|n| addr(*n)).collect()),
            2 => { let k = match data[1] { 0 => Misbehavior::DuplicateGetNodes, 1 => Misbehavior::DuplicateFirstNodes, 2 => Misbehavior::TooManyItems { announce: true, length: 9 }, _ => Misbehavior::TooManyAddresses(9) }; if self.d.addr_mgr.misbehave(sid, k).is_disconnect() { let _ = cx.disconnect(sid); } }
            _ => { let v: Vec<u8> = self.d.addr_mgr.get_random(data[1] as usize).iter().map(|a| match a.iter().next() { Some(Protocol::Ip4(i)) => i.octets()[3], _ => 0 }).collect(); let _ = cx.send_message(Bytes::from(v)); }
        }
    }
}
