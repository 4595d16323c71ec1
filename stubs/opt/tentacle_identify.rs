//! Stand-in for `tentacle-identify`: what is received says what the protocol does with the callback.
//@ deps: p2p=@tentacle
use p2p::{bytes::Bytes, context::{ProtocolContext, ProtocolContextMutRef}, multiaddr::{Multiaddr, Protocol}, secio::PeerId, service::SessionType, traits::ServiceProtocol};
pub enum Misbehavior { DuplicateListenAddrs, DuplicateObservedAddr, Timeout, InvalidData, TooManyAddresses(usize) }
pub enum MisbehaveResult { Continue, Disconnect }
impl MisbehaveResult { pub fn is_continue(&self) -> bool { match self { MisbehaveResult::Continue => true, _ => false } } pub fn is_disconnect(&self) -> bool { !self.is_continue() } }
pub trait Callback: Clone + Send {
    fn received_identify(&mut self, context: &mut ProtocolContextMutRef, identify: &[u8]) -> MisbehaveResult;
    fn identify(&mut self) -> &[u8];
    fn local_listen_addrs(&mut self) -> Vec<Multiaddr>;
    fn add_remote_listen_addrs(&mut self, peer: &PeerId, addrs: Vec<Multiaddr>);
    fn add_observed_addr(&mut self, peer: &PeerId, addr: Multiaddr, ty: SessionType) -> MisbehaveResult;
    fn misbehave(&mut self, peer: &PeerId, kind: Misbehavior) -> MisbehaveResult;
}
pub struct IdentifyProtocol<T> { callback: T }
impl<T: Callback> IdentifyProtocol<T> { pub fn new(callback: T) -> IdentifyProtocol<T> { IdentifyProtocol { callback } } pub fn global_ip_only(self, _: bool) -> Self { self } }
fn addr(n: u8) -> Multiaddr { Multiaddr::empty().with(Protocol::Ip4([10, 0, 0, n].into())).with(Protocol::Tcp(1000)) }
impl<T: Callback> ServiceProtocol for IdentifyProtocol<T> {
    fn init(&mut self, _: &mut ProtocolContext) {}
    /// [0, a..]: the peer listens at these; [1, a]: the peer sees us at a; [2, k]: misbehaviour; [3]: our listen addresses are asked for, and answered by their last octets; [4, ..]: an identity message
    fn received(&mut self, mut cx: ProtocolContextMutRef, data: Bytes) {
        let p = match &cx.session.remote_pubkey { Some(k) => k.peer_id(), None => return }; let sid = cx.session.id;
        let r = match data[0] {
            0 => { self.callback.add_remote_listen_addrs(&p, data[1..].iter().map(|n| addr(*n)).collect()); MisbehaveResult::Continue }
            1 => { let ty = cx.session.ty; self.callback.add_observed_addr(&p, addr(data[1]), ty) }
            2 => { let k = match data[1] { 0 => Misbehavior::DuplicateListenAddrs, 1 => Misbehavior::DuplicateObservedAddr, 2 => Misbehavior::Timeout, 3 => Misbehavior::InvalidData, _ => Misbehavior::TooManyAddresses(9) }; self.callback.misbehave(&p, k) }
            3 => { let v: Vec<u8> = self.callback.local_listen_addrs().iter().map(|a| match a.iter().next() { Some(Protocol::Ip4(i)) => i.octets()[3], _ => 0 }).collect(); let _ = cx.send_message(Bytes::from(v)); MisbehaveResult::Continue }
            _ => self.callback.received_identify(&mut cx, &data[1..]),
        };
        if r.is_disconnect() { let _ = cx.disconnect(sid); }
    }
}
