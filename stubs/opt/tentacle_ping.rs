//! Stand-in for `tentacle-ping`: what is received says what the protocol reports of the peer.
//@ deps: generic_channel p2p=@tentacle
use generic_channel::Sender;
use p2p::{bytes::Bytes, context::{ProtocolContext, ProtocolContextMutRef}, secio::PeerId, traits::ServiceProtocol};
use std::time::Duration;
#[derive(Debug)] pub enum Event { Ping(PeerId), Pong(PeerId, Duration), Timeout(PeerId), UnexpectedError(PeerId) }
pub struct PingHandler<S: Sender<Event>> { pub interval: Duration, pub timeout: Duration, event_sender: S, pub failed: usize }
impl<S: Sender<Event>> PingHandler<S> {
    pub fn new(interval: Duration, timeout: Duration, event_sender: S) -> PingHandler<S> { PingHandler { interval, timeout, event_sender, failed: 0 } }
    pub fn send_event(&mut self, event: Event) { if self.event_sender.try_send(event).is_err() { self.failed += 1 } }
}
impl<S: Sender<Event>> ServiceProtocol for PingHandler<S> {
    fn init(&mut self, cx: &mut ProtocolContext) { let id = cx.proto_id; let _ = cx.set_service_notify(id, self.interval, 0); let _ = cx.set_service_notify(id, self.timeout, 1); }
    fn received(&mut self, cx: ProtocolContextMutRef, data: Bytes) {
        let p = match &cx.session.remote_pubkey { Some(k) => k.peer_id(), None => return };
        match data[0] { 0 => self.send_event(Event::Ping(p)), 1 => self.send_event(Event::Pong(p, Duration::from_secs(3))), 2 => self.send_event(Event::Timeout(p)), _ => self.send_event(Event::UnexpectedError(p)) }
    }
}
