//! Stand-in for the `tentacle` crate: its own types, contexts, control handle and builders (the files of tentacle 0.2.5 under tentacle/),
//! without sockets, sessions and multiplexing: what the outside does to a service (connections, errors, messages) is injected by the harness,
//! and what the service is asked to do (dial, close, send) is handed to the harness.
//@ deps: futures=libfutures-160b0e0e195ffff5.rlib log bytes multiaddr=libparity_multiaddr-f76e325a30695d40.rlib yamux=libtokio_yamux-784ac2c50867c477.rlib tokio=libtokio-c2518fa34be4cde7.rlib tentacle_secio=libtentacle_secio-e6a5b2446425e679.rlib
pub use bytes;
pub use multiaddr;
pub use yamux;
/// key pairs without the signature library: any 32 bytes other than zero are a key, the public key is derived from them
pub mod secio {
    pub use tentacle_secio::*;
    #[derive(Clone, Debug)]
    pub struct SecioKeyPair { key: [u8; 32] }
    impl SecioKeyPair {
        pub fn secp256k1_generated() -> SecioKeyPair { SecioKeyPair { key: [7; 32] } }
        pub fn secp256k1_raw_key<K: AsRef<[u8]>>(key: K) -> Result<SecioKeyPair, error::SecioError> {
            let k = key.as_ref(); if k.len() != 32 || k.iter().all(|b| *b == 0) { return Err(error::SecioError::SecretGenerationFailed) }
            let mut key = [0u8; 32]; key.copy_from_slice(k); Ok(SecioKeyPair { key })
        }
        pub fn to_public_key(&self) -> PublicKey { let mut v = vec![2u8]; v.extend_from_slice(&self.key); PublicKey::Secp256k1(v) }
        pub fn to_peer_id(&self) -> PeerId { self.to_public_key().peer_id() }
    }
}
#[path = "tentacle/builder.rs"] pub mod builder;
#[path = "tentacle/context.rs"] pub mod context;
#[path = "tentacle/error.rs"] pub mod error;
#[path = "tentacle/traits.rs"] pub mod traits;
#[path = "tentacle/utils.rs"] pub mod utils;
pub mod protocol_select {
    pub type SelectFn<T> = Box<dyn Fn(&[T], &[T]) -> Option<T> + Send + 'static>;
    #[derive(Clone, Debug, Default, Eq, PartialEq)] pub struct ProtocolInfo { pub name: String, pub support_versions: Vec<String> }
    impl ProtocolInfo { pub fn new(name: &str, support_versions: Vec<String>) -> Self { ProtocolInfo { name: name.to_owned(), support_versions } } }
}
pub(crate) mod session { pub(crate) enum SessionEvent {} }
macro_rules! id { ($t:ident) => {
    #[derive(Debug, Clone, Copy, Hash, Ord, PartialOrd, Eq, PartialEq, Default)] pub struct $t(usize);
    impl $t { pub const fn new(id: usize) -> Self { $t(id) } pub const fn value(self) -> usize { self.0 } }
    impl std::fmt::Display for $t { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, concat!(stringify!($t), "({})"), self.0) } }
    impl From<usize> for $t { fn from(id: usize) -> Self { $t(id) } }
} }
id!(ProtocolId); id!(SessionId);
impl std::ops::AddAssign<usize> for SessionId { fn add_assign(&mut self, rhs: usize) { self.0 += rhs } }

#[path = "tentacle"] pub mod service {
    #[path = "config.rs"] pub(crate) mod config;
    #[path = "control.rs"] mod control;
    #[path = "event.rs"] pub(crate) mod event;
    pub(crate) use self::event::ServiceTask;
    use self::config::ServiceConfig;
    pub use self::{config::{DialProtocol, ProtocolHandle, ProtocolMeta, TargetProtocol, TargetSession}, control::ServiceControl, event::{ProtocolEvent, ServiceError, ServiceEvent}};
    use crate::context::{ProtocolContext, ServiceContext};
    use crate::multiaddr::Multiaddr;
    use crate::protocol_select::ProtocolInfo;
    use crate::secio::SecioKeyPair;
    use crate::sim::{Input, Shared};
    use crate::traits::{ServiceHandle, ServiceProtocol};
    use crate::ProtocolId;
    use futures::{sync::mpsc, Async, Poll, Stream};
    use std::collections::HashMap;
    use std::io;
    use std::sync::{atomic::{AtomicBool, Ordering}, Arc};
    pub(crate) const RECEIVED_BUFFER_SIZE: usize = 2048;
    #[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)] pub enum SessionType { Outbound, Inbound }
    impl SessionType { pub fn is_outbound(self) -> bool { self == SessionType::Outbound } pub fn is_inbound(self) -> bool { !self.is_outbound() } }
    pub struct Service<T> { handle: T, context: ServiceContext, protos: Vec<(ProtocolContext, Box<dyn ServiceProtocol + Send + 'static>)>, infos: HashMap<ProtocolId, ProtocolInfo>, shared: Arc<Shared>, started: bool, closed: Arc<AtomicBool> }
    impl<T: ServiceHandle> Service<T> {
        pub(crate) fn new(protocol_configs: HashMap<String, ProtocolMeta>, handle: T, key_pair: Option<SecioKeyPair>, forever: bool, config: ServiceConfig) -> Self {
            let (task_tx, task_rx) = mpsc::unbounded(); let (quick_tx, quick_rx) = mpsc::unbounded(); let closed = Arc::new(AtomicBool::new(false));
            let infos: HashMap<ProtocolId, ProtocolInfo> = protocol_configs.values().map(|m| (m.id(), ProtocolInfo::new(&m.name(), m.support_versions()))).collect();
            let context = ServiceContext::new(task_tx, quick_tx, infos.clone(), key_pair.clone(), closed.clone(), config.timeout);
            let mut protos = vec![];
            for (_, mut m) in protocol_configs { let id = m.id(); match m.service_handle() { ProtocolHandle::Callback(h) | ProtocolHandle::Both(h) => protos.push((ProtocolContext::new(context.clone_self(), id), h)), _ => () } }
            protos.sort_by_key(|p| p.0.proto_id.value());
            let shared = crate::sim::started(task_rx, quick_rx, context.control().clone(), closed.clone(), key_pair, forever, config.max_frame_length, infos.clone());
            Service { handle, context, protos, infos, shared, started: false, closed }
        }
        pub fn yamux_config(self, _: crate::yamux::Config) -> Self { self }
        pub fn listen(&mut self, address: Multiaddr) -> Result<Multiaddr, io::Error> { if self.shared.refuse_listen.load(Ordering::SeqCst) { return Err(io::ErrorKind::AddrInUse.into()) } self.shared.listens.lock().unwrap().push(address.clone()); Ok(address) }
        pub fn protocol_configs(&self) -> &HashMap<ProtocolId, ProtocolInfo> { &self.infos }
        pub fn control(&self) -> &ServiceControl { self.context.control() }
    }
    impl<T: ServiceHandle> Stream for Service<T> {
        type Item = ();
        type Error = ();
        fn poll(&mut self) -> Poll<Option<()>, ()> {
            if !self.started { self.started = true; for (cx, h) in self.protos.iter_mut() { h.init(cx) } }
            loop {
                if self.closed.load(Ordering::SeqCst) { return Ok(Async::Ready(None)) }
                let input = self.shared.inputs.lock().unwrap().pop_front();
                match input {
                    None => return Ok(Async::NotReady),
                    Some(Input::Event(e)) => self.handle.handle_event(&mut self.context, e),
                    Some(Input::Error(e)) => self.handle.handle_error(&mut self.context, e),
                    Some(Input::Opened(p, cx)) => for (c, h) in self.protos.iter_mut() { if c.proto_id == p { h.connected(c.as_mut(&cx), "0.1") } },
                    Some(Input::Received(p, cx, data)) => for (c, h) in self.protos.iter_mut() { if c.proto_id == p { h.received(c.as_mut(&cx), data.clone()) } },
                    Some(Input::Closed(p, cx)) => for (c, h) in self.protos.iter_mut() { if c.proto_id == p { h.disconnected(c.as_mut(&cx)) } },
                    Some(Input::Notify(p, token)) => for (c, h) in self.protos.iter_mut() { if c.proto_id == p { h.notify(c, token) } },
                }
            }
        }
    }
}
/// The outside of a service, for the harnesses.
pub mod sim {
    use crate::context::SessionContext;
    use crate::multiaddr::Multiaddr;
    use crate::protocol_select::ProtocolInfo;
    use crate::secio::{PublicKey, SecioKeyPair};
    use crate::service::{ServiceControl, ServiceError, ServiceEvent, ServiceTask, SessionType, TargetProtocol, TargetSession, RECEIVED_BUFFER_SIZE};
    use crate::{ProtocolId, SessionId};
    use bytes::Bytes;
    use futures::{executor, sync::mpsc, Async};
    use std::collections::{HashMap, VecDeque};
    use std::sync::{atomic::{AtomicBool, AtomicUsize, Ordering}, Arc, Mutex};
    pub enum Input { Event(ServiceEvent), Error(ServiceError), Opened(ProtocolId, Arc<SessionContext>), Received(ProtocolId, Arc<SessionContext>, Bytes), Closed(ProtocolId, Arc<SessionContext>), Notify(ProtocolId, u64) }
    #[derive(Default)] pub(crate) struct Shared { pub inputs: Mutex<VecDeque<Input>>, pub listens: Mutex<Vec<Multiaddr>>, pub refuse_listen: AtomicBool }
    /// what a service is asked to do
    #[derive(Debug, Clone, PartialEq)] pub enum Asked { Send { quick: bool, to: TargetSession, proto: ProtocolId, data: Bytes }, Dial { addr: Multiaddr, protos: TargetProtocol }, Close(SessionId), Other }
    type Queue = executor::Spawn<mpsc::UnboundedReceiver<ServiceTask>>;
    struct Nobody;
    impl executor::Notify for Nobody { fn notify(&self, _: usize) {} }
    fn next(q: &mut Queue) -> Option<ServiceTask> { match q.poll_stream_notify(&Arc::new(Nobody), 0) { Ok(Async::Ready(t)) => t, _ => None } }
    /// the outside of one service
    pub struct Node { shared: Arc<Shared>, tasks: Queue, quick: Queue, control: ServiceControl, closed: Arc<AtomicBool>, pub key_pair: Option<SecioKeyPair>, pub forever: bool, pub max_frame_length: usize, pub protos: HashMap<ProtocolId, ProtocolInfo> }
    static mut NODES: Option<Mutex<Vec<Node>>> = None;
    static INIT: std::sync::Once = std::sync::Once::new();
    fn nodes() -> &'static Mutex<Vec<Node>> { INIT.call_once(|| unsafe { NODES = Some(Mutex::new(vec![])) }); unsafe { NODES.as_ref().unwrap() } }
    pub(crate) fn started(tasks: mpsc::UnboundedReceiver<ServiceTask>, quick: mpsc::UnboundedReceiver<ServiceTask>, control: ServiceControl, closed: Arc<AtomicBool>, key_pair: Option<SecioKeyPair>, forever: bool, max_frame_length: usize, protos: HashMap<ProtocolId, ProtocolInfo>) -> Arc<Shared> {
        let shared = Arc::new(Shared::default()); nodes().lock().unwrap().push(Node { shared: shared.clone(), tasks: executor::spawn(tasks), quick: executor::spawn(quick), control, closed, key_pair, forever, max_frame_length, protos }); shared
    }
    /// the outsides of the services built since the last call
    pub fn take() -> Vec<Node> { std::mem::replace(&mut *nodes().lock().unwrap(), vec![]) }
    pub fn session(id: usize, address: Multiaddr, ty: SessionType, key: Option<PublicKey>) -> Arc<SessionContext> { Arc::new(SessionContext::new(id.into(), address, ty, key, Arc::new(AtomicBool::new(false)), Arc::new(AtomicUsize::new(0)))) }
    fn asked(t: ServiceTask, quick: bool) -> Asked { match t { ServiceTask::ProtocolMessage { target, proto_id, data, .. } => Asked::Send { quick, to: target, proto: proto_id, data }, ServiceTask::Dial { address, target } => Asked::Dial { addr: address, protos: target }, ServiceTask::Disconnect { session_id } => Asked::Close(session_id), _ => Asked::Other } }
    impl Node {
        pub fn inject(&self, i: Input) { self.shared.inputs.lock().unwrap().push_back(i) }
        /// where the service was told to listen
        pub fn listens(&self) -> Vec<Multiaddr> { self.shared.listens.lock().unwrap().clone() }
        pub fn refuse_listen(&self, yes: bool) { self.shared.refuse_listen.store(yes, Ordering::SeqCst) }
        /// what the service was asked for since the last call: the urgent first
        pub fn asked(&mut self) -> Vec<Asked> {
            let mut v = vec![];
            while let Some(t) = next(&mut self.quick) { self.control.quick_count_sub(); v.push(asked(t, true)) }
            while let Some(t) = next(&mut self.tasks) { self.control.normal_count_sub(); v.push(asked(t, false)) }
            v
        }
        /// the service's queues are full, or not any more
        pub fn full(&self, normal: bool, quick: bool) { self.control.normal_count.store(if normal { RECEIVED_BUFFER_SIZE } else { 0 }, Ordering::SeqCst); self.control.quick_count.store(if quick { RECEIVED_BUFFER_SIZE } else { 0 }, Ordering::SeqCst) }
        /// the service is shut down
        pub fn close(&self) { self.closed.store(true, Ordering::SeqCst) }
        pub fn control(&self) -> ServiceControl { self.control.clone() }
    }
}
