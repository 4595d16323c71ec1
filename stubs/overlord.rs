//! Stand-in for `overlord` (the voting protocol, which is not here): its interface, messages with an RLP form, and nothing that decides.
//! What is built here is handed to the harness (`sim`), which plays the protocol: it asks for a proposal, has it checked and commits it.
//@ deps: async_trait bytes creep rlp
use async_trait::async_trait;
use bytes::Bytes;
use creep::Context;
use std::error::Error;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};
pub use types::*;
pub trait Codec: Clone + Debug + Send + PartialEq + Eq {
    fn encode(&self) -> Result<Bytes, Box<dyn Error + Send>>;
    fn decode(data: Bytes) -> Result<Self, Box<dyn Error + Send>>;
}
#[async_trait]
pub trait Consensus<T: Codec, S: Codec>: Send + Sync {
    async fn get_epoch(&self, ctx: Context, epoch_id: u64) -> Result<(T, Bytes), Box<dyn Error + Send>>;
    async fn check_epoch(&self, ctx: Context, epoch_id: u64, hash: Bytes, epoch: T) -> Result<S, Box<dyn Error + Send>>;
    async fn commit(&self, ctx: Context, epoch_id: u64, commit: Commit<T>) -> Result<Status, Box<dyn Error + Send>>;
    async fn get_authority_list(&self, ctx: Context, epoch_id: u64) -> Result<Vec<Node>, Box<dyn Error + Send>>;
    async fn broadcast_to_other(&self, ctx: Context, msg: OverlordMsg<T>) -> Result<(), Box<dyn Error + Send>>;
    async fn transmit_to_relayer(&self, ctx: Context, addr: Bytes, msg: OverlordMsg<T>) -> Result<(), Box<dyn Error + Send>>;
}
pub trait Crypto: Send {
    fn hash(&self, msg: Bytes) -> Bytes;
    fn sign(&self, hash: Bytes) -> Result<Bytes, Box<dyn Error + Send>>;
    fn verify_signature(&self, signature: Bytes, hash: Bytes) -> Result<Bytes, Box<dyn Error + Send>>;
    fn aggregate_signatures(&self, signatures: Vec<Bytes>, voters: Vec<Bytes>) -> Result<Bytes, Box<dyn Error + Send>>;
    fn verify_aggregated_signature(&self, aggregated_signature: AggregatedSignature) -> Result<(), Box<dyn Error + Send>>;
}
#[derive(Clone, Debug)] pub struct DurationConfig { pub propose_ratio: u64, pub prevote_ratio: u64, pub precommit_ratio: u64 }
#[derive(Debug)] pub struct ConsensusError; impl std::fmt::Display for ConsensusError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "overlord") } } impl Error for ConsensusError {}
type Msgs<T> = Arc<Mutex<Vec<OverlordMsg<T>>>>;
#[derive(Clone)] pub struct OverlordHandler<T: Codec>(Msgs<T>);
impl<T: Codec> OverlordHandler<T> { pub fn send_msg(&self, _: Context, msg: OverlordMsg<T>) -> Result<(), ConsensusError> { self.0.lock().unwrap().push(msg); Ok(()) } }
pub struct Overlord<T: Codec, S: Codec, F: Consensus<T, S>, C: Crypto> { handler: OverlordHandler<T>, _engine: Arc<F>, crypto: Mutex<C>, p: PhantomData<fn() -> (T, S)> }
impl<T: Codec + 'static, S: Codec + 'static, F: Consensus<T, S> + 'static, C: Crypto> Overlord<T, S, F, C> {
    pub fn new(address: Bytes, engine: Arc<F>, crypto: C) -> Self {
        let handler = OverlordHandler(Msgs::default()); let e: Arc<dyn Consensus<T, S>> = engine.clone();
        sim::LAST.with(|l| *l.borrow_mut() = Some(Box::new(sim::Made { address, engine: e, msgs: handler.0.clone() }))); Overlord { handler, _engine: engine, crypto: Mutex::new(crypto), p: PhantomData }
    }
    pub fn get_handler(&self) -> OverlordHandler<T> { self.handler.clone() }
    pub async fn run(&self, _interval: u64, _timer_config: Option<DurationConfig>) -> Result<(), ConsensusError> { let _ = &self.crypto; Ok(()) }
}
pub mod sim {
    use super::*;
    pub struct Made<T: Codec, S: Codec> { pub address: Bytes, pub engine: Arc<dyn Consensus<T, S>>, pub msgs: Msgs<T> }
    thread_local! { pub static LAST: std::cell::RefCell<Option<Box<dyn std::any::Any>>> = std::cell::RefCell::new(None); }
    /// what the last `Overlord::new` was given
    pub fn take<T: Codec + 'static, S: Codec + 'static>() -> Made<T, S> { *LAST.with(|l| l.borrow_mut().take()).unwrap().downcast::<Made<T, S>>().ok().unwrap() }
}
pub mod types {
    use super::*;
    use rlp::{Decodable, DecoderError, Encodable, Prototype, Rlp, RlpStream};
    pub type Address = Bytes; pub type Hash = Bytes; pub type Signature = Bytes;
    #[derive(Clone, Debug, PartialEq, Eq)] pub enum OverlordMsg<T: Codec> { SignedProposal(SignedProposal<T>), SignedVote(SignedVote), AggregatedVote(AggregatedVote), RichStatus(Status), Stop }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct Status { pub epoch_id: u64, pub interval: Option<u64>, pub authority_list: Vec<Node> }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)] pub struct Node { pub address: Address, pub propose_weight: u8, pub vote_weight: u8 }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct AggregatedSignature { pub signature: Signature, pub address_bitmap: Bytes }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct Proof { pub epoch_id: u64, pub round: u64, pub epoch_hash: Hash, pub signature: AggregatedSignature }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct Commit<T: Codec> { pub epoch_id: u64, pub content: T, pub proof: Proof }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct Proposal<T: Codec> { pub epoch_id: u64, pub round: u64, pub content: T, pub epoch_hash: Hash, pub proposer: Address }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct SignedProposal<T: Codec> { pub signature: Bytes, pub proposal: Proposal<T> }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct Vote { pub epoch_id: u64, pub round: u64, pub epoch_hash: Hash, pub voter: Address }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct SignedVote { pub signature: Bytes, pub vote: Vote }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct AggregatedVote { pub signature: AggregatedSignature, pub epoch_id: u64, pub round: u64, pub epoch_hash: Hash, pub leader: Address }
    fn v(r: &Rlp, n: usize) -> Result<Bytes, DecoderError> { let x: Vec<u8> = r.val_at(n)?; Ok(Bytes::from(x)) }
    fn want(r: &Rlp, n: usize) -> Result<(), DecoderError> { match r.prototype()? { Prototype::List(k) if k == n => Ok(()), _ => Err(DecoderError::RlpInconsistentLengthAndData) } }
    impl<T: Codec> Encodable for SignedProposal<T> { fn rlp_append(&self, s: &mut RlpStream) { let c = self.proposal.content.encode().unwrap().to_vec(); s.begin_list(6).append(&self.signature.to_vec()).append(&self.proposal.epoch_id).append(&self.proposal.round).append(&c).append(&self.proposal.epoch_hash.to_vec()).append(&self.proposal.proposer.to_vec()); } }
    impl<T: Codec> Decodable for SignedProposal<T> { fn decode(r: &Rlp) -> Result<Self, DecoderError> { want(r, 6)?; let content = T::decode(v(r, 3)?).map_err(|_| DecoderError::Custom("content"))?; Ok(SignedProposal { signature: v(r, 0)?, proposal: Proposal { epoch_id: r.val_at(1)?, round: r.val_at(2)?, content, epoch_hash: v(r, 4)?, proposer: v(r, 5)? } }) } }
    impl Encodable for SignedVote { fn rlp_append(&self, s: &mut RlpStream) { s.begin_list(5).append(&self.signature.to_vec()).append(&self.vote.epoch_id).append(&self.vote.round).append(&self.vote.epoch_hash.to_vec()).append(&self.vote.voter.to_vec()); } }
    impl Decodable for SignedVote { fn decode(r: &Rlp) -> Result<Self, DecoderError> { want(r, 5)?; Ok(SignedVote { signature: v(r, 0)?, vote: Vote { epoch_id: r.val_at(1)?, round: r.val_at(2)?, epoch_hash: v(r, 3)?, voter: v(r, 4)? } }) } }
    impl Encodable for AggregatedVote { fn rlp_append(&self, s: &mut RlpStream) { s.begin_list(6).append(&self.signature.signature.to_vec()).append(&self.signature.address_bitmap.to_vec()).append(&self.epoch_id).append(&self.round).append(&self.epoch_hash.to_vec()).append(&self.leader.to_vec()); } }
    impl Decodable for AggregatedVote { fn decode(r: &Rlp) -> Result<Self, DecoderError> { want(r, 6)?; Ok(AggregatedVote { signature: AggregatedSignature { signature: v(r, 0)?, address_bitmap: v(r, 1)? }, epoch_id: r.val_at(2)?, round: r.val_at(3)?, epoch_hash: v(r, 4)?, leader: v(r, 5)? }) } }
}
