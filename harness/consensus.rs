//! Consensus over a whole node: the real pool, executor, storage (on the stand-in disk) and message handlers, with the voting left to the harness.
//@ deps: protocol bytes num_bigint serde_json core_consensus core_mempool core_storage core_executor common_crypto common_merkle rocksdb overlord futures async_trait runtime futures_timer bincode parking_lot
use anyval as a;
use async_trait::async_trait;
use bytes::Bytes;
use common_crypto::{PrivateKey, Secp256k1, Secp256k1PrivateKey};
use common_merkle::Merkle;
use core_consensus::adapter::OverlordConsensusAdapter;
use core_consensus::consensus::OverlordConsensus;
use core_consensus::fixed_types::*;
use core_consensus::message::*;
use core_consensus::util::{resume, OverlordCrypto};
use core_executor::trie::RocksTrieDB;
use core_executor::TransactionExecutorFactory as EF;
use core_mempool::*;
use core_storage::adapter::rocks::RocksAdapter;
use core_storage::ImplStorage;
use num_bigint::BigUint;
use overlord::types as ot;
use overlord::{Codec, Crypto as OverCrypto};
use protocol::fixed_codec::ProtocolFixedCodec;
use protocol::traits::executor::{ExecutorExecResp, ExecutorFactory};
use protocol::traits::*;
use protocol::types::*;
use protocol::{ProtocolError, ProtocolErrorKind, ProtocolResult};
use std::convert::TryFrom;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use symrt as s;

#[derive(Debug)] struct Down; impl std::fmt::Display for Down { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "down") } } impl std::error::Error for Down {}
fn down<T>() -> ProtocolResult<T> { Err(ProtocolError::new(ProtocolErrorKind::Network, Box::new(Down))) }
fn ctx() -> Context { Context::new() }
fn chain() -> Hash { a::chash(0xc4) }
fn asset() -> Hash { a::chash(0x51) }
fn key(k: u8) -> Secp256k1PrivateKey { let b = [k; 32]; Secp256k1PrivateKey::try_from(&b[..]).unwrap() }
fn pubkey(k: u8) -> Bytes { let mut p = vec![k; 33]; p[0] = 2; Bytes::from(p) }
fn user(k: u8) -> UserAddress { UserAddress::from_pubkey_bytes(pubkey(k)).unwrap() }
fn digest<T: ProtocolFixedCodec>(t: &T) -> Hash { Hash::digest(t.encode_fixed().unwrap()) }
fn root(l: Vec<Hash>) -> Hash { Merkle::from_hashes(l).get_root_hash().unwrap_or_else(Hash::from_empty) }
/// user k sends `n` to user 3; 1000 are there
fn tx(k: u8, nonce: u8, n: u64) -> SignedTransaction {
    let raw = RawTransaction { chain_id: chain(), nonce: a::chash(nonce), timeout: 100, fee: Fee { asset_id: asset(), cycle: 1_000 }, action: TransactionAction::Transfer { receiver: user(3), carrying_asset: CarryingAsset { asset_id: asset(), amount: BigUint::from(n) } } };
    let h = digest(&raw); sign(SignedTransaction { raw, tx_hash: h, pubkey: pubkey(k), signature: Bytes::new() }, k)
}
fn sign(mut t: SignedTransaction, k: u8) -> SignedTransaction { let mut v = t.tx_hash.as_bytes().to_vec(); v.extend_from_slice(&[k; 32]); t.signature = Bytes::from(v); t }
fn hashes(l: &[SignedTransaction]) -> Vec<Hash> { l.iter().map(|t| t.tx_hash.clone()).collect() }

// ---- the network between nodes
type Peer = Arc<dyn Fn(&str, Bytes) -> Option<Bytes> + Send + Sync>;
#[derive(Clone, Default)] struct Net { sent: Arc<Mutex<Vec<(String, Bytes, Option<UserAddress>)>>>, peer: Arc<Mutex<Option<Peer>>>, fails: Arc<Mutex<bool>> }
impl Net { fn take(&self) -> Vec<(String, Bytes, Option<UserAddress>)> { std::mem::replace(&mut *self.sent.lock().unwrap(), vec![]) } }
#[async_trait] impl Gossip for Net {
    async fn broadcast<M: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()> { if *self.fails.lock().unwrap() { return down(); } let b = msg.encode().await?; self.sent.lock().unwrap().push((end.to_owned(), b, None)); Ok(()) }
    async fn users_cast<M: MessageCodec>(&self, _: Context, end: &str, users: Vec<UserAddress>, mut msg: M, _: Priority) -> ProtocolResult<()> { s::check(users.len() == 1, "a vote is for one"); let b = msg.encode().await?; self.sent.lock().unwrap().push((end.to_owned(), b, Some(users[0].clone()))); Ok(()) }
}
#[async_trait] impl Rpc for Net {
    async fn call<M: MessageCodec, R: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<R> { let b = msg.encode().await?; let p = self.peer.lock().unwrap().clone(); match p.and_then(|p| p(end, b)) { Some(b) => R::decode(b).await, None => down() } }
    async fn response<M: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()> { let b = msg.encode().await?; self.sent.lock().unwrap().push((end.to_owned(), b, None)); Ok(()) }
}
// ---- a node, put together as main.rs does
type St = ImplStorage<RocksAdapter>;
type Pool = HashMemPool<DefaultMemPoolAdapter<Secp256k1, Net, St>>;
type Adapter = OverlordConsensusAdapter<EF, Net, Pool, Net, St, RocksTrieDB>;
type Con = OverlordConsensus<Adapter>;
struct Node { me: u8, net: Net, st: Arc<St>, db: Arc<RocksTrieDB>, pool: Arc<Pool>, con: Arc<Con>, over: overlord::sim::Made<FixedPill, FixedSignedTxs>, next: u64, _tasks: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>>> }
const PRICE: u64 = 1;
fn validators() -> Vec<Validator> { [0x22u8, 0x11].iter().map(|k| Validator { address: user(*k), propose_weight: 1, vote_weight: 1 }).collect() }
fn genesis() -> Genesis {
    let al = |k: u8| GenesisStateAlloc { address: user(k).as_hex(), assets: vec![GenesisStateAsset { asset_id: asset().as_hex(), balance: "03e8".to_owned() }] };
    let mut g = a::genesis(&mut a::Gen::plain()); g.state_alloc = vec![al(1), al(2)]; g.system_token.code = "0a0b".to_owned(); g.system_token.name = "HT".to_owned(); g.system_token.symbol = "ht".to_owned(); g.system_token.supply = 2_000; g
}
fn open(me: u8) -> (Arc<St>, Arc<RocksTrieDB>) { (Arc::new(ImplStorage::new(Arc::new(RocksAdapter::new(format!("block{}", me)).unwrap()))), Arc::new(RocksTrieDB::new(format!("state{}", me), false).unwrap())) }
fn init(me: u8) {
    let (st, db) = open(me); let g = EF::from_root(chain(), Hash::from_empty(), db, 0, PRICE, Address::User(user(me))).unwrap().create_genesis(&genesis()).unwrap();
    let proof = Proof { epoch_id: 0, round: 0, epoch_hash: Hash::from_empty(), signature: Bytes::new(), bitmap: Bytes::new() };
    let header = EpochHeader { chain_id: chain(), epoch_id: 0, pre_hash: Hash::from_empty(), timestamp: 5, logs_bloom: Bloom::default(), order_root: Hash::from_empty(), confirm_root: vec![], state_root: g, receipt_root: vec![Hash::from_empty()], cycles_used: 0, proposer: a::cuser(9), proof: proof.clone(), validator_version: 0, validators: vec![] };
    s::block_on(st.insert_epoch(Epoch { header, ordered_tx_hashes: vec![] })).unwrap(); s::block_on(st.update_latest_proof(proof)).unwrap();
}
fn start(me: u8, net: &Net) -> Node {
    let (st, db) = open(me); let net = net.clone(); let e = s::block_on(st.get_latest_epoch()).ok().unwrap(); let h = &e.header;
    let pool = Arc::new(HashMemPool::new(16, 200, DefaultMemPoolAdapter::new(net.clone(), st.clone(), 200, 8, 200))); let tasks = runtime::sim::take();
    let ad = Arc::new(OverlordConsensusAdapter::new(Arc::new(net.clone()), Arc::new(net.clone()), pool.clone(), st.clone(), db.clone()));
    let mut cs = CurrentConsensusStatus { cycles_price: PRICE, cycles_limit: 1_000_000, epoch_id: h.epoch_id + 1, prev_hash: digest(&e), logs_bloom: h.logs_bloom, order_root: Hash::from_empty(), confirm_root: vec![Hash::from_empty()], state_root: h.state_root.clone(), receipt_root: vec![Hash::from_empty()], cycles_used: h.cycles_used, proof: h.proof.clone(), validators: validators(), consensus_interval: 3_000 };
    let txs = s::block_on(st.get_transactions(e.ordered_tx_hashes.clone())).unwrap(); let proof = s::block_on(st.get_latest_proof()).ok().unwrap();
    let r = resume::<EF, _>(&mut cs, &e, txs, proof, db.clone()); s::check(r.is_ok(), "a node starts again");
    let next = h.epoch_id + 1; let con: Arc<Con> = Arc::new(OverlordConsensus::new(cs, NodeInfo { chain_id: chain(), self_address: user(me) }, key(me), ad)); let over = overlord::sim::take();
    { let m = over.msgs.lock().unwrap(); s::check(over.address == user(me).as_bytes() && *m == vec![rich(next)], "consensus starts after the latest epoch"); } over.msgs.lock().unwrap().clear();
    Node { me, net, st, db, pool, con, over, next, _tasks: tasks }
}
fn node(me: u8) -> Node { s::concrete(|| { init(me); start(me, &Net::default()) }) }
fn rich(epoch_id: u64) -> ot::OverlordMsg<FixedPill> { ot::OverlordMsg::RichStatus(status(epoch_id)) }
fn status(epoch_id: u64) -> ot::Status { let mut l: Vec<Bytes> = validators().into_iter().map(|v| v.address.as_bytes()).collect(); l.sort(); ot::Status { epoch_id, interval: Some(3_000), authority_list: l.into_iter().map(|address| ot::Node { address, propose_weight: 1, vote_weight: 1 }).collect() } }
fn proof_of(id: u64, hash: &Bytes) -> ot::Proof { ot::Proof { epoch_id: id, round: 2, epoch_hash: hash.clone(), signature: ot::AggregatedSignature { signature: Bytes::from(vec![id as u8; 3]), address_bitmap: Bytes::from(vec![0xc0]) } } }
impl Node {
    fn offer(&self, l: &[SignedTransaction]) { for t in l { let r = s::block_on(self.pool.insert(ctx(), t.clone())); s::check(r.is_ok(), "a valid transaction is taken"); } }
    fn propose(&self) -> (FixedPill, Bytes) { let r = s::nopanic("proposing does not panic", || s::block_on(self.over.engine.get_epoch(ctx(), self.next))); s::check(r.is_ok(), "a node proposes the next epoch"); r.ok().unwrap() }
    fn vote(&self, p: &(FixedPill, Bytes)) -> Option<Vec<SignedTransaction>> { s::nopanic("checking a proposal does not panic", || s::block_on(self.over.engine.check_epoch(ctx(), self.next, p.1.clone(), p.0.clone()))).ok().map(|t| t.inner) }
    fn commit_at(&self, id: u64, p: &(FixedPill, Bytes)) -> Option<ot::Status> { s::nopanic("committing does not panic", || s::block_on(self.over.engine.commit(ctx(), id, ot::Commit { epoch_id: id, content: p.0.clone(), proof: proof_of(id, &p.1) }))).ok() }
    fn commit(&mut self, p: &(FixedPill, Bytes)) { let r = self.commit_at(self.next, p); self.next += 1; s::check(r == Some(status(self.next)), "committing leads to the next epoch"); }
    /// the latest epoch's number, and all epochs up to it
    fn latest(&self) -> Epoch { s::block_on(self.st.get_latest_epoch()).ok().unwrap() }
    fn epoch(&self, id: u64) -> Option<Epoch> { s::block_on(self.st.get_epoch_by_epoch_id(id)).ok() }
    fn serve(&self) -> Peer {
        let (net, st, pool) = (Net::default(), self.st.clone(), self.pool.clone());
        Arc::new(move |end, req| { if end == RPC_SYNC_PULL { let m = s::block_on(<RpcHandler<Net, St> as MessageHandler>::Message::decode(req)).unwrap(); let _ = s::nopanic("answering a request does not panic", || s::block_on(RpcHandler::new(Arc::new(net.clone()), st.clone()).process(ctx(), m))); }
            else { s::check(end == END_RPC_PULL_TXS, "requests are of a known kind"); let m = s::block_on(<PullTxsHandler<Net, Pool> as MessageHandler>::Message::decode(req)).unwrap(); let _ = s::block_on(PullTxsHandler::new(net.clone(), pool.clone()).process(ctx(), m)); }
            let mut out = net.take(); s::check(out.len() <= 1, "a request is answered once"); out.pop().map(|o| { s::check(o.0 == if end == RPC_SYNC_PULL { RPC_RESP_SYNC_PULL } else { END_RESP_PULL_TXS }, "a request is answered as such"); o.1 }) })
    }
    fn connect(&self, p: Peer) { *self.net.peer.lock().unwrap() = Some(p); }
    fn hear(&self, id: u64) -> bool { let b = self.rich_bytes(id); let m = s::block_on(RichEpochID::decode(b)).unwrap(); s::nopanic("synchronizing does not panic", || s::block_on(RichEpochIDMessageHandler::new(self.con.clone()).process(ctx(), m))).is_ok() }
    fn rich_bytes(&self, id: u64) -> Bytes { s::block_on(RichEpochID::from(FixedEpochID::new(id)).encode()).unwrap() }
    fn exec(&self, at: &Hash, id: u64, proposer: u8, l: &[SignedTransaction]) -> ExecutorExecResp { EF::from_root(chain(), at.clone(), self.db.clone(), id, PRICE, Address::User(user(proposer))).unwrap().exec(l.to_vec()).unwrap() }
}
/// what a chain's next proposal must say
#[derive(Clone)] struct Tip { id: u64, prev: Hash, state: Hash, order: Hash, receipts: Hash, proof: Proof }
impl Tip {
    fn genesis(n: &Node) -> Tip { let e = n.epoch(0).unwrap(); Tip { id: 1, prev: digest(&e), state: e.header.state_root.clone(), order: Hash::from_empty(), receipts: Hash::from_empty(), proof: e.header.proof.clone() } }
    fn check(&self, p: &(FixedPill, Bytes), me: u8, l: &[SignedTransaction], own_proof: bool) {
        let (pill, h) = (&p.0.inner, &p.0.inner.epoch.header);
        s::check(h.epoch_id == self.id && h.chain_id == chain() && h.pre_hash == self.prev, "a proposal follows the latest epoch"); s::check(h.state_root == self.state, "a proposal has the state after the latest epoch"); s::check(h.receipt_root == vec![self.receipts.clone()] && h.confirm_root == vec![self.order.clone()], "a proposal confirms the latest epoch's transactions and receipts");
        s::check(h.proposer == user(me) && h.validators == validators() && h.timestamp == 77, "a proposal names its proposer, validators and time"); s::check(!own_proof || h.proof == self.proof, "a proposal carries the proof of the latest epoch");
        s::check(pill.epoch.ordered_tx_hashes == hashes(l) && h.order_root == root(hashes(l)), "a proposal commits to the transactions it orders"); s::check(p.1 == digest(pill).as_bytes(), "a proposal is named by its digest"); s::check(p.0.encode().ok().and_then(|b| FixedPill::decode(b).ok()).as_ref() == Some(&p.0), "a proposal survives its encoding");
    }
    fn after(&self, p: &(FixedPill, Bytes), r: &ExecutorExecResp) -> Tip { let e = &p.0.inner.epoch; let o = proof_of(self.id, &p.1); Tip { id: self.id + 1, prev: digest(e), state: r.state_root.clone(), order: e.header.order_root.clone(), receipts: root(r.receipts.iter().map(digest).collect()), proof: Proof { epoch_id: o.epoch_id, round: o.round, epoch_hash: Hash::from_bytes(o.epoch_hash).unwrap(), signature: o.signature.signature, bitmap: o.signature.address_bitmap } } }
}
/// the transactions of block `i`: none, one that fails, two of which the second may fail
fn some_txs(i: u8) -> Vec<SignedTransaction> { match s::pick("txs", s::param("kinds", 3) as usize) { 0 => vec![tx(1, 0x20 + i, 7), tx(2, 0x30 + i, 600)], 1 => vec![], _ => vec![tx(1, 0x10 + i, 5_000)] } }
fn stored(n: &Node, e: &Epoch, l: &[SignedTransaction], r: &ExecutorExecResp) {
    let id = e.header.epoch_id; s::check(n.epoch(id).as_ref() == Some(e) && n.latest() == *e, "a committed epoch is stored, as the latest"); for (t, rc) in l.iter().zip(r.receipts.iter()) { s::check(s::block_on(n.st.get_transaction_by_hash(t.tx_hash.clone())).ok().as_ref() == Some(t), "a committed transaction is stored"); s::check(s::block_on(n.st.get_receipt(t.tx_hash.clone())).ok().as_ref() == Some(rc), "the receipt of a committed transaction is stored"); }
}
fn step(n: &mut Node, tip: &Tip, i: u8) -> Tip {
    let l = some_txs(i); n.offer(&l); let p = n.propose(); tip.check(&p, n.me, &l, true); s::check(n.vote(&p) == Some(l.clone()), "a node votes for what it proposes, with its transactions at hand"); let r = n.exec(&tip.state, tip.id, n.me, &l); n.net.take(); n.commit(&p);
    stored(n, &p.0.inner.epoch, &l, &r); let next = tip.after(&p, &r); s::check(s::block_on(n.st.get_latest_proof()).ok() == Some(next.proof.clone()), "the proof of a committed epoch is stored");
    for t in &l { s::check(s::block_on(n.pool.get_full_txs(ctx(), vec![t.tx_hash.clone()])).is_err(), "a committed transaction leaves the pool"); s::check(s::block_on(n.pool.insert(ctx(), t.clone())).is_err(), "a committed transaction is not taken again"); } if !l.is_empty() { s::cover("transactions"); }
    let out = n.net.take(); s::check(out.len() == 1 && out[0].0 == END_GOSSIP_RICH_EPOCH_ID && out[0].1 == n.rich_bytes(n.next), "a committed epoch is announced, once"); next
}
/// a node proposes, commits and stops and starts again
#[no_mangle] pub fn co_chain() {
    s::set_clock(77); let mut n = node(0x11); let mut tip = Tip::genesis(&n);
    for i in 0..s::param("blocks", 2) { if s::flag("stop and start") { s::cover("started again"); let net = n.net.clone(); drop(n); n = start(0x11, &net); s::check(n.next == tip.id, "a node starts again where it stopped"); } tip = step(&mut n, &tip, i as u8); }
    // out of turn
    let p = n.propose(); tip.check(&p, 0x11, &[], true); let e = n.latest(); let id = match s::pick("turn", 3) { 0 => n.next + 1, 1 => n.next - 1, _ => 0 }; s::check(s::block_on(n.over.engine.get_epoch(ctx(), id)).is_err(), "an epoch is proposed in its turn"); s::check(n.commit_at(id, &p).is_none(), "an epoch is committed once, in its turn"); s::check(n.latest() == e, "what is not committed is not stored"); let q = n.propose(); tip.check(&q, 0x11, &[], true);
    s::check(s::block_on(n.over.engine.get_authority_list(ctx(), tip.id - 1)).ok().map(|l| ot::Status { epoch_id: n.next, interval: Some(3_000), authority_list: l }) == Some(status(n.next)), "the validators of an epoch can be looked up"); s::cover("out of turn");
}
/// the disk fails during a commit; the node may be stopped and started again
#[no_mangle] pub fn co_crash() {
    s::set_clock(77); let mut n = node(0x11); let mut tip = Tip::genesis(&n); if s::flag("second") { tip = step(&mut n, &tip, 0); }
    let l = vec![tx(1, 0x40, 7), tx(2, 0x50, 600)]; n.offer(&l); let p = n.propose(); let r = n.exec(&tip.state, tip.id, n.me, &l); let after = tip.after(&p, &r);
    let at = s::pick("writes", s::param("writes", 10) as usize); rocksdb::sim::fail_after(at as u64); let done = n.commit_at(n.next, &p).is_some();
    if !done { s::cover("failed"); for t in &l { s::check(s::block_on(n.pool.get_full_txs(ctx(), vec![t.tx_hash.clone()])).is_ok(), "an epoch that is not committed loses no transaction"); } }
    let net = n.net.clone(); drop(n); rocksdb::sim::restart(); let mut n = start(0x11, &net); s::check(n.next == after.id || !done, "what is committed survives"); 
    if n.next == after.id { stored(&n, &p.0.inner.epoch, &l, &r); let q = n.propose(); after.check(&q, 0x11, &[], done); s::cover("survived"); }
    else {
        s::check(n.next == tip.id, "a node starts again at the epoch it could not commit"); let half = l.iter().any(|t| s::block_on(n.st.get_transaction_by_hash(t.tx_hash.clone())).is_ok());
        let q = if s::flag("by others") { let l2 = l.clone(); n.connect(Arc::new(move |end, _| { s::check(end == END_RPC_PULL_TXS, "missing transactions are asked for"); Some(s::block_on(MsgPushTxs { sig_txs: l2.clone() }.encode()).unwrap()) })); s::check(n.vote(&p) == Some(l.clone()), "a node votes for an honest proposal, with its transactions at hand"); s::cover("by others"); p.clone() }
            else { if half { s::check(s::block_on(n.pool.insert(ctx(), l[0].clone())).is_ok(), "transactions stored before the crash, for an epoch that was not, can come again"); s::end(); } n.offer(&l); let q = n.propose(); tip.check(&q, 0x11, &l, false); q };
        let r = n.exec(&tip.state, tip.id, n.me, &l); n.commit(&q); stored(&n, &q.0.inner.epoch, &l, &r); let t2 = tip.after(&q, &r); s::check(t2.state == after.state, "an epoch committed later leads to the same state"); let q = n.propose(); t2.check(&q, 0x11, &[], true); s::cover("committed later");
    }
}
fn same_chain(b: &Node, a: &Node, upto: u64) {
    for id in 0..=upto { let e = a.epoch(id); s::check(e.is_some() && b.epoch(id) == e, "nodes have the same epochs"); for h in e.unwrap().ordered_tx_hashes { let ok = s::block_on(b.st.get_transaction_by_hash(h.clone())).ok(); s::check(ok.is_some() && ok == s::block_on(a.st.get_transaction_by_hash(h.clone())).ok(), "nodes have the same transactions"); let rc = s::block_on(b.st.get_receipt(h.clone())).ok(); s::check(rc.is_some() && rc == s::block_on(a.st.get_receipt(h)).ok(), "nodes have the same receipts"); } }
}
/// one block proposed by `a` and committed by both
fn together(x: &mut Node, y: &mut Node, tip: &Tip, i: u8) -> Tip {
    let l = some_txs(i); x.offer(&l); let p = x.propose(); tip.check(&p, x.me, &l, false); y.connect(x.serve()); s::check(y.vote(&p) == Some(l.clone()), "a node votes for an honest proposal, with its transactions at hand"); s::check(x.vote(&p).is_some(), "a node votes for what it proposes"); let r = x.exec(&tip.state, tip.id, x.me, &l); if s::flag("other first") { y.commit(&p); x.commit(&p); } else { x.commit(&p); y.commit(&p); } tip.after(&p, &r)
}
/// a node that fell behind, or was stopped, catches up
#[no_mangle] pub fn co_sync() {
    s::set_clock(77); let (mut x, mut y) = (node(0x11), node(0x22)); let mut tip = Tip::genesis(&x);
    for i in 0..s::pick("together", s::param("together", 1) as usize + 1) { tip = together(&mut x, &mut y, &tip, i as u8); } let m = tip.id - 1; let k = s::pick("alone", s::param("alone", 3) as usize + 1) as u64; for i in 0..k { tip = step(&mut x, &tip, 8 + i as u8); }
    if s::flag("stop and start") { let net = y.net.clone(); drop(y); y = start(0x22, &net); s::check(y.next == m + 1, "a node starts again where it stopped"); s::cover("started again"); }
    y.connect(x.serve()); y.net.take(); let ok = y.hear(x.next); s::check(ok, "an announcement by an honest peer is followed"); let msgs: Vec<_> = y.over.msgs.lock().unwrap().drain(..).collect();
    if k < 2 { s::check(msgs.is_empty() && y.latest().header.epoch_id == m, "a node that is not behind stays as it is"); same_chain(&y, &x, m); if k == 1 { s::end() } } else { s::check(msgs == vec![rich(x.next)], "consensus is told where the node is"); y.next = x.next; same_chain(&y, &x, m + k); s::check(y.latest() == x.latest(), "nodes have the same latest epoch"); s::cover("caught up"); s::check(y.hear(x.next) && y.over.msgs.lock().unwrap().is_empty(), "an announcement repeated changes nothing"); }
    if s::flag("other proposes") { let _ = together(&mut y, &mut x, &tip, 0x40); s::cover("other proposes"); } else { let _ = together(&mut x, &mut y, &tip, 0x40); }
}
/// a proposal by another node that does not fit the chain, or whose transactions are not there, gets no vote
#[no_mangle] pub fn co_vote() {
    s::set_clock(77); let (mut x, mut y) = (node(0x11), node(0x22)); let mut tip = Tip::genesis(&x); if s::flag("second") { tip = together(&mut x, &mut y, &tip, 0); }
    let l = vec![tx(1, 0x60, 7), tx(2, 0x70, 600)]; x.offer(&l); let p = x.propose(); let mut q = p.clone(); y.connect(x.serve()); let what = s::pick("what", 11);
    { let e = &mut q.0.inner.epoch; let other = |h: &Hash| { let k = s::pick("at", 4) * 10; let b = s::u8("byte"); let mut v = h.as_bytes().to_vec(); s::assume(v[k] != b); v[k] = b; Hash::from_bytes(Bytes::from(v)).unwrap() };
      match what { 0 => e.header.pre_hash = other(&e.header.pre_hash), 1 => { let id = s::u64("id"); s::assume(id != e.header.epoch_id); e.header.epoch_id = id; } 2 => e.header.chain_id = other(&e.header.chain_id), 3 => e.header.state_root = other(&e.header.state_root), 4 => e.header.order_root = other(&e.header.order_root),
        5 => match s::pick("list", 4) { 0 => { e.ordered_tx_hashes.pop(); } 1 => e.ordered_tx_hashes.reverse(), 2 => e.ordered_tx_hashes.push(l[0].tx_hash.clone()), _ => e.ordered_tx_hashes.clear() }, 6 => { e.ordered_tx_hashes.push(tx(2, 0x71, 1).tx_hash); e.header.order_root = root(e.ordered_tx_hashes.clone()); }
        7 => y.connect(Arc::new(|_, _| None)), 8 => { let own = y.propose(); q.1 = own.1; } 9 => { let k = s::pick("at", 4) * 10; let b = s::u8("byte"); let mut v = q.1.to_vec(); s::assume(v[k] != b); v[k] = b; q.1 = Bytes::from(v); } _ => {} } }
    if what < 8 { q.1 = digest(&q.0.inner).as_bytes(); } let r = y.vote(&q); if what < 10 { s::check(r.is_none(), "a proposal that does not fit gets no vote"); s::cover("refused"); } else { s::check(r == Some(l.clone()), "a node votes for an honest proposal, with its transactions at hand"); s::cover("honest"); }
    y.connect(x.serve()); s::check(y.vote(&p) == Some(l.clone()), "a node votes for an honest proposal, with its transactions at hand"); x.commit(&p); y.commit(&p); same_chain(&y, &x, tip.id);
}
/// a node synchronizes with a peer that lies
#[no_mangle] pub fn co_hostile() {
    s::set_clock(77); let (mut x, mut y) = (node(0x11), node(0x22)); let mut tip = Tip::genesis(&x); for i in 0..3 { let l = if i == 1 { vec![] } else { vec![tx(1, 0x20 + i, 7), tx(2, 0x30 + i, 600)] }; x.offer(&l); let p = x.propose(); let r = x.exec(&tip.state, tip.id, x.me, &l); x.commit(&p); tip = tip.after(&p, &r); }
    let honest = x.serve(); let h = honest.clone(); let (at, what, other) = (s::pick("request", 6), s::pick("what", 15), s::pick("other", s::param("other", 2) as usize) as u64); let count = Arc::new(Mutex::new(0)); let lied = Arc::new(Mutex::new(false)); let li = lied.clone(); let es: Vec<Epoch> = (0..4).map(|i| x.epoch(i).unwrap()).collect();
    let enc = |mut r: ConsensusRpcResponse| s::block_on(r.encode()).ok();
    y.connect(Arc::new(move |end, req| { let k = { let mut c = count.lock().unwrap(); *c += 1; *c - 1 }; let b = honest(end, req); if k != at { return b; } let r = s::block_on(ConsensusRpcResponse::decode(b.clone().unwrap())).unwrap(); *li.lock().unwrap() = true;
        let ep = |f: &dyn Fn(&mut Epoch)| match &r { ConsensusRpcResponse::PullEpochs(e) => { let mut e = (**e).clone(); f(&mut e); if e == **match &r { ConsensusRpcResponse::PullEpochs(o) => o, _ => unreachable!() } { s::end() } s::cover("wrong epoch"); enc(ConsensusRpcResponse::PullEpochs(Box::new(e))) } _ => s::end() };
        let tx_of = |f: &dyn Fn(&mut Vec<SignedTransaction>)| match &r { ConsensusRpcResponse::PullTxs(t) => { let mut l = t.inner.clone(); f(&mut l); if l == t.inner { s::end() } s::cover("wrong transactions"); enc(ConsensusRpcResponse::PullTxs(Box::new(FixedSignedTxs::new(l)))) } _ => s::end() };
        let oe = es[other as usize].clone();
        match what { 0 => None, 1 => Some(Bytes::new()), 2 => { s::cover("garbage"); Some(Bytes::from(s::bytes("junk", 1 + other as usize))) } 3 => { let mut v = b.unwrap().to_vec(); let n = v.len(); v[n - 1] ^= s::u8("flag"); if v[n - 1] == b'a' || v[n - 1] == b'b' { s::assume(v[n - 1] != match &r { ConsensusRpcResponse::PullEpochs(_) => b'a', _ => b'b' }); } Some(Bytes::from(v)) }
            4 => match &r { ConsensusRpcResponse::PullEpochs(_) => enc(ConsensusRpcResponse::PullTxs(Box::new(FixedSignedTxs::new(vec![])))), _ => enc(ConsensusRpcResponse::PullEpochs(Box::new(oe))) },
            5 => ep(&|e| *e = oe.clone()), 6 => ep(&|e| e.header.pre_hash = oe.header.state_root.clone()), 7 => ep(&|e| { e.header.state_root = oe.header.state_root.clone() }), 8 => ep(&|e| { e.ordered_tx_hashes.pop(); }), 9 => ep(&|e| e.header.epoch_id = other), 10 => tx_of(&|l| { l.pop(); }), 11 => tx_of(&|l| l.reverse()), 12 => tx_of(&|l| l.push(tx(1, 0x50, 1))), 13 => tx_of(&|l| if !l.is_empty() { match other { 0 => l[0].raw.fee.cycle += 1, 1 => { l[0].pubkey = pubkey(2); } 2 => { l[0] = sign(l[0].clone(), 3); } _ => { l[0] = tx(1, 0x51, 8); } } }), _ => Some(b.unwrap().slice_to(3)) } }));
    let r = y.hear(x.next); if !*lied.lock().unwrap() { s::end() } s::check(!r, "a lie stops synchronizing"); let at = y.latest().header.epoch_id; s::check(at < 3, "a lie stops synchronizing"); same_chain(&y, &x, at); s::check(y.over.msgs.lock().unwrap().is_empty(), "consensus is not told of epochs that are not there"); if at > 0 { s::cover("part"); }
    y.connect(h); let net = y.net.clone(); if s::flag("stop and start") { drop(y); y = start(0x22, &net); } s::check(y.hear(x.next), "an announcement by an honest peer is followed"); if at < 2 { same_chain(&y, &x, 3); y.next = x.next; let _ = together(&mut x, &mut y, &tip, 0x40); s::cover("recovered"); }
}
/// any announcement, from a peer that then does not answer
#[no_mangle] pub fn co_announce() {
    s::set_clock(77); let n = node(0x11); let k = s::pick("len", 11); let b = s::bytes("message", k); let r = s::nopanic("an announcement does not panic", || s::block_on(n.con.update_epoch(ctx(), b.clone()))); s::check(n.latest().header.epoch_id == 0 && n.over.msgs.lock().unwrap().is_empty(), "an announcement alone changes nothing"); if k < 8 { s::check(r.is_err(), "a short announcement is refused"); } s::cover(if r.is_ok() { "nothing to do" } else { "refused" }); let p = n.propose(); s::check(n.vote(&p).is_some(), "an announcement alone changes nothing");
}

// ---- committing and synchronizing at once
struct Wait(bool); impl std::future::Future for Wait { type Output = (); fn poll(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context) -> Poll<()> { if self.0 { Poll::Ready(()) } else { self.0 = true; Poll::Pending } } }
/// an adapter that lets other things happen at every call; epochs are executed one after another
struct Slow { epochs: Vec<Epoch>, run: Mutex<Vec<u64>>, saved: Mutex<u64> }
#[async_trait] impl ConsensusAdapter for Slow {
    async fn get_txs_from_mempool(&self, _: Context, _: u64, _: u64) -> ProtocolResult<MixedTxHashes> { Wait(false).await; Ok(MixedTxHashes { order_tx_hashes: vec![], propose_tx_hashes: vec![] }) }
    async fn check_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> { Wait(false).await; Ok(()) }
    async fn sync_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> { Wait(false).await; Ok(()) }
    async fn get_full_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> { Wait(false).await; Ok(vec![]) }
    async fn transmit(&self, _: Context, _: Vec<u8>, _: &str, _: MessageTarget) -> ProtocolResult<()> { Wait(false).await; Ok(()) }
    async fn execute(&self, _: NodeInfo, at: MerkleRoot, id: u64, _: u64, _: Address, _: Vec<SignedTransaction>) -> ProtocolResult<ExecutorExecResp> { Wait(false).await; s::check(at == a::chash(id as u8 - 1), "an epoch is executed on the state after the one before"); self.run.lock().unwrap().push(id); Wait(false).await; Ok(ExecutorExecResp { receipts: vec![], all_cycles_used: vec![], logs_bloom: Bloom::default(), state_root: a::chash(id as u8) }) }
    async fn flush_mempool(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> { Wait(false).await; Ok(()) }
    async fn save_epoch(&self, _: Context, e: Epoch) -> ProtocolResult<()> { Wait(false).await; let mut s = self.saved.lock().unwrap(); s::check(e.header.epoch_id == *s + 1, "epochs are stored in order, once"); *s += 1; Ok(()) }
    async fn save_receipts(&self, _: Context, _: Vec<Receipt>) -> ProtocolResult<()> { Wait(false).await; Ok(()) }
    async fn save_proof(&self, _: Context, _: Proof) -> ProtocolResult<()> { Wait(false).await; Ok(()) }
    async fn save_signed_txs(&self, _: Context, _: Vec<SignedTransaction>) -> ProtocolResult<()> { Wait(false).await; Ok(()) }
    async fn get_last_validators(&self, _: Context, _: u64) -> ProtocolResult<Vec<Validator>> { Ok(validators()) }
    async fn get_current_epoch_id(&self, _: Context) -> ProtocolResult<u64> { let r = *self.saved.lock().unwrap(); Wait(false).await; Ok(r) }
    async fn pull_epoch(&self, _: Context, id: u64, _: &str) -> ProtocolResult<Epoch> { Wait(false).await; Ok(self.epochs[id as usize].clone()) }
    async fn pull_txs(&self, _: Context, _: Vec<Hash>, _: &str) -> ProtocolResult<Vec<SignedTransaction>> { Wait(false).await; Ok(vec![]) }
    async fn get_epoch_by_id(&self, _: Context, id: u64) -> ProtocolResult<Epoch> { Wait(false).await; Ok(self.epochs[id as usize].clone()) }
}
#[no_mangle] pub fn co_race() {
    s::set_clock(77); let n = 3u64; let mut epochs: Vec<Epoch> = vec![];
    for id in 0..=n { let mut e = s::concrete(|| a::epoch(&mut a::Gen::plain(), 0)); e.header.chain_id = chain(); e.header.epoch_id = id; e.header.state_root = a::chash(if id == 0 { 0 } else { id as u8 - 1 }); e.header.order_root = Hash::from_empty(); if id > 0 { e.header.pre_hash = digest(&epochs[id as usize - 1]); } epochs.push(e); }
    let cs = CurrentConsensusStatus { cycles_price: PRICE, cycles_limit: 9, epoch_id: 1, prev_hash: digest(&epochs[0]), logs_bloom: Bloom::default(), order_root: Hash::from_empty(), confirm_root: vec![], state_root: a::chash(0), receipt_root: vec![], cycles_used: 0, proof: epochs[0].header.proof.clone(), validators: validators(), consensus_interval: 3_000 };
    let ad = Arc::new(Slow { epochs: epochs.clone(), run: Mutex::new(vec![]), saved: Mutex::new(0) }); let con = OverlordConsensus::new(cs, NodeInfo { chain_id: chain(), self_address: user(1) }, key(1), ad.clone()); let over = overlord::sim::take::<FixedPill, FixedSignedTxs>();
    let commit = |id: u64| { let pill = FixedPill { inner: Pill { epoch: epochs[id as usize].clone(), propose_hashes: vec![] } }; let h = digest(&pill.inner).as_bytes(); over.engine.commit(ctx(), id, ot::Commit { epoch_id: id, content: pill, proof: proof_of(id, &h) }) };
    let msg = |id: u64| bincode::serialize(&FixedEpochID::new(id)).unwrap(); let kind = s::pick("kind", 3); let steps = s::param("steps", 60);
    let mut fs: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = bool>>>> = vec![]; { let c = commit(1); fs.push(Box::pin(async move { c.await.is_ok() })); } if kind != 2 { let u = con.update_epoch(ctx(), msg(n + 1)); fs.push(Box::pin(async move { u.await.is_ok() })); } if kind == 1 { let u = con.update_epoch(ctx(), msg(3)); fs.push(Box::pin(async move { u.await.is_ok() })); } if kind == 2 { let c = commit(1); fs.push(Box::pin(async move { c.await.is_ok() })); }
    let mut done: Vec<Option<bool>> = vec![None; fs.len()]; for i in 0..=steps { let open: Vec<usize> = (0..fs.len()).filter(|k| done[*k].is_none()).collect(); if open.is_empty() { break; } s::check(i < steps, "everything ends"); let k = open[s::pick("next", open.len())]; if let Poll::Ready(r) = s::nopanic("committing and synchronizing at once does not panic", || s::poll_once(fs[k].as_mut())) { done[k] = Some(r); } }
    let run = ad.run.lock().unwrap().clone(); s::check(run == (1..=run.len() as u64).collect::<Vec<_>>() && *ad.saved.lock().unwrap() == run.len() as u64 && !run.is_empty(), "every epoch is executed and stored once, in order"); if kind == 2 { s::check(done.iter().filter(|d| **d == Some(true)).count() == 1, "an epoch is committed once"); }
    drop(fs); if run.len() < 3 { s::check(s::block_on(commit(run.len() as u64 + 1)).is_ok(), "the next epoch can be committed"); s::cover("committed"); } else { s::cover("synchronized"); }
}

// ---- messages
/// what one node sends for the voting reaches the other's
#[no_mangle] pub fn co_messages() {
    s::set_clock(77); let (x, y) = (node(0x11), node(0x22)); let p = x.propose(); let cut = s::flag("cut"); let (id, round) = if cut { (1, 0x80) } else { let l = [0, 1, 0x7f, 0x80, 1 << 40, u64::max_value()]; (l[s::pick("id", 6)], l[s::pick("round", 6)]) }; let sig = Bytes::from([&[0x91][..], &[][..], &[0x7f, 0x80][..]][s::pick("signature", 3)]); let h = p.1.clone();
    let (msg, kind) = match s::pick("kind", 3) { 0 => (ot::OverlordMsg::SignedProposal(ot::SignedProposal { signature: sig, proposal: ot::Proposal { epoch_id: id, round, content: p.0.clone(), epoch_hash: h, proposer: user(0x11).as_bytes() } }), 0), 1 => (ot::OverlordMsg::AggregatedVote(ot::AggregatedVote { signature: ot::AggregatedSignature { signature: sig, address_bitmap: Bytes::from(vec![1]) }, epoch_id: id, round, epoch_hash: h, leader: user(0x11).as_bytes() }), 1), _ => (ot::OverlordMsg::SignedVote(ot::SignedVote { signature: sig, vote: ot::Vote { epoch_id: id, round, epoch_hash: h, voter: user(0x11).as_bytes() } }), 2) };
    let r = if kind == 2 { s::block_on(x.over.engine.transmit_to_relayer(ctx(), user(0x22).as_bytes(), msg.clone())) } else { s::block_on(x.over.engine.broadcast_to_other(ctx(), msg.clone())) }; s::check(r.is_ok(), "a message is sent"); let out = x.net.take(); s::check(out.len() == 1 && out[0].2 == if kind == 2 { Some(user(0x22)) } else { None }, "votes go to the relayer, proposals and certificates to all"); s::check(out[0].0 == [END_GOSSIP_SIGNED_PROPOSAL, END_GOSSIP_AGGREGATED_VOTE, END_GOSSIP_SIGNED_VOTE][kind], "a message goes to its endpoint");
    let b = out[0].1.clone(); let bytes = if cut { let n = s::pick("len", 6) * 4; s::cover("cut"); Bytes::from(&b[..n]) } else { b.clone() }; let whole = bytes == b;
    macro_rules! to { ($h:ident, $m:ident) => { match s::block_on($m::decode(bytes)) { Ok(m) => s::nopanic("receiving a message does not panic", || s::block_on($h::new(y.con.clone()).process(ctx(), m))).is_ok(), Err(_) => false } } }
    let r = match kind { 0 => to!(ProposalMessageHandler, Proposal), 1 => to!(QCMessageHandler, QC), _ => to!(VoteMessageHandler, Vote) }; s::check(r == whole, "a whole message is received"); let got = y.over.msgs.lock().unwrap().clone(); s::check(got == if whole { vec![msg] } else { vec![] }, "a message reaches consensus as it was sent"); if whole { s::cover("received"); }
    if kind == 2 && whole { let n = s::pick("short", 24); let r = s::nopanic("an address of another length does not panic", || s::block_on(x.over.engine.transmit_to_relayer(ctx(), Bytes::from(vec![0x10; n]), got_vote(&y)))); s::check(r.is_ok() == (n == 21), "a vote is sent to an address"); }
}
fn got_vote(y: &Node) -> ot::OverlordMsg<FixedPill> { y.over.msgs.lock().unwrap()[0].clone() }
fn req_eq(a: &ConsensusRpcRequest, b: &ConsensusRpcRequest) -> bool { match (a, b) { (ConsensusRpcRequest::PullEpochs(x), ConsensusRpcRequest::PullEpochs(y)) => x == y, (ConsensusRpcRequest::PullTxs(x), ConsensusRpcRequest::PullTxs(y)) => x.inner == y.inner, _ => false } }
/// requests and answers survive their encodings; malformed ones fail cleanly
#[no_mangle] pub fn co_codec() {
    let n = s::pick("n", 3); let hostile = |b: Bytes| { let b = match s::pick("hostile", 4) { 0 => b, 1 => { let k = s::pick("cut", b.len() / 8 + 1); Bytes::from(&b[..(k * 8).min(b.len() - 1)]) } 2 => { let k = s::pick("at", b.len() / 8 + 1) * 8; let mut v = b.to_vec(); if k < v.len() { v[k] = s::u8("byte"); } Bytes::from(v) } _ => { let k = s::pick("junk", 4); Bytes::from(s::bytes("junk", k)) } }; b };
    let t: Vec<SignedTransaction> = (0..n).map(|i| tx(1, i as u8 + 1, 5)).collect();
    match s::pick("what", 5) {
        0 => { let mut q = ConsensusRpcRequest::PullEpochs(s::u64("id")); let b = s::block_on(q.encode()).unwrap(); let r = s::block_on(ConsensusRpcRequest::decode(b)).unwrap(); s::check(req_eq(&q, &r), "a request survives its encoding"); s::cover("request"); }
        1 => { let mut q = ConsensusRpcRequest::PullTxs(PullTxsRequest::new((0..n).map(|_| a::hash("h")).collect())); let b = s::block_on(q.encode()).unwrap(); let c = hostile(b.clone()); let same = c.len() == b.len() && s::same(&c, &b); let r = s::nopanic("a malformed request does not panic", || s::block_on(ConsensusRpcRequest::decode(c))); if same { s::check(r.is_ok() && req_eq(&q, &r.unwrap()), "a request survives its encoding"); } }
        2 => { let e = s::concrete(|| a::epoch(&mut a::Gen::plain(), n)); let mut q = ConsensusRpcResponse::PullEpochs(Box::new(e)); let b = s::block_on(q.encode()).unwrap(); let c = hostile(b.clone()); let same = s::same(&c, &b); let r = s::nopanic("a malformed answer does not panic", || s::block_on(ConsensusRpcResponse::decode(c))); if same { s::check(r.ok() == Some(q), "an answer survives its encoding"); s::cover("epochs"); } }
        3 => { let mut q = ConsensusRpcResponse::PullTxs(Box::new(FixedSignedTxs::new(t))); let b = s::block_on(q.encode()).unwrap(); let c = hostile(b.clone()); let same = s::same(&c, &b); let r = s::nopanic("a malformed answer does not panic", || s::block_on(ConsensusRpcResponse::decode(c))); if same { s::check(r.ok() == Some(q), "an answer survives its encoding"); s::cover("transactions"); } }
        _ => { let q = FixedSignedTxs::new(t); let b = Codec::encode(&q).ok().unwrap(); let c = hostile(b.clone()); let same = s::same(&c, &b); let r = s::nopanic("malformed transactions do not panic", || <FixedSignedTxs as Codec>::decode(c)); if same { s::check(r.ok() == Some(q), "transactions survive their encoding"); s::cover("list"); } }
    }
}
/// signatures of votes and proposals
#[no_mangle] pub fn co_crypto() {
    let c = OverlordCrypto::new(key(7).pub_key(), key(7)); let h = c.hash(Bytes::from(s::bytes("text", 3))); s::check(h.len() == 32, "a digest has 32 bytes"); let h2 = c.hash(Bytes::from(s::bytes("other", 3))); let sig = c.sign(h.clone()).ok().unwrap();
    match s::pick("what", 5) {
        0 => { let r = c.verify_signature(sig, h); s::check(r.ok() == Some(user(7).as_bytes()), "a signature leads to its signer's address"); s::cover("valid"); }
        1 => { let k = s::pick("at", sig.len()); let b = s::u8("byte"); let mut v = sig.to_vec(); let same = v[k] == b; v[k] = b; let r = s::nopanic("checking a signature does not panic", || c.verify_signature(Bytes::from(v), h)); if k > 0 { s::check(r.is_ok() == same, "a signature that was changed is refused"); } s::cover("changed"); }
        2 => { let n = s::pick("len", 100); let mut v = sig.to_vec(); v.resize(n, 0); let r = s::nopanic("checking a signature does not panic", || c.verify_signature(Bytes::from(v), h)); s::check(r.is_ok() == (n == sig.len()), "a signature of another length is refused"); s::cover("length"); }
        3 => { let same = s::same(&h, &h2); let r = c.verify_signature(sig, h2); s::check(r.is_ok() == same, "a signature is of one text"); s::cover("text"); }
        _ => { let n = s::pick("len", 40); let r = s::nopanic("signing does not panic", || c.sign(Bytes::from(vec![1; n]))); s::check(r.is_ok() == (n == 32), "only digests are signed"); s::cover("sign"); }
    }
}
s::entries!(co_chain, co_crash, co_sync, co_vote, co_hostile, co_announce, co_race, co_messages, co_codec, co_crypto);
