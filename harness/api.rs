//! The GraphQL service: what it answers, and what it hands to the pool.
//@ deps: protocol bytes num_bigint serde_json core_api core_storage core_executor rocksdb cita_trie common_crypto async_trait tide
use anyval as a;
use async_trait::async_trait;
use bytes::Bytes;
use common_crypto::{Crypto, PrivateKey, PublicKey, Secp256k1, Secp256k1PrivateKey};
use core_api::adapter::DefaultAPIAdapter;
use core_api::config::GraphQLConfig;
use core_executor::trie::{MPTTrie, RocksTrieDB};
use core_executor::TransactionExecutorFactory as F;
use core_storage::adapter::memory::MemoryAdapter;
use core_storage::ImplStorage;
use num_bigint::BigUint;
use protocol::fixed_codec::ProtocolFixedCodec;
use protocol::traits::*;
use protocol::types::*;
use protocol::{ProtocolError, ProtocolErrorKind, ProtocolResult};
use serde_json::{Map, Value};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use symrt as s;

#[derive(Debug)] struct Down; impl std::fmt::Display for Down { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "down") } } impl std::error::Error for Down {}
fn down<T>() -> ProtocolResult<T> { Err(ProtocolError::new(ProtocolErrorKind::Mempool, Box::new(Down))) }
/// a pool that keeps what it is given, or refuses
#[derive(Default)] struct Pool { got: Mutex<Vec<SignedTransaction>>, refuses: bool }
#[async_trait] impl MemPool for Pool {
    async fn insert(&self, _: Context, tx: SignedTransaction) -> ProtocolResult<()> { if self.refuses { return down(); } self.got.lock().unwrap().push(tx); Ok(()) }
    async fn package(&self, _: Context, _: u64) -> ProtocolResult<MixedTxHashes> { down() }
    async fn flush(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> { down() }
    async fn get_full_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> { down() }
    async fn ensure_order_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> { down() }
    async fn sync_propose_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> { down() }
}
type Store = ImplStorage<MemoryAdapter>;
struct Node { server: tide::Server, store: Arc<Store>, pool: Arc<Pool>, db: Arc<RocksTrieDB>, uri: String }
fn node(refuses: bool) -> Node {
    let db = Arc::new(RocksTrieDB::new("state", false).unwrap()); let store = Arc::new(Store::new(Arc::new(MemoryAdapter::new()))); let pool = Arc::new(Pool { refuses, ..Pool::default() });
    let mut cfg = GraphQLConfig::default(); cfg.listening_address = "127.0.0.1:1234".parse().unwrap(); let uri = "/q".to_owned(); cfg.graphql_uri = uri.clone(); cfg.graphiql_uri = "/ui".to_owned();
    s::block_on(core_api::start_graphql(cfg, DefaultAPIAdapter::<F, _, _, _>::new(pool.clone(), store.clone(), db.clone())));
    let server = tide::sim::server(); s::check(server.is_some(), "the service is started"); let server = server.unwrap(); s::check(server.addr == "127.0.0.1:1234".parse().unwrap(), "the service listens where it was told"); Node { server, store, pool, db, uri }
}
fn obj(v: Vec<(&str, Value)>) -> Value { let mut m = Map::new(); for (k, v) in v { m.insert(k.to_owned(), v); } Value::Object(m) }
fn text(t: &str) -> Value { Value::String(t.to_owned()) }
impl Node {
    /// the data of an answer, or none for an error
    fn ask(&self, field: &str, vars: Value) -> Option<Value> {
        s::nopanic("a request does not bring the service down", || { let f = (self.server.send)("POST", &self.uri, obj(vec![("query", text(field)), ("variables", vars)])); s::check(f.is_some(), "requests are answered where they were told to"); let r = s::block_on(f.unwrap()); let st = r.status().as_u16();
            match r.into_body() { tide::Body::Json(Value::Object(mut m)) => { let d = m.remove("data"); s::check(d.is_some() != m.contains_key("errors"), "an answer is data or an error"); s::check(st == if d.is_some() { 200 } else { 400 }, "the status tells an error"); d } _ => { s::check(st == 400, "the status tells an error"); None } } })
    }
    fn taken(&self) -> Vec<SignedTransaction> { self.pool.got.lock().unwrap().clone() }
}
fn hexed(b: &[u8]) -> String { String::from_utf8(b.iter().flat_map(|x| vec![x >> 4, x & 15]).map(|d| d.wrapping_add(b'0').wrapping_add((d.wrapping_add(6) >> 4).wrapping_mul(39))).collect()).unwrap() }
/// as it may be written: with or without 0x
fn written(b: &[u8], zx: bool) -> Value { Value::String(if zx { format!("0x{}", hexed(b)) } else { hexed(b) }) }
fn is(v: Option<&Value>, b: &[u8]) -> bool { match v { Some(Value::String(t)) => t.len() == 2 * b.len() && s::same(&t.as_bytes().to_vec(), &hexed(b).into_bytes()), _ => false } }
/// of the fields that arrive as text, one is arbitrary at a time
static FOCUS: AtomicUsize = AtomicUsize::new(0); static NEXT: AtomicUsize = AtomicUsize::new(0);
fn focus(n: usize) -> usize { let f = s::pick("focus", n); FOCUS.store(f, SeqCst); NEXT.store(0, SeqCst); f }
fn one(name: &str) -> u8 { let k = NEXT.fetch_add(1, SeqCst); if k == FOCUS.load(SeqCst) { s::u8(name) } else { 0xa0 + k as u8 } }
fn in_hash(name: &str, k: u8) -> Hash { let mut b = vec![k; 32]; b[3] = one(name); Hash::from_bytes(Bytes::from(b)).unwrap() }
fn in_user(name: &str, k: u8) -> UserAddress { let mut b = vec![k; 21]; b[0] = 0x10; b[9] = one(name); UserAddress::from_bytes(Bytes::from(b)).unwrap() }
/// 32 bytes, some of them arbitrary
fn some_hash(name: &str, k: u8) -> Hash { let mut b = vec![k; 32]; b[0] = s::u8(name); b[31] = b[0] ^ 0x5a; Hash::from_bytes(Bytes::from(b)).unwrap() }
fn some_user(name: &str, k: u8) -> UserAddress { let mut b = vec![k; 21]; b[0] = 0x10; b[1] = s::u8(name); b[20] = 3; UserAddress::from_bytes(Bytes::from(b)).unwrap() }
/// a large number, partly arbitrary (its length in the store is always the same)
fn high(name: &str) -> u64 { let b = s::bytes(name, 2); (0x8000_0000_0000_0000 + (u64::from(b[0]) << 40)) + u64::from(b[1]) }
fn epoch(id: u64, k: u8) -> Epoch {
    let mut e = s::concrete(|| a::epoch(&mut a::Gen::plain(), 0)); let h = &mut e.header; h.chain_id = some_hash("chain", k); h.epoch_id = id; h.pre_hash = some_hash("prev", k + 1); h.timestamp = high("time"); h.order_root = some_hash("order", k + 2); h.state_root = some_hash("state", k + 3); h.cycles_used = high("cycles"); h.proposer = some_user("proposer", k + 4); h.validator_version = high("version");
    let (x, y, z) = [(0, 1, 2), (2, 0, 1), (1, 2, 0)][s::pick("lists", 3)]; h.confirm_root = (0..x).map(|i| some_hash("confirm", k + 5 + i as u8)).collect(); h.receipt_root = (0..y).map(|i| some_hash("receipt", k + 8 + i as u8)).collect(); e.ordered_tx_hashes = (0..z).map(|i| some_hash("tx", k + 11 + i as u8)).collect(); e
}
/// the latest epoch, or the one asked for, as it is
#[no_mangle] pub fn ap_epoch() {
    let n = node(false); let id = [4u64, 0xfe, u64::max_value() - 1][s::pick("id", 3)];
    if s::flag("nothing") { s::check(n.ask("getLatestEpoch", obj(vec![])).is_none(), "an epoch that is not there is an error"); s::cover("nothing"); s::end(); }
    let es = vec![epoch(id, 20), { let mut e = s::concrete(|| a::epoch(&mut a::Gen::plain(), 1)); e.header.epoch_id = id + 1; e }]; let which = s::pick("which", 4);
    for e in if which == 0 { &es[..1] } else { &es[..] } { s::block_on(n.store.insert_epoch(e.clone())).unwrap(); }
    let b = match which { 0 | 1 => id, 2 => id + 1, _ => id ^ 0x0f00_0000 }.to_be_bytes(); let form = s::pick("form", 4);
    let vars = if which == 0 { s::cover("latest"); obj(vec![]) } else { let mut t = hexed(&b); if form == 1 { t = t.trim_start_matches('0').to_owned(); } if form == 2 { t = t.to_uppercase(); } obj(vec![("epochId", Value::String(if form % 2 == 1 { format!("0x{}", t) } else { t }))]) };
    let r = n.ask("getLatestEpoch", vars); if which == 3 { s::check(r.is_none(), "an epoch that is not there is an error"); s::cover("unknown"); s::end(); }
    let r = r.unwrap_or(Value::Null); let e = &es[if which == 2 { 1 } else { 0 }]; let h = &e.header; let g = &r["header"];
    s::check(is(g.get("epochId"), &h.epoch_id.to_be_bytes()), "the epoch asked for is answered");
    s::check(is(g.get("chainId"), &h.chain_id.as_bytes()) && is(g.get("preHash"), &h.pre_hash.as_bytes()) && is(g.get("orderRoot"), &h.order_root.as_bytes()) && is(g.get("stateRoot"), &h.state_root.as_bytes()), "an epoch is answered as it is");
    s::check(is(g.get("timestamp"), &h.timestamp.to_be_bytes()) && is(g.get("cyclesUsed"), &h.cycles_used.to_be_bytes()) && is(g.get("validatorVersion"), &h.validator_version.to_be_bytes()) && is(g.get("proposer"), &h.proposer.as_bytes()), "an epoch is answered as it is");
    for (v, l) in vec![(g.get("confirmRoot"), &h.confirm_root), (g.get("receiptRoot"), &h.receipt_root), (r.get("orderedTxHashes"), &e.ordered_tx_hashes)] { match v { Some(Value::Array(v)) => { s::check(v.len() == l.len(), "an epoch's lists are answered whole"); for (x, y) in v.iter().zip(l) { s::check(is(Some(x), &y.as_bytes()), "an epoch's lists are answered in order"); } } _ => s::check(false, "an epoch's lists are answered whole") } }
    s::cover("epoch");
}
fn info(b: &BigUint) -> AssetInfo { AssetInfo { balance: b.clone(), approved: BTreeMap::new() } }
fn contracts() -> (Address, Address) { (Address::from_hex("23c000000000000000000000000000000000000001").unwrap(), Address::from_hex("230000000000000000000000000000000000000002").unwrap()) }
/// a state in which a user and a contract hold something
fn state(db: &Arc<RocksTrieDB>, u: &BigUint, c: &BigUint) -> Hash {
    let mut t = MPTTrie::new(db.clone()); let mut m = BTreeMap::new(); m.insert(a::chash(0x50), info(u)); m.insert(a::chash(0x51), info(&BigUint::from(7u64))); t.insert(Address::User(a::cuser(1)).encode_fixed().unwrap(), Account::User(UserAccount { nonce: 3, assets: m }).encode_fixed().unwrap()).unwrap();
    let mut m = BTreeMap::new(); m.insert(a::chash(0x50), ContractAssetLike(c)); t.insert(Address::Contract(a::contract_of(2)).encode_fixed().unwrap(), Account::Contract(ContractAccount { nonce: 3, assets: m, storage_root: Hash::from_empty() }).encode_fixed().unwrap()).unwrap();
    let ra = t.commit().unwrap(); let mut t = MPTTrie::new(db.clone()); let rb = t.commit().unwrap(); let mut t = MPTTrie::new(db.clone()); t.insert(contracts().0.as_bytes(), ra.as_bytes()).unwrap(); t.insert(contracts().1.as_bytes(), rb.as_bytes()).unwrap(); t.commit().unwrap()
}
#[allow(non_snake_case)] fn ContractAssetLike(b: &BigUint) -> BigUint { b.clone() }
/// balances at the epoch asked for
#[no_mangle] pub fn ap_balance() {
    let n = node(false); let big = |name: &str, w: usize| { let mut b = vec![0x77u8; w]; if w > 0 { b[0] = s::u8(name); s::assume(b[0] > 0); } BigUint::from_bytes_be(&b) };
    let width = [1usize, 2, 9, 40][s::pick("width", 4)]; let (u1, u2, c1, c2) = (big("u1", width), big("u2", 2), big("c1", 1), big("c2", 3)); let mut eps = vec![];
    for (i, (u, c)) in [(&u1, &c1), (&u2, &c2)].iter().enumerate() { let mut e = s::concrete(|| a::epoch(&mut a::Gen::plain(), 1)); e.header.epoch_id = 7 + i as u64; e.header.state_root = state(&n.db, u, c); s::block_on(n.store.insert_epoch(e.clone())).unwrap(); eps.push(e); }
    let (who, at, asset) = (s::pick("who", 3), s::pick("at", 3), s::pick("asset", 3)); let zx = s::flag("0x");
    let w = match who { 0 => Address::User(a::cuser(1)), 1 => Address::Contract(a::contract_of(2)), _ => Address::User(a::cuser(9)) };
    let mut v = vec![("address", written(&w.as_bytes(), zx)), ("id", written(&a::chash(0x50 + asset as u8).as_bytes(), zx))]; if at < 2 { v.push(("epochId", text(if at == 0 { "7" } else { "0x8" }))); }
    let first = at == 0; let zero = BigUint::from(0u64); let seven = BigUint::from(7u64);
    let want = match (who, asset) { (0, 0) => if first { &u1 } else { &u2 }, (0, 1) => &seven, (1, 0) => if first { &c1 } else { &c2 }, _ => &zero };
    let r = n.ask("getBalance", obj(v)); s::check(is(r.as_ref(), &want.to_bytes_be()), "a balance is what the account holds at the epoch asked for"); s::cover(if *want == zero { "none" } else if at == 2 { "latest" } else { "given epoch" });
}
struct Given { chain: Hash, cycle: u64, asset: Hash, nonce: Hash, timeout: u64 }
fn given() -> Given { Given { chain: in_hash("chain", 0x31), cycle: (u64::from(one("cycle")) << 32) + 0x9a, asset: in_hash("asset", 0x32), nonce: in_hash("nonce", 0x33), timeout: (u64::from(one("timeout")) << 56) + 0xfb } }
impl Given { fn vars(&self, zx: bool) -> Vec<(&'static str, Value)> { vec![("chainId", written(&self.chain.as_bytes(), zx)), ("feeCycle", written(&self.cycle.to_be_bytes(), zx)), ("feeAssetId", written(&self.asset.as_bytes(), zx)), ("nonce", written(&self.nonce.as_bytes(), zx)), ("timeout", written(&self.timeout.to_be_bytes(), zx))] } }
/// a transaction handed in reaches the pool as it was given, signed by its sender or by the key that came with it
#[no_mangle] pub fn ap_submit() {
    let (deploy, unsafely) = (s::flag("deploy"), s::flag("unsafe")); let f = focus(5 + if deploy { 1 } else { 3 } + if unsafely { 1 } else { 3 }); let zx = s::flag("0x"); let refuses = f == 0 && s::flag("refuses"); let more = f >= 5; let n = node(refuses); let g = given();
    let (av, action) = if deploy {
        let c = one("code"); let code = [Bytes::from(vec![c, 0x0d]), Bytes::new(), Bytes::from(vec![0xef; 70])][if more { s::pick("code", 3) } else { 0 }].clone(); let k = s::pick("type", 3);
        (vec![("code", written(&code, zx)), ("contractType", text(["ASSET", "APP", "LIBRARY"][k]))], TransactionAction::Deploy { code, contract_type: [ContractType::Asset, ContractType::App, ContractType::Library][k].clone() })
    } else {
        let (to, id) = (in_user("to", 0x34), in_hash("carried", 0x35)); let mut amount = vec![0x88; [9usize, 1, 0, 33][if more { s::pick("width", 4) } else { 0 }]]; let x = one("amount"); if !amount.is_empty() { amount[0] = x; }
        (vec![("carryingAmount", written(&amount, zx)), ("carryingAssetId", written(&id.as_bytes(), zx)), ("receiver", written(&to.as_bytes(), zx))], TransactionAction::Transfer { receiver: to, carrying_asset: CarryingAsset { asset_id: id, amount: BigUint::from_bytes_be(&amount) } })
    };
    let raw = RawTransaction { chain_id: g.chain.clone(), nonce: g.nonce.clone(), timeout: g.timeout, fee: Fee { asset_id: g.asset.clone(), cycle: g.cycle }, action }; let mut v = vec![("inputRaw", obj(g.vars(zx))), ("inputAction", obj(av))];
    let (field, want) = if unsafely {
        let mut key = vec![0x41u8; 32]; key[0] = one("key"); v.push(("inputPrivkey", written(&key, zx))); let h = Hash::digest(raw.encode_fixed().unwrap()); let key = Secp256k1PrivateKey::try_from(key.as_slice()).unwrap();
        (if deploy { "sendUnsafeDeployTransaction" } else { "sendUnsafeTransferTransaction" }, SignedTransaction { raw, pubkey: key.pub_key().to_bytes(), tx_hash: h, signature: Bytes::new() })
    } else {
        let (h, p, sig) = (in_hash("hash", 0x36), { let mut p = vec![2u8; 33]; p[1] = one("pubkey"); p }, { let mut p = vec![9u8; 64]; p[63] = one("signature"); p }); v.push(("inputEncryption", obj(vec![("txHash", written(&h.as_bytes(), zx)), ("pubkey", written(&p, zx)), ("signature", written(&sig, zx))])));
        (if deploy { "sendDeployTransaction" } else { "sendTransferTransaction" }, SignedTransaction { raw, tx_hash: h, pubkey: Bytes::from(p), signature: Bytes::from(sig) })
    };
    let r = n.ask(field, obj(v)); let got = n.taken();
    if refuses { s::check(r.is_none(), "a transaction the pool refuses is refused"); s::check(got.is_empty(), "setup"); s::cover("refused"); s::end(); }
    s::check(r.is_some() && got.len() == 1, "a transaction handed in reaches the pool once"); let t = &got[0];
    s::check(t.raw == want.raw, "a transaction reaches the pool as it was given"); s::check(t.tx_hash == want.tx_hash && t.pubkey == want.pubkey, "a transaction reaches the pool with its hash and its sender");
    if unsafely { s::check(Secp256k1::verify_signature(&t.tx_hash.as_bytes(), &t.signature, &t.pubkey).is_ok(), "a transaction is signed by the key that came with it"); s::cover("signed here"); } else { s::check(t.signature == want.signature, "a signature reaches the pool as it was given"); s::cover("signed before"); }
    let r = r.unwrap(); let r = match &r { Value::String(t) if t.starts_with("0x") => text(&t[2..]), _ => r }; s::check(is(Some(&r), &want.tx_hash.as_bytes()), "the answer is the transaction's hash"); s::cover(if deploy { "deploy" } else { "transfer" });
}
/// one of the texts is not what it should be: refused, and nothing reaches the pool
#[no_mangle] pub fn ap_malformed() {
    let n = node(false); let deploy = s::flag("deploy"); let g = Given { chain: a::chash(1), cycle: 9, asset: a::chash(2), nonce: a::chash(3), timeout: 77 }; let which = s::pick("which", if deploy { 9 } else { 11 });
    let junk: Value = match if deploy && which < 5 { 1 + s::pick("junk", 7) } else { s::pick("junk", 8) } { 6 => text("0xabc"), 7 => text("+5"), 0 => { let b = s::bytes_upto("text", 1, s::param("chars", 2) as usize); for c in &b { s::assume(*c < 0x80); } Value::String(String::from_utf8(b).unwrap()) } 1 => text("0x"), 2 => text(""), 3 => text("\u{706b}\u{5e01}x"), 4 => Value::Null, _ => Value::String(format!("{}g", hexed(&[0xabu8; 31]))) };
    // what may be meant all the same
    let fits = match &junk { Value::String(t) => { let b = t.as_bytes().to_vec(); let d = if b.len() >= 2 && b[0] == b'0' && b[1] == b'x' { b[2..].to_vec() } else { b }; let hex = d.iter().all(|c| c.is_ascii_hexdigit()); let number = !d.is_empty() && (hex || (d[0] == b'+' && d.len() > 1 && d[1..].iter().all(|c| c.is_ascii_hexdigit()))); (number, hex && d.len() % 2 == 0) } _ => (false, false) };
    let mut i = 0; let mut put = |k: &'static str, v: Value| { let x = if i == which { junk.clone() } else { v }; i += 1; (k, x) };
    let h = |k: u8| written(&a::chash(k).as_bytes(), true); let raw = obj(vec![put("chainId", h(1)), put("feeAssetId", h(2)), put("nonce", h(3)), put("feeCycle", text("9")), put("timeout", text("0x4d"))]); let enc = obj(vec![put("txHash", h(4)), put("pubkey", text("0102")), put("signature", text("03"))]);
    let act = if deploy { obj(vec![put("code", text("aa")), ("contractType", text("ASSET"))]) } else { obj(vec![put("carryingAmount", text("0x10")), put("carryingAssetId", h(5)), put("receiver", written(&a::cuser(6).as_bytes(), true))]) };
    let r = n.ask(if deploy { "sendDeployTransaction" } else { "sendTransferTransaction" }, obj(vec![("inputRaw", raw), ("inputAction", act), ("inputEncryption", enc)]));
    let ok = match which { 3 | 4 => fits.0, 6 | 7 | 8 => fits.1, _ => false }; let _ = g;
    s::check(r.is_some() == ok, "malformed text is refused, and only that"); s::check(n.taken().len() == ok as usize, "what is refused does not reach the pool"); s::cover(if ok { "readable" } else { "refused" });
}
/// queries with malformed text
#[no_mangle] pub fn ap_malformed_query() {
    let n = node(false); let mut e = s::concrete(|| a::epoch(&mut a::Gen::plain(), 1)); e.header.epoch_id = 5; e.header.state_root = state(&n.db, &BigUint::from(3u64), &BigUint::from(4u64)); s::block_on(n.store.insert_epoch(e)).unwrap(); let what = s::pick("what", 3);
    let junk = match s::pick("junk", 4) { 0 => { let b = s::bytes("text", 2); for c in &b { s::assume(s::and(*c < 0x80, *c != b'5')); } String::from_utf8(b).unwrap() } 1 => "0x".to_owned(), 2 => "\u{1f600}".to_owned(), _ => hexed(&[1u8; 40]) };
    let (user, id) = (written(&a::cuser(1).as_bytes(), false), written(&a::chash(0x50).as_bytes(), false));
    let r = match what { 0 => n.ask("getLatestEpoch", obj(vec![("epochId", Value::String(junk))])), 1 => n.ask("getBalance", obj(vec![("address", Value::String(junk)), ("id", id)])), _ => n.ask("getBalance", obj(vec![("address", user), ("id", Value::String(junk))])) };
    s::check(r.is_none(), "a malformed query is an error"); s::check(n.ask("getNothing", obj(vec![])).is_none(), "a malformed query is an error"); s::cover(["epoch", "address", "asset"][what]);
}
s::entries!(ap_epoch, ap_balance, ap_submit, ap_malformed, ap_malformed_query);
