//! The executor: blocks of transactions run from an arbitrary state, compared with a reference ledger.
//@ deps: protocol bytes num_bigint core_executor rocksdb cita_trie serde_json
use bytes::Bytes;
use core_executor::trie::{MPTTrie, RocksTrieDB};
use core_executor::TransactionExecutorFactory as F;
use num_bigint::BigUint;
use protocol::fixed_codec::ProtocolFixedCodec;
use protocol::traits::executor::{Executor, ExecutorExecResp, ExecutorFactory};
use protocol::types::*;
use std::collections::BTreeMap;
use std::sync::Arc;
use symrt as s;
use anyval as a;

type Db = Arc<RocksTrieDB>;
const EPOCH: u64 = 0x8000_0001_0000_0007;
fn users() -> &'static [usize] { &USERS }
fn open() -> Db { Arc::new(RocksTrieDB::new("state", false).unwrap()) }
fn account_contract() -> Address { Address::from_hex("23c000000000000000000000000000000000000001").unwrap() }
fn bank_contract() -> Address { Address::from_hex("230000000000000000000000000000000000000002").unwrap() }
fn chain() -> Hash { a::chash(0xc1) }
/// users 0 and 1 have accounts, 2 and 3 have none; the keys are fixed
fn pubkey(u: usize) -> Bytes { Bytes::from(vec![u as u8 + 3; 33]) }
fn ua(u: usize) -> UserAddress { UserAddress::from_pubkey_bytes(pubkey(u)).unwrap() }
fn addr(u: usize) -> Address { if u == 4 { Address::Contract(a::contract_of(0)) } else { Address::User(ua(u)) } }
/// assets 0 and 1 are registered, 2 is not
fn asset(k: usize) -> Hash { a::chash(0x50 + k as u8) }
fn big(n: u64) -> BigUint { BigUint::from(n) }
fn one(b: &[u8]) -> BigUint { BigUint::from_bytes_be(b) }

#[derive(Clone)]
struct Ledger { acc: BTreeMap<usize, UserAccount>, assets: BTreeMap<Hash, Asset> }
impl Ledger {
    fn bal(&self, u: usize, id: &Hash) -> Option<BigUint> { self.acc.get(&u).and_then(|x| x.assets.get(id)).map(|i| i.balance.clone()) }
    fn add(&mut self, u: usize, id: &Hash, n: &BigUint) {
        let x = self.acc.entry(u).or_insert(UserAccount { nonce: 0, assets: BTreeMap::new() });
        x.assets.entry(id.clone()).or_insert(AssetInfo { balance: big(0), approved: BTreeMap::new() }).balance += n.clone();
    }
    fn sub(&mut self, u: usize, id: &Hash, n: &BigUint) { let i = self.acc.get_mut(&u).unwrap().assets.get_mut(id).unwrap(); i.balance -= n.clone() }
}
fn bank_entry(k: usize) -> Asset { Asset { id: asset(k), name: "n".to_owned(), symbol: "s".to_owned(), supply: big(1000), manage_contract: a::contract_of(k as u8), storage_root: Hash::from_empty() } }
/// an arbitrary state: user 0 holds assets 0 (with an approval on it) and 1, user 1 holds asset 0
fn start() -> Ledger {
    let mut l = Ledger { acc: BTreeMap::new(), assets: BTreeMap::new() };
    let mut b0 = one(&s::bytes("balance0", 1)); if s::param("wide", 0) > 0 && s::flag("big") { b0 += big(1) << if s::param("wide", 0) == 1 { 64 } else { 500 }; }
    let mut approved = BTreeMap::new(); approved.insert(a::contract_of(9), ApprovedInfo { max: big(9), used: big(3) });
    let mut m = BTreeMap::new(); m.insert(asset(0), AssetInfo { balance: b0, approved }); m.insert(asset(1), AssetInfo { balance: big(5), approved: BTreeMap::new() });
    if s::param("stray", 0) == 1 && s::flag("stray") { m.insert(asset(2), AssetInfo { balance: big(60), approved: BTreeMap::new() }); }
    let n = s::u8("nonce0"); s::assume(n < 0x7b); s::assume(n > 0);
    l.acc.insert(0, UserAccount { nonce: u64::from(n), assets: m });
    let b1 = s::u8("balance1"); s::assume(s::and(b1 > 0, b1 < 0x7f));
    let mut m = BTreeMap::new(); m.insert(asset(0), AssetInfo { balance: big(u64::from(b1)), approved: BTreeMap::new() });
    l.acc.insert(1, UserAccount { nonce: 0, assets: m });
    for k in 0..2 { l.assets.insert(asset(k), bank_entry(k)); }
    l
}
fn write(db: &Db, l: &Ledger) -> Hash {
    let mut t = MPTTrie::new(Arc::clone(db)); for (u, x) in &l.acc { t.insert(addr(*u).encode_fixed().unwrap(), Account::User(x.clone()).encode_fixed().unwrap()).unwrap(); }
    let ra = t.commit().unwrap();
    let mut t = MPTTrie::new(Arc::clone(db)); for (id, x) in &l.assets { t.insert(id.encode_fixed().unwrap(), x.encode_fixed().unwrap()).unwrap(); }
    let rb = t.commit().unwrap();
    let mut t = MPTTrie::new(Arc::clone(db)); t.insert(account_contract().as_bytes(), ra.as_bytes()).unwrap(); t.insert(bank_contract().as_bytes(), rb.as_bytes()).unwrap();
    t.commit().unwrap()
}
fn sub_trie(db: &Db, root: &Hash, c: Address) -> Option<MPTTrie<RocksTrieDB>> {
    let t = MPTTrie::from(root.clone(), Arc::clone(db)).ok()?; let r = t.get(&c.as_bytes()).ok()??;
    MPTTrie::from(Hash::from_bytes(r).ok()?, Arc::clone(db)).ok()
}
/// the state stored at `root` is exactly `l`
fn stored(db: &Db, root: &Hash, l: &Ledger, users: &[usize], name: &str) {
    let t = sub_trie(db, root, account_contract()); s::check(t.is_some(), &format!("{}: accounts are readable at the root", name)); let t = t.unwrap();
    for u in users {
        let got = t.get(&addr(*u).encode_fixed().unwrap()).unwrap().map(|b| Account::decode_fixed(b).unwrap());
        match (got, l.acc.get(u)) {
            (None, None) => {}
            (Some(Account::User(g)), Some(w)) => {
                s::check(g.nonce == w.nonce, &format!("{}: nonce", name));
                s::check(g.assets.len() == w.assets.len(), &format!("{}: the assets held", name));
                for (id, i) in &w.assets { match g.assets.get(id) { None => s::check(false, &format!("{}: an asset disappeared", name)), Some(j) => { s::check(j.balance == i.balance, &format!("{}: balance", name)); s::check(j.approved == i.approved, &format!("{}: approvals", name)); } } }
            }
            _ => s::check(false, &format!("{}: an account appeared or disappeared", name)),
        }
    }
    let t = sub_trie(db, root, bank_contract()); s::check(t.is_some(), &format!("{}: assets are readable at the root", name)); let t = t.unwrap();
    for (id, w) in &l.assets { let got = t.get(&id.encode_fixed().unwrap()).unwrap().map(|b| Asset::decode_fixed(b).unwrap()); s::check(got.as_ref() == Some(w), &format!("{}: registered asset", name)); }
    s::check(!t.contains(&asset(2).encode_fixed().unwrap()).unwrap(), &format!("{}: no asset appears by itself", name));
    // a trie's root says exactly what it holds (E10)
    let mut t = MPTTrie::new(Arc::new(cita_trie::MemoryDB::new(false))); for (id, x) in &l.assets { t.insert(id.encode_fixed().unwrap(), x.encode_fixed().unwrap()).unwrap(); }
    let top = MPTTrie::from(root.clone(), Arc::clone(db)).unwrap(); s::check(top.get(&bank_contract().as_bytes()).unwrap() == Some(t.commit().unwrap().as_bytes()), &format!("{}: nothing else is registered", name));
}
fn executor(db: &Db, root: &Hash, price: u64, coinbase: usize) -> Box<dyn Executor> { F::from_root(chain(), root.clone(), Arc::clone(db), EPOCH, price, addr(coinbase)).unwrap() }

#[derive(Clone)]
enum Kind { Transfer(usize, usize, BigUint), Deploy(Bytes) }
#[derive(Clone)]
struct Tx { from: usize, kind: Kind, limit: u64, fee: usize, stx: SignedTransaction }
fn make(i: usize, from: usize, kind: Kind, limit: u64, fee: usize) -> Tx {
    let action = match &kind {
        Kind::Transfer(to, id, n) => TransactionAction::Transfer { receiver: ua(*to), carrying_asset: CarryingAsset { asset_id: asset(*id), amount: n.clone() } },
        Kind::Deploy(c) => TransactionAction::Deploy { code: c.clone(), contract_type: ContractType::Asset },
    };
    Tx { from, kind, limit, fee, stx: SignedTransaction { raw: RawTransaction { chain_id: chain(), nonce: a::chash(i as u8), timeout: 99, fee: Fee { asset_id: asset(fee), cycle: limit }, action }, tx_hash: a::chash(0x80 + i as u8), pubkey: pubkey(from), signature: Bytes::from(vec![1u8]) } }
}
fn amount(name: &str) -> BigUint { let mut n = one(&s::bytes(name, 1)); if s::param("wide", 0) > 0 && s::flag("amount big") { n += big(1) << if s::param("wide", 0) == 1 { 64 } else { 500 }; } n }
fn transfer(i: usize, from: usize, to: usize, id: usize, limit: u64) -> Tx { make(i, from, Kind::Transfer(to, id, amount("amount")), limit, 0) }
fn deploy(i: usize, from: usize, limit: u64) -> Tx { make(i, from, Kind::Deploy(Bytes::from(vec![0xde, i as u8])), limit, 0) }

/// what the block must do to the ledger; whether each transaction succeeds and the cycles it uses
struct Outcome { ok: bool, cycles: u64, before: BigUint, after: BigUint, deployed: Option<ContractAddress> }
fn apply(l: &mut Ledger, tx: &Tx) -> Outcome {
    let mut o = Outcome { ok: false, cycles: 0, before: big(0), after: big(0), deployed: None };
    match &tx.kind {
        Kind::Transfer(to, id, n) => {
            let id = asset(*id); let have = l.bal(tx.from, &id);
            if l.assets.contains_key(&id) && have.is_some() && *n <= have.clone().unwrap() && tx.limit >= 210 {
                o.before = have.unwrap(); l.sub(tx.from, &id, n); l.add(*to, &id, n); o.after = l.bal(tx.from, &id).unwrap(); o.ok = true; o.cycles = 210;
            }
        }
        Kind::Deploy(code) => {
            let nonce = l.acc.get(&tx.from).map(|x| x.nonce);
            if let (Some(nonce), true) = (nonce, tx.limit >= 2100) {
                let c = ContractAddress::from_code(code.clone(), nonce, ContractType::Asset).unwrap();
                let id = Hash::digest(Bytes::from([chain().as_bytes(), c.as_bytes()].concat()));
                if l.assets.contains_key(&id) { l.acc.get_mut(&tx.from).unwrap().nonce += 1; return o; }
                l.assets.insert(id.clone(), Asset { id, name: "System token".to_owned(), symbol: "ST".to_owned(), supply: big(21_000_000_000_000_000), manage_contract: c.clone(), storage_root: Hash::from_empty() });
                o.ok = true; o.cycles = 2100; o.deployed = Some(c);
            }
        }
    }
    l.acc.entry(tx.from).or_insert(UserAccount { nonce: 0, assets: BTreeMap::new() }).nonce += 1;
    o
}
fn run(db: &Db, root: &Hash, txs: &[Tx], price: u64, coinbase: usize) -> (Box<dyn Executor>, ExecutorExecResp) {
    let mut e = executor(db, root, price, coinbase);
    let r = s::nopanic("executing a block does not panic", || e.exec(txs.iter().map(|t| t.stx.clone()).collect()));
    s::check(r.is_ok(), "a block of transactions executes"); (e, match r { Ok(r) => r, Err(_) => s::end() })
}
fn expect(l: &mut Ledger, txs: &[Tx], price: u64, coinbase: usize) -> (Vec<Outcome>, Vec<(usize, u64)>) {
    let mut os = vec![]; let mut fees: Vec<(usize, u64)> = vec![];
    for t in txs { let o = apply(l, t); match fees.iter_mut().find(|f| f.0 == t.fee) { Some(f) => f.1 += o.cycles * price, None => fees.push((t.fee, o.cycles * price)) } os.push(o); }
    for (k, n) in &fees { l.add(coinbase, &asset(*k), &big(*n)); }
    (os, fees)
}
fn receipts(r: &ExecutorExecResp, txs: &[Tx], os: &[Outcome], fees: &[(usize, u64)], price: u64) {
    s::check(r.receipts.len() == txs.len(), "one receipt per transaction");
    for ((rc, t), o) in r.receipts.iter().zip(txs).zip(os) {
        s::check(rc.tx_hash == t.stx.tx_hash, "receipts are in the order of the transactions"); s::check(rc.epoch_id == EPOCH, "receipts carry the epoch"); s::check(rc.state_root == r.state_root, "receipts carry the resulting state root");
        s::check(rc.cycles_used.asset_id == asset(t.fee), "fees are in the asset the transaction names"); s::check(rc.cycles_used.cycle == o.cycles * price, "fee = cycles used x price");
    }
    for (k, n) in fees { s::check(r.all_cycles_used.iter().filter(|f| f.asset_id == asset(*k)).fold(0u64, |x, f| x + f.cycle) == *n, "the block's fees are the sum of its receipts' fees, by asset"); }
    s::check((0..r.all_cycles_used.len()).all(|i| r.all_cycles_used[..i].iter().all(|f| f.asset_id != r.all_cycles_used[i].asset_id)), "the block's fees are one sum per asset");
    s::check(r.all_cycles_used.iter().all(|f| fees.iter().any(|x| asset(x.0) == f.asset_id)), "no other fees are reported");
}
fn results(r: &ExecutorExecResp, txs: &[Tx], os: &[Outcome]) {
    for ((rc, t), o) in r.receipts.iter().zip(txs).zip(os) {
        let failed = if let ReceiptResult::Fail { .. } = rc.result { true } else { false };
        match &t.kind {
            Kind::Transfer(to, id, _) => {
                if o.ok { s::cover("transfer succeeds"); s::check(!failed, "a transfer succeeds when the asset exists, the sender has enough and the cycles limit allows"); } else { s::cover("transfer fails"); s::check(failed, "a transfer fails when the asset is unknown, the sender has too little or the cycles limit is too low"); }
                if let ReceiptResult::Transfer { receiver, asset_id, before_amount, after_amount } = &rc.result { s::check(*receiver == ua(*to) && *asset_id == asset(*id), "a transfer's receipt names receiver and asset"); s::check(s::and(*before_amount == o.before, *after_amount == o.after), "a transfer's receipt gives the sender's balance before and after"); }
                else { s::check(failed, "a transfer has a transfer receipt"); }
            }
            Kind::Deploy(_) => {
                if o.ok { s::cover("deployment succeeds"); } else { s::cover("deployment fails"); }
                s::check(failed != o.ok, "a deployment succeeds exactly when the cycles limit allows it");
                if let ReceiptResult::Deploy { contract, contract_type } = &rc.result { s::check(Some(contract) == o.deployed.as_ref() && *contract_type == ContractType::Asset, "a deployment's receipt names the contract"); } else { s::check(failed, "a deployment has a deployment receipt"); }
            }
        }
    }
}
const USERS: [usize; 4] = [0, 1, 2, 3];
fn in_memory(e: &Box<dyn Executor>, l: &Ledger) {
    for u in &USERS { for k in 0..2 { match (l.acc.get(u), e.get_balance(&addr(*u), &asset(k))) { (None, r) => s::check(r.is_err(), "an unknown account has no balance"), (Some(_), Ok(b)) => s::check(b == l.bal(*u, &asset(k)).unwrap_or_default(), "the executor answers with the balance it stored"), _ => s::check(false, "the executor answers for every account") } } }
}

/// one transfer: any receiver, asset, amount, balance and cycles limit
#[no_mangle] pub fn ex_transfer() {
    let db = open(); let l0 = start(); let root = write(&db, &l0); let mut l = l0.clone();
    let to = s::pick("to", 3); let id = s::pick("asset", 3);
    let txs = [transfer(1, 0, to, id, s::u64("limit"))];
    let (_, r) = run(&db, &root, &txs, 1, 3); let (os, _) = expect(&mut l, &txs, 1, 3);
    results(&r, &txs, &os); stored(&db, &r.state_root, &l, &USERS, "after a transfer");
}

/// a limit that lets a transfer through, or one just too low
fn tlimit(name: &str) -> u64 { if s::flag(name) { 210 } else { 209 } }
fn cheap(i: usize, from: usize, to: usize, id: usize, n: u64, limit: u64) -> Tx { make(i, from, Kind::Transfer(to, id, big(n)), limit, 0) }
/// several transactions in one block: transfers of any amount among three users, deployments, too low limits
#[no_mangle] pub fn ex_block() {
    let db = open(); let l0 = start(); let root = write(&db, &l0); let mut l = l0.clone(); let n = s::param("txs", 2) as usize;
    let mut txs = vec![]; let mut amounts = 0;
    for i in 0..n {
        let t = match s::pick("tx", 6) {
            0 if amounts == 0 => { amounts += 1; transfer(i, 0, 1, 0, 210) }
            0 => cheap(i, 0, 1, 0, 2, 210),
            1 => cheap(i, 0, 2, 0, 3, tlimit("limit")),
            2 => cheap(i, 1, 0, 0, 1, 210),
            3 => cheap(i, 2, 1, 0, 2, 210),
            4 => cheap(i, 0, 1, 1 + s::pick("asset", 2), 4, 210),
            _ => deploy(i, s::pick("deployer", 2), 2099 + s::pick("limit", 2) as u64),
        }; txs.push(t);
    }
    let (e, r) = run(&db, &root, &txs, 1, 3); let (os, fees) = expect(&mut l, &txs, 1, 3);
    results(&r, &txs, &os); receipts(&r, &txs, &os, &fees, 1); stored(&db, &r.state_root, &l, users(), "after a block"); in_memory(&e, &l);
    stored(&db, &root, &l0, &[0, 1, 2, 3], "the state before the block");
}
/// two blocks, one after the other, each by an executor opened at the root the first left
#[no_mangle] pub fn ex_blocks() {
    let db = open(); let l0 = start(); let root = write(&db, &l0); let mut l = l0.clone();
    let t1 = [match s::pick("first", 4) { 0 => transfer(1, 0, 2, 0, 210), 1 => cheap(1, 0, 2, 0, 1, 209), 2 => cheap(1, 2, 0, 0, 1, 210), _ => deploy(1, 0, 2100) }];
    let (_, r1) = run(&db, &root, &t1, 1, 3); let (os, fees) = expect(&mut l, &t1, 1, 3); let l1 = l.clone();
    results(&r1, &t1, &os); receipts(&r1, &t1, &os, &fees, 1);
    let t2 = [match s::pick("second", 4) { 0 => cheap(2, 2, 1, 0, 2, 210), 1 => cheap(2, 0, 1, 0, 2, 210), 2 => cheap(2, 3, 0, 0, 7, 210), _ => deploy(1, 0, 2100) }];
    let (_, r2) = run(&db, &r1.state_root, &t2, 1, 3); let (os, fees) = expect(&mut l, &t2, 1, 3);
    results(&r2, &t2, &os); receipts(&r2, &t2, &os, &fees, 1);
    rocksdb::sim::restart();
    stored(&db, &r2.state_root, &l, users(), "after two blocks"); stored(&db, &r1.state_root, &l1, users(), "the state between the blocks"); stored(&db, &root, &l0, users(), "the state before the blocks");
}
/// nonces: any starting nonce, several transactions by one sender, succeeding and failing
#[no_mangle] pub fn ex_nonce() {
    let db = open(); let mut l0 = start(); let n0 = match s::pick("nonce size", 4) { 0 => 0, 1 => u64::from(s::u8("nonce")), 2 => 0xff00 + u64::from(s::u8("nonce")), _ => u64::max_value() - 5 }; l0.acc.get_mut(&0).unwrap().nonce = n0; let root = write(&db, &l0);
    let n = 1 + s::pick("n", s::param("txs", 3) as usize); let mut txs = vec![]; let mut mine = 0;
    for i in 0..n { txs.push(match s::pick("tx", 4) { 0 => cheap(i, 0, 1, 1, 1, 210), 1 => cheap(i, 0, 1, 1, 1, 209), 2 => cheap(i, 0, 1, 2, 1, 210), _ => cheap(i, 1, 0, 0, 1, 210) }); if txs[i].from == 0 { mine += 1; } }
    let (_, r) = run(&db, &root, &txs, 1, 3);
    let t = sub_trie(&db, &r.state_root, account_contract()).unwrap(); let get = |u| match t.get(&addr(u).encode_fixed().unwrap()).unwrap().map(|b| Account::decode_fixed(b).unwrap()) { Some(Account::User(x)) => x.nonce, _ => 999 };
    s::check(get(0) == n0 + mine, "a sender's nonce grows by one per transaction"); s::check(get(1) == (n - mine as usize) as u64, "a sender's nonce grows by one per transaction"); s::cover("nonces");
    if n > 1 && mine > 1 { s::cover("several by one sender"); }
}
/// fees: any price, fee assets and coinbase
#[no_mangle] pub fn ex_fees() {
    let any = s::flag("any price"); let db = open(); let l0 = if any { start() } else { s::concrete(start) }; let root = write(&db, &l0); let mut l = l0.clone();
    let price = if any { u64::from(s::u8("price")) } else { [0, 0x1_0000_0001][s::pick("price size", 2)] }; let coinbase = [3, 0, 1][s::pick("coinbase", 3)]; let (f1, f2) = if any { (0, s::pick("fee2", 2)) } else { (s::pick("fee1", 2), s::pick("fee2", 3)) };
    let txs = [make(1, 0, Kind::Transfer(1, 1, big(1)), if any { 210 } else { 210 + s::pick("over", 2) as u64 * 90 }, f1), match s::pick("second", 3) { 0 => make(2, 1, Kind::Transfer(0, 0, big(1)), 210, f2), 1 => make(2, 1, Kind::Deploy(Bytes::from(vec![1u8])), 2100, f2), _ => make(2, 1, Kind::Transfer(0, 0, big(200)), 210, f2) }];
    let (e, r) = run(&db, &root, &txs, price, coinbase); let (os, fees) = expect(&mut l, &txs, price, coinbase);
    receipts(&r, &txs, &os, &fees, price); s::cover("fees"); if fees.len() == 2 { s::cover("two fee assets") } else { s::cover("one fee asset") }
    stored(&db, &r.state_root, &l, users(), "after fees"); in_memory(&e, &l);
}
/// fee assets in any order over more transactions, some of which fail
#[no_mangle] pub fn ex_fees_many() {
    let db = open(); let l0 = s::concrete(start); let root = write(&db, &l0); let mut l = l0.clone(); let price = u64::from(s::u8("price")) + 1;
    let txs: Vec<Tx> = (0..s::param("txs", 4) as usize).map(|i| cheap(i + 1, i % 2, 1 - i % 2, 0, 1, if s::flag("fails") { 209 } else { 210 })).zip(0..).map(|(mut t, i)| { t.fee = s::pick("fee", 2); if i == 3 { t.fee = 1 - t.fee; } t.stx.raw.fee.asset_id = asset(t.fee); t }).collect();
    let (e, r) = run(&db, &root, &txs, price, 3); let (os, fees) = expect(&mut l, &txs, price, 3);
    receipts(&r, &txs, &os, &fees, price); if fees.len() == 2 { s::cover("two fee assets") }
    stored(&db, &r.state_root, &l, users(), "after many fees"); in_memory(&e, &l);
}
/// the block's fees go to a contract's account
#[no_mangle] pub fn ex_fees_contract() {
    let db = open(); let l0 = start(); let root = write(&db, &l0); let price = u64::from(s::u8("price"));
    let txs = [cheap(1, 0, 1, 1, 1, 210), cheap(2, 0, 1, 1, 1, tlimit("limit"))];
    let (_, r) = run(&db, &root, &txs, price, 4); let mut l = l0.clone(); let (os, fees) = expect(&mut l, &txs, price, 3); receipts(&r, &txs, &os, &fees, price);
    let t = sub_trie(&db, &r.state_root, account_contract()).unwrap();
    match t.get(&addr(4).encode_fixed().unwrap()).unwrap().map(|b| Account::decode_fixed(b).unwrap()) {
        Some(Account::Contract(c)) => { s::check(c.nonce == 0 && c.assets.len() == 1, "only the fee asset is credited"); s::check(c.assets.get(&asset(0)) == Some(&big(fees[0].1)), "a contract coinbase receives the fees"); s::cover("fees"); }
        _ => s::check(false, "a contract coinbase has a contract account"),
    }
}
/// every kind of transaction, from senders with and without an account: the block executes, and what is not supported fails alone
#[no_mangle] pub fn ex_total() {
    let db = open(); let l0 = start(); let root = write(&db, &l0); let mut l = l0.clone();
    let from = [0, 2][s::pick("from", 2)]; let ca = || CarryingAsset { asset_id: asset(0), amount: big(1) };
    let action = match s::pick("action", 8) {
        0 => TransactionAction::Approve { spender: a::contract_of(1), asset_id: asset(0), max: big(1) },
        1 => TransactionAction::Call { contract: a::contract_of(1), method: "m".to_owned(), args: vec![], carrying_asset: None },
        2 => TransactionAction::Call { contract: a::contract_of(1), method: "".to_owned(), args: vec![Bytes::new()], carrying_asset: Some(ca()) },
        3 => TransactionAction::Deploy { code: Bytes::new(), contract_type: ContractType::App },
        4 => TransactionAction::Deploy { code: Bytes::from(vec![1u8]), contract_type: ContractType::Library },
        5 => TransactionAction::Deploy { code: Bytes::new(), contract_type: ContractType::Native },
        6 => TransactionAction::Transfer { receiver: ua(1), carrying_asset: CarryingAsset { asset_id: asset(2), amount: big(0) } },
        _ => TransactionAction::Transfer { receiver: ua(1), carrying_asset: CarryingAsset { asset_id: asset(0), amount: big(1) << 300 } },
    };
    let mut t = cheap(1, from, 1, 2, 0, s::u64("limit")); t.stx.raw.action = action; t.stx.signature = Bytes::new();
    let good = cheap(2, 0, 1, 1, 2, 210); let first = s::flag("first"); let txs = if first { [t, good] } else { [good, t] };
    let (_, r) = run(&db, &root, &txs, 1, 3); let (_, fees) = expect(&mut l, &txs, 1, 3); let i = if first { 0 } else { 1 };
    s::check(r.receipts.len() == 2, "one receipt per transaction");
    s::check(if let ReceiptResult::Fail { .. } = r.receipts[i].result { true } else { false }, "an unsupported transaction gets a failure receipt"); s::check(r.receipts[i].cycles_used.cycle == 0, "an unsupported transaction costs nothing");
    s::check(if let ReceiptResult::Transfer { .. } = r.receipts[1 - i].result { true } else { false }, "the rest of the block executes"); s::cover("unsupported"); let _ = fees;
    stored(&db, &r.state_root, &l, users(), "after an unsupported transaction");
}
#[no_mangle] pub fn ex_empty() {
    let db = open(); let l0 = start(); let root = write(&db, &l0); let (_, r) = run(&db, &root, &[], 1, 3);
    s::check(r.receipts.is_empty() && r.all_cycles_used.is_empty(), "an empty block has no receipts and no fees"); s::check(r.state_root == root, "an empty block leaves the state root"); s::cover("empty");
    stored(&db, &r.state_root, &l0, users(), "after an empty block");
}
fn digest_of(r: &ExecutorExecResp) -> Vec<u8> { let mut v = r.state_root.as_bytes().to_vec(); for x in &r.receipts { v.extend_from_slice(&x.encode_fixed().unwrap()) } for f in &r.all_cycles_used { v.extend_from_slice(&f.encode_fixed().unwrap()) } v }
/// two nodes with different hash seeds run the same block
#[no_mangle] pub fn ex_same() {
    let db = open(); let l0 = start(); let root = write(&db, &l0); let coinbase = [3, 0][s::pick("coinbase", 2)];
    let txs = vec![match s::pick("first", 3) { 0 => transfer(1, 0, 1, 0, 210), 1 => cheap(1, 0, 2, 0, 1, 210), _ => deploy(1, 1, 2100) }, make(2, 0, Kind::Transfer(2, 1, big(1)), 210, 1), make(3, 1, Kind::Transfer(0, 0, big(1)), 210, 2)];
    let out = Arc::new(std::sync::Mutex::new(vec![]));
    for seed in 0..s::param("seeds", 3) {
        let (out, db, root, txs) = (Arc::clone(&out), Arc::clone(&db), root.clone(), txs.clone()); s::rand_seed(seed * 0x1e37_79b9_7f4a_7c15 + 1);
        let id = s::spawn(move || { let (_, r) = run(&db, &root, &txs, 3, coinbase); out.lock().unwrap().push(digest_of(&r)); }); s::join(id);
    }
    let o = out.lock().unwrap(); for d in o.iter() { s::check(s::same(d, &o[0]), "the same block from the same state gives the same root, receipts and fees everywhere"); } s::cover("same");
}
/// the disk fails at any write of a block; the process restarts
#[no_mangle] pub fn ex_crash() {
    let l0 = start(); let root; let txs = [transfer(1, 0, 2, 0, 210), deploy(2, 0, 2100)]; let mut l = l0.clone(); let (_, _) = expect(&mut l, &txs, 1, 3);
    let at = s::pick("at", 12) as u64; let mut done = None;
    { let db = open(); root = write(&db, &l0); let once = s::flag("once"); if once { rocksdb::sim::glitch_write_after(at) } else { rocksdb::sim::fail_after(at) }
      let mut e = executor(&db, &root, 1, 3); let r = s::nopanic("a disk error is an error", || e.exec(txs.iter().map(|t| t.stx.clone()).collect()));
      match r { Ok(r) => { s::check(!rocksdb::sim::is_down() && !rocksdb::sim::glitched(), "a block that was not written is not reported as executed"); s::cover("completed"); done = Some(r.state_root); } Err(_) => s::cover(if once { "failed once" } else { "crashed" }) } }
    rocksdb::sim::restart(); let db = open();
    stored(&db, &root, &l0, users(), "the previous state after a crash");
    if let Some(d) = &done { stored(&db, d, &l, users(), "an executed block after a restart"); }
    let (_, r) = run(&db, &root, &txs, 1, 3); stored(&db, &r.state_root, &l, users(), "a block executed again after a crash"); if let Some(d) = done { s::check(d == r.state_root, "executing again gives the same root"); }
}
/// the disk fails at any read of a block, from opening the state on
#[no_mangle] pub fn ex_unreadable() {
    let l0 = start(); let mut l = l0.clone(); let known = s::flag("known asset"); let txs = [if known { transfer(1, 0, 2, 0, 210) } else { cheap(1, 0, 1, 2, 1, 210) }, deploy(2, 1, 2100)]; expect(&mut l, &txs, 1, 3);
    let db = open(); let root = write(&db, &l0); rocksdb::sim::fail_read_after(s::pick("at", s::param("reads", 40) as usize) as u64);
    let r = s::nopanic("a disk error is an error", || { let mut e = F::from_root(chain(), root.clone(), Arc::clone(&db), EPOCH, 1, addr(3))?; e.exec(txs.iter().map(|t| t.stx.clone()).collect()) });
    let down = rocksdb::sim::is_down(); drop(db); rocksdb::sim::restart(); let db = open();
    match r {
        // a block executed although a read failed is one whose result is right all the same
        Ok(r) => { if !down { s::cover("completed"); } stored(&db, &r.state_root, &l, users(), "a block executed on a failing disk"); s::check(r.receipts.len() == 2, "one receipt per transaction"); }
        Err(_) => { s::check(down, "a block is executed when the disk works"); s::cover("unreadable") }
    }
    stored(&db, &root, &l0, users(), "the previous state after a disk error");
}
/// one read fails, the others work: the block fails, or the transaction that needed it; nothing else happens
#[no_mangle] pub fn ex_read_glitch() {
    let mut l0 = start(); let txs = [transfer(1, 0, 2, 0, 210), deploy(2, 1, 2100)];
    if s::flag("deployed before") { let nonce = l0.acc[&1].nonce; let mut x = l0.clone(); apply(&mut x, &txs[1]); for (id, a) in x.assets { l0.assets.entry(id).or_insert(a); } s::check(l0.acc[&1].nonce == nonce, "setup"); }
    let db = open(); let root = write(&db, &l0); rocksdb::sim::glitch_read_after(s::pick("at", s::param("reads", 40) as usize) as u64);
    let r = s::nopanic("a disk error is an error", || { let mut e = F::from_root(chain(), root.clone(), Arc::clone(&db), EPOCH, 1, addr(3))?; e.exec(txs.iter().map(|t| t.stx.clone()).collect()) });
    drop(db); rocksdb::sim::restart(); let db = open();
    match r {
        Ok(r) => {
            s::check(r.receipts.len() == 2, "one receipt per transaction"); let mut l = l0.clone(); let mut fee = 0;
            for (rc, t) in r.receipts.iter().zip(&txs) {
                if let ReceiptResult::Fail { .. } = rc.result { l.acc.entry(t.from).or_insert(UserAccount { nonce: 0, assets: BTreeMap::new() }).nonce += 1; s::cover("a transaction fails") } else { let o = apply(&mut l, t); s::check(o.ok, "what fails on a working disk fails on a failing one"); fee += o.cycles; s::cover("completed") }
            }
            l.add(3, &asset(0), &big(fee)); stored(&db, &r.state_root, &l, users(), "a block executed on a failing disk");
        }
        Err(_) => s::cover("unreadable"),
    }
    stored(&db, &root, &l0, users(), "the previous state after a disk error");
}
/// a long block over a large state: most of it fixed, one amount arbitrary
#[no_mangle] pub fn ex_long() {
    let db = open(); let mut l0 = start(); let n = s::param("txs", 14) as usize;
    for k in 3..12usize { l0.assets.insert(a::chash(0x70 + k as u8), Asset { id: a::chash(0x70 + k as u8), name: "a longer name".to_owned(), symbol: "sym".to_owned(), supply: big(1) << (k * 30), manage_contract: a::contract_of(k as u8), storage_root: Hash::from_empty() }); }
    let mut m = BTreeMap::new(); for k in 3..12usize { m.insert(a::chash(0x70 + k as u8), AssetInfo { balance: big(1) << (k * 30), approved: BTreeMap::new() }); } m.insert(asset(1), AssetInfo { balance: big(1000), approved: BTreeMap::new() });
    l0.acc.insert(2, UserAccount { nonce: 0x1_0000_0000, assets: m }); let root = write(&db, &l0); let mut l = l0.clone();
    let txs: Vec<Tx> = (0..n).map(|i| match i % 7 { 0 => cheap(i, 2, i % 4, 1, 3, 210), 1 => cheap(i, 1, 0, 0, 1, 209), 2 => deploy(i, 2, 2100 - (i as u64 / 7) % 2), 3 => cheap(i, 2, 0, 1, 1 << i, 210), 4 if i < 7 => transfer(i, 0, 2, 0, 210), 4 => cheap(i, 0, 1, 2, 1, 210), 5 => deploy(i - 3, 0, 2100), _ => cheap(i, 3, 1, 1, 1, 211) }).collect();
    let (e, r) = run(&db, &root, &txs, 1, 3); let (os, fees) = expect(&mut l, &txs, 1, 3);
    results(&r, &txs, &os); receipts(&r, &txs, &os, &fees, 1); stored(&db, &r.state_root, &l, users(), "after a long block"); in_memory(&e, &l); stored(&db, &root, &l0, users(), "the state before the block");
}
/// deployments of any code: the address, the asset, its uniqueness
#[no_mangle] pub fn ex_deploy() {
    let db = open(); let mut l0 = start(); l0.acc.get_mut(&0).unwrap().nonce = s::pick("nonce", 2) as u64; let root = write(&db, &l0); let mut l = l0.clone();
    let code = Bytes::from(s::bytes_upto("code", 0, 2)); let code2 = if s::flag("same code") { code.clone() } else { Bytes::from(s::bytes_upto("code2", 0, 1)) };
    let txs = [make(1, 0, Kind::Deploy(code), s::u64("limit"), 0), make(2, s::pick("other", 2), Kind::Deploy(code2), 2100, 0)];
    let (_, r) = run(&db, &root, &txs, 1, 3); let (os, _) = expect(&mut l, &txs, 1, 3); results(&r, &txs, &os); stored(&db, &r.state_root, &l, users(), "after deployments");
    if os[0].ok && os[1].ok { s::cover("both"); } if os[0].ok && !os[1].ok { s::cover("second refused"); }
}
fn small_genesis(n: usize, at: &[usize]) -> Genesis {
    let mut g: Genesis = s::concrete(|| a::genesis(&mut a::Gen::plain())); g.state_alloc.clear(); g.system_token.code = "0a0b".to_owned(); g.system_token.name = "HT".to_owned(); g.system_token.symbol = "ht".to_owned(); g.system_token.supply = s::u64("supply") & 0xff;
    for i in 0..n {
        let k = s::param("assets", 2) as usize; let c = s::bytes("digit", 2); for x in &c { s::assume(s::and(*x >= b'0', *x <= b'9')); }
        g.state_alloc.push(GenesisStateAlloc { address: addr(at[i]).as_hex(), assets: (0..k).map(|j| GenesisStateAsset { asset_id: asset(if s::flag("same asset") { 0 } else { j }).as_hex(), balance: if j == 0 { String::from_utf8(c.clone()).unwrap() } else { "0100".to_owned() } }).collect() });
    }
    g
}
#[no_mangle] pub fn ex_genesis() {
    let db = open(); let n = s::pick("allocs", 3); let at = [0, if n > 1 { s::pick("second", 2) } else { 1 }]; let g = small_genesis(n, &at); let e0 = Hash::from_empty();
    let mut e = executor(&db, &e0, 1, 3); let root = s::nopanic("creating the genesis state does not panic", || e.create_genesis(&g)); s::check(root.is_ok(), "a well-formed genesis is accepted"); let root = root.unwrap();
    let mut l = Ledger { acc: BTreeMap::new(), assets: BTreeMap::new() };
    let c = ContractAddress::from_code(Bytes::from(vec![10u8, 11]), 0, ContractType::Asset).unwrap(); let id = Hash::digest(Bytes::from([chain().as_bytes(), c.as_bytes()].concat()));
    l.assets.insert(id.clone(), Asset { id, name: "HT".to_owned(), symbol: "ht".to_owned(), supply: big(g.system_token.supply), manage_contract: c, storage_root: Hash::from_empty() });
    for (i, x) in g.state_alloc.iter().enumerate() { for y in &x.assets { let d = y.balance.as_bytes(); let v = d.iter().fold(0u64, |v, c| (v << 4) | u64::from(*c - b'0')); l.add(at[i], &Hash::from_hex(&y.asset_id).unwrap(), &big(v)); } }
    rocksdb::sim::restart(); if n > 0 { s::cover("genesis"); stored(&db, &root, &l, users(), "genesis"); } else { s::cover("empty genesis"); let t = sub_trie(&db, &root, bank_contract()).unwrap(); for (k, w) in &l.assets { s::check(t.get(&k.encode_fixed().unwrap()).unwrap().map(|b| Asset::decode_fixed(b).unwrap()).as_ref() == Some(w), "the system token is registered"); } }
    in_memory(&e, &l);
}
fn hexed(b: &[u8]) -> String { String::from_utf8(b.iter().flat_map(|x| vec![x >> 4, x & 15]).map(|d| d + b'0' + 39 * ((d + 6) >> 4)).collect()).unwrap() }
/// any supply, texts of several lengths, balances up to 320 bits, with or without leading zeros and in either case, and many accounts
#[no_mangle] pub fn ex_genesis_wide() {
    let db = open(); let mut g = s::concrete(|| small_genesis(0, &[])); let mut l = Ledger { acc: BTreeMap::new(), assets: BTreeMap::new() }; let what = s::pick("what", 3);
    let code = Bytes::from(if what == 1 { s::bytes_upto("code", 0, 2) } else { vec![10u8, 11] }); if what == 1 { g.system_token.code = hexed(&code); }
    if what == 0 { g.system_token.supply = a::u64w("supply"); } if what == 1 { g.timestamp = s::u64("time"); g.system_token.name = (0..s::pick("name", 3) * 30).map(|_| 'n').collect(); g.system_token.symbol = if s::flag("utf8") { "\u{706b}\u{5e01}".to_owned() } else { "".to_owned() }; }
    let c = ContractAddress::from_code(code, 0, ContractType::Asset).unwrap(); let id = Hash::digest(Bytes::from([chain().as_bytes(), c.as_bytes()].concat()));
    l.assets.insert(id.clone(), Asset { id: id.clone(), name: g.system_token.name.clone(), symbol: g.system_token.symbol.clone(), supply: big(g.system_token.supply), manage_contract: c, storage_root: Hash::from_empty() });
    if what == 2 { for k in 0..3 {
        let n = if k == 0 { [0usize, 1, 8, 9, 16, 17, 40][s::pick("bytes", 7)] } else { 9 }; let mut b = vec![0x5au8; n]; if k == 0 && n > 0 { b[0] = s::u8("high"); b[n - 1] = s::u8("low"); }
        let mut t = hexed(&b); if k == 1 { t = t.to_uppercase(); } let which = if k == 2 { id.clone() } else { asset(k) };
        g.state_alloc.push(GenesisStateAlloc { address: addr(k).as_hex(), assets: vec![GenesisStateAsset { asset_id: which.as_hex(), balance: t }] }); l.add(k, &which, &BigUint::from_bytes_be(&b)); s::cover("balances");
    } } else { s::cover(if what == 0 { "supply" } else { "texts" }); }
    let mut e = executor(&db, &Hash::from_empty(), 1, 3); let root = s::nopanic("creating the genesis state does not panic", || e.create_genesis(&g)); s::check(root.is_ok(), "a well-formed genesis is accepted"); let root = root.unwrap();
    rocksdb::sim::restart(); if what == 2 { stored(&db, &root, &l, users(), "genesis"); }
    let t = sub_trie(&db, &root, bank_contract()).unwrap(); for (k, w) in &l.assets { s::check(t.get(&k.encode_fixed().unwrap()).unwrap().map(|b| Asset::decode_fixed(b).unwrap()).as_ref() == Some(w), "the system token is registered"); } in_memory(&e, &l);
}
/// a genesis with one malformed text is refused, without a panic
#[no_mangle] pub fn ex_genesis_bad() {
    let db = open(); let mut g = s::concrete(|| small_genesis(1, &[0])); let c = s::u8("c"); s::assume(c < 0x80); let isx = s::or(s::and(c >= b'0', c <= b'9'), s::or(s::and(c >= b'a', c <= b'f'), s::and(c >= b'A', c <= b'F')));
    let ch = String::from_utf8(vec![c]).unwrap(); let x = &mut g.state_alloc[0]; let ok;
    match s::pick("where", 4) { 0 => { g.system_token.code = format!("0{}", ch); ok = isx; } 1 => { x.assets[0].balance = format!("{}0", ch); ok = isx; } 2 => { x.assets[0].balance = "123".to_owned(); ok = false; } _ => { let t = x.address.clone(); x.address = format!("{}{}", &t[..41], ch); ok = isx; } }
    let r = s::nopanic("a malformed genesis does not panic", || { let mut e = executor(&db, &Hash::from_empty(), 1, 3); e.create_genesis(&g) });
    if r.is_ok() { s::cover("accepted"); s::check(ok, "malformed text in a genesis is refused"); } else { s::cover("refused"); s::check(!ok, "a well-formed genesis is accepted"); }
}
s::entries!(ex_transfer, ex_block, ex_blocks, ex_nonce, ex_fees, ex_fees_contract, ex_fees_many, ex_total, ex_empty, ex_same, ex_crash, ex_unreadable, ex_read_glitch, ex_long, ex_deploy, ex_genesis, ex_genesis_wide, ex_genesis_bad);
