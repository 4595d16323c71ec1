#![feature(bind_by_move_pattern_guards)]
//! World state: the tries, the cache / stash / commit discipline, and the native contracts' ledgers.
//@ deps: protocol bytes num_bigint core_executor rocksdb cita_trie serde_json
use anyval as a;
use bytes::Bytes;
use cita_trie::DB as TDB;
use core_executor::trie::{MPTTrie, RocksTrieDB};
use core_executor::verif_hooks::*;
use num_bigint::BigUint;
use protocol::fixed_codec::ProtocolFixedCodec;
use protocol::traits::executor::contract::{AccountContract, BankContract, ContractStateAdapter};
use protocol::traits::executor::{InvokeContext, RcInvokeContext};
use protocol::types::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;
use symrt as s;

type Db = Arc<RocksTrieDB>;
fn open() -> Db { Arc::new(RocksTrieDB::new("state", false).unwrap()) }
type Map = BTreeMap<usize, Bytes>;
const KEYS: [&[u8]; 5] = [b"\x12\x34", b"\x12\x35", b"\x12", b"\x92\x34", b""];
fn key(k: usize) -> Bytes { Bytes::from(KEYS[k]) }
/// values are never empty (no encoding is); some are long enough to make a node of their own
fn value() -> Bytes { let mut v = s::bytes("value", 1); if s::flag("long") { v.extend_from_slice(&[7u8; 33]); } Bytes::from(v) }
fn root_of(m: &Map) -> Hash { let mut t = MPTTrie::new(Arc::new(cita_trie::MemoryDB::new(false))); for (k, v) in m.iter().rev() { t.insert(key(*k).encode_fixed().unwrap(), v.encode_fixed().unwrap()).unwrap(); } t.commit().unwrap() }

/// any sequence of insert / stash / revert / commit, read back after each step
#[no_mangle] pub fn st_adapter() {
    let db = open(); let mut x = GeneralContractStateAdapter::new(MPTTrie::new(Arc::clone(&db)));
    let (mut trie, mut stash, mut cache): (Map, Map, Map) = (Map::new(), Map::new(), Map::new()); let nk = 2;
    for _ in 0..s::param("ops", 4) {
        match s::pick("op", 3 + nk) {
            0 => { s::check(x.stash().is_ok(), "stashing works"); stash.append(&mut cache); s::cover("stash"); }
            1 => { s::check(x.revert_cache().is_ok(), "reverting works"); cache.clear(); s::cover("revert"); }
            2 => { let r = x.commit(); s::check(r.is_ok(), "committing works"); trie.append(&mut stash); s::cover("commit");
                   let r = r.unwrap(); s::check(r == root_of(&trie), "the committed root is the root of exactly the stashed state");
                   if !trie.is_empty() { let t = MPTTrie::from(r, Arc::clone(&db)); s::check(t.is_ok(), "a committed root can be opened"); let t = t.ok().unwrap(); for k in 0..nk { s::check(t.get(&key(k).encode_fixed().unwrap()).unwrap() == trie.get(&k).map(|v| v.encode_fixed().unwrap()), "a committed root holds what was stashed"); } } }
            k => { let k = k - 3; let v = Bytes::from(s::bytes("value", 1)); s::check(x.insert_cache::<FixedBytesSchema>(key(k), v.clone()).is_ok(), "inserting works"); cache.insert(k, v); }
        }
        for k in 0..nk {
            let want = cache.get(&k).or(stash.get(&k)).or(trie.get(&k)).cloned();
            let got = s::nopanic("reading does not panic", || x.get::<FixedBytesSchema>(&key(k))); s::check(got.is_ok(), "reading works"); s::check(got.unwrap() == want, "the latest write that was not reverted is read");
            s::check(x.contains::<FixedBytesSchema>(&key(k)).unwrap() == want.is_some(), "contains agrees with get");
        }
    }
}
/// a trie is a map; its root says exactly what it holds
#[no_mangle] pub fn st_trie() {
    let db = open(); let mut t = MPTTrie::new(Arc::clone(&db)); let mut m = Map::new(); let n = s::param("inserts", 3) as usize; let mut roots: Vec<(Hash, Map)> = vec![];
    for _ in 0..n {
        let k = s::pick("key", 4); let v = value(); t.insert(key(k).encode_fixed().unwrap(), v.encode_fixed().unwrap()).unwrap(); m.insert(k, v);
        if s::flag("commit") { let r = t.commit(); s::check(r.is_ok(), "committing works"); roots.push((r.unwrap(), m.clone())); }
    }
    let r = t.commit().unwrap(); roots.push((r.clone(), m.clone())); s::check(r == root_of(&m), "the root does not depend on the order of writes");
    for k in 0..5 { s::check(t.get(&key(k).encode_fixed().unwrap()).unwrap() == m.get(&k).map(|v| v.encode_fixed().unwrap()), "a trie gives back what was written"); s::check(t.contains(&key(k).encode_fixed().unwrap()).unwrap() == m.contains_key(&k), "contains agrees with get"); }
    drop(t); drop(db); rocksdb::sim::restart(); let db = open();
    for (r, m) in &roots { let t = MPTTrie::from(r.clone(), Arc::clone(&db)); s::check(t.is_ok(), "every committed root can be opened later"); let t = t.ok().unwrap(); for k in 0..5 { s::check(t.get(&key(k).encode_fixed().unwrap()).unwrap() == m.get(&k).map(|v| v.encode_fixed().unwrap()), "every committed root keeps its contents"); } }
    for (r, m) in &roots { for (q, n) in &roots { if r == q { s::check(m == n, "different contents have different roots"); s::cover("same root"); } else { s::check(m != n, "the same contents have one root"); s::cover("different roots"); } } }
    s::check(MPTTrie::from(a::chash(1), db).is_err(), "a root that was never committed cannot be opened"); s::cover("trie");
}
/// the database under the tries
#[no_mangle] pub fn st_db() {
    let light = s::flag("light"); let mut db = Arc::new(RocksTrieDB::new("state", light).unwrap()); let mut m: BTreeMap<usize, Vec<u8>> = BTreeMap::new(); let k = |i: usize| KEYS[i].to_vec();
    for _ in 0..s::param("ops", 3) {
        match s::pick("op", 6) {
            0 => { let i = s::pick("key", 2); let v = s::bytes("value", 1); s::check(db.insert(k(i), v.clone()).is_ok(), "inserting works"); m.insert(i, v); }
            1 => { let v = s::bytes("value", 2); s::check(db.insert_batch(vec![k(0), k(1)], vec![v[..1].to_vec(), v[1..].to_vec()]).is_ok(), "inserting a batch works"); m.insert(0, v[..1].to_vec()); m.insert(1, v[1..].to_vec()); s::cover("batch"); }
            2 => { let (x, y) = if s::flag("more keys") { (vec![k(0), k(1)], vec![vec![1u8]]) } else { (vec![k(0)], vec![vec![1u8], vec![2u8]]) }; let r = s::nopanic("a lopsided batch does not panic", || db.insert_batch(x, y)); s::check(r.is_err(), "a batch with different numbers of keys and values is refused"); s::cover("lopsided"); }
            3 => { let i = s::pick("key", 2); s::check(db.remove(&k(i)).is_ok(), "removing works"); if light { m.remove(&i); } }
            4 => { s::check(db.remove_batch(&[k(0), k(1)]).is_ok(), "removing a batch works"); if light { m.remove(&0); m.remove(&1); } }
            _ => { s::check(db.flush().is_ok(), "flushing works"); if s::flag("restart") { drop(db); rocksdb::sim::restart(); db = Arc::new(RocksTrieDB::new("state", light).unwrap()); s::cover("restart"); } }
        }
        for i in 0..3 { s::check(db.get(&k(i)).unwrap() == m.get(&i).cloned(), "the database gives back what was written"); s::check(db.contains(&k(i)).unwrap() == m.contains_key(&i), "contains agrees with get"); }
    }
    s::cover(if light { "light" } else { "full" });
}

fn ctx(caller: &Address, asset: Option<CarryingAsset>, used: u64, limit: u64) -> RcInvokeContext {
    Rc::new(RefCell::new(InvokeContext { chain_id: a::chash(0xc1), cycles_price: 1, epoch_id: 1, coinbase: caller.clone(), caller: caller.clone(), fee_asset_id: a::chash(1), cycles_used: used, cycles_limit: limit, carrying_asset: asset }))
}
fn who(k: usize) -> Address { match k { 0 => Address::User(a::cuser(1)), 1 => Address::Contract(a::contract_of(2)), 2 => Address::Contract(a::contract_of(3)), _ => Address::User(a::cuser(4)) } }
/// user and contract accounts: credits, debits and transfers of any amount
#[no_mangle] pub fn st_account() {
    let x = Rc::new(RefCell::new(GeneralContractStateAdapter::new(MPTTrie::new(open())))); let mut c = NativeAccountContract::new(x);
    let id = |k: usize| a::chash(0x50 + k as u8); let mut m: BTreeMap<(usize, usize), BigUint> = BTreeMap::new(); let mut seen = [false; 4];
    let holder = s::pick("holder", 2); let b = BigUint::from_bytes_be(&s::bytes("balance", 1)); c.add_balance(&id(0), &who(holder), b.clone()).unwrap(); m.insert((holder, 0), b); seen[holder] = true;
    for _ in 0..s::param("ops", 1) {
        let n = BigUint::from_bytes_be(&s::bytes("amount", 1)); let w = s::pick("who", 2); let k = s::pick("asset", 2); let have = m.get(&(w, k)).cloned();
        match s::pick("op", 3) {
            0 => { s::check(s::nopanic("crediting does not panic", || c.add_balance(&id(k), &who(w), n.clone())).is_ok(), "crediting works"); *m.entry((w, k)).or_default() += n; seen[w] = true; s::cover("credit"); }
            1 => { let r = s::nopanic("debiting does not panic", || c.sub_balance(&id(k), &who(w), n.clone()));
                   match have { Some(h) if h >= n => { s::check(r.is_ok(), "an account can spend what it has"); m.insert((w, k), h - n); s::cover("debit"); } _ => { s::check(r.is_err(), "an account cannot spend what it does not have"); s::cover("refused"); } } }
            _ => { let to = s::pick("to", 4); let used = s::u64("used"); let limit = s::u64("limit"); s::assume(used < u64::max_value() - 210); let cx = ctx(&who(w), Some(CarryingAsset { asset_id: id(k), amount: n.clone() }), used, limit);
                   let r = s::nopanic("transferring does not panic", || c.transfer(Rc::clone(&cx), &who(to)));
                   match have { Some(h) if h >= n && used + 210 <= limit => { s::check(r.is_ok(), "a covered transfer works"); s::check(cx.borrow().cycles_used == used + 210, "a transfer costs 210 cycles"); m.insert((w, k), h - n.clone()); *m.entry((to, k)).or_default() += n; seen[to] = true; s::cover("transfer"); }
                       _ => { s::check(r.is_err(), "an uncovered transfer is refused"); s::check(cx.borrow().cycles_used == used, "a refused transfer uses no cycles"); s::cover("transfer refused"); s::end() } } }
        }
        for w in 0..4 { for k in 0..2 { let g = c.get_balance(&id(k), &who(w)); if seen[w] { s::check(g.ok() == Some(m.get(&(w, k)).cloned().unwrap_or_default()), "balances are what was credited less what was spent"); } else if g.is_ok() { s::check(g.unwrap() == BigUint::from(0u64), "balances are what was credited less what was spent"); } } }
    }
}
/// nonces and the kinds of accounts
#[no_mangle] pub fn st_account_kind() {
    let x = Rc::new(RefCell::new(GeneralContractStateAdapter::new(MPTTrie::new(open())))); let mut c = NativeAccountContract::new(Rc::clone(&x));
    let w = s::pick("who", 4); let n = s::pick("n", 3) as u64; let amount = BigUint::from(u64::from(s::u8("amount"))); let root = a::hash("root"); let nonce = u64::from(s::u8("nonce")); let existing = s::flag("existing");
    if existing { let acc = match who(w) { Address::User(_) => Account::User(UserAccount { nonce, assets: BTreeMap::new() }), _ => Account::Contract(ContractAccount { nonce, assets: BTreeMap::new(), storage_root: root.clone() }) }; x.borrow_mut().insert_cache::<FixedAccountSchema>(who(w), acc).unwrap(); }
    s::check(c.get_account(&who(w)).is_ok() == existing, "only known accounts are answered for");
    if s::flag("credit first") { c.add_balance(&a::chash(0x50), &who(w), amount.clone()).unwrap(); s::cover("credited"); }
    for _ in 0..n { s::check(c.inc_nonce(ctx(&who(w), None, 0, 0)).is_ok(), "nonces can always grow"); }
    let start = if existing { nonce } else { 0 };
    match (c.get_account(&who(w)), who(w)) {
        (Ok(Account::User(u)), Address::User(_)) => { s::check(u.nonce == start + n, "nonces grow by one"); s::cover("user"); }
        (Ok(Account::Contract(k)), Address::Contract(_)) => { s::check(k.nonce == start + n, "nonces grow by one"); s::check(k.storage_root == if existing { root } else { Hash::from_empty() }, "a contract keeps its storage root"); s::cover("contract"); }
        (Err(_), _) => s::check(!existing && n == 0, "an account exists once it was used"),
        _ => s::check(false, "an account has the kind of its address"),
    }
}
/// the registry of assets
#[no_mangle] pub fn st_bank() {
    let x = Rc::new(RefCell::new(GeneralContractStateAdapter::new(MPTTrie::new(open())))); let chain = if s::flag("chain") { a::chash(0xc1) } else { a::chash(0xc2) }; let mut b = NativeBankContract::new(chain.clone(), Rc::clone(&x));
    let kind = s::pick("kind", 4); let mut ab = s::bytes("address", 21); ab[0] = 0x20 + kind as u8; let at = ContractAddress::from_bytes(Bytes::from(ab.clone())).unwrap(); let used = s::u64("used"); let limit = s::u64("limit"); s::assume(used < u64::max_value() - 2100);
    let cx = ctx(&who(0), None, used, limit); let supply = BigUint::from(u64::from(s::u8("supply")));
    let r = s::nopanic("registering does not panic", || b.register(Rc::clone(&cx), &at, "n".to_owned(), "s".to_owned(), supply.clone()));
    let id = Hash::digest(Bytes::from([chain.as_bytes(), at.as_bytes()].concat())); let ok = kind == 0 && used + 2100 <= limit;
    s::check(r.is_ok() == ok, "an asset contract's asset is registered when the cycles limit allows");
    if ok {
        s::cover("registered"); let r = r.unwrap(); s::check(r.id == id, "an asset's id is the hash of chain and contract"); s::check(cx.borrow().cycles_used == used + 2100, "registering costs 2100 cycles");
        x.borrow_mut().stash().unwrap(); if s::flag("commit") { x.borrow_mut().commit().unwrap(); }
        let g = b.get_asset(Rc::clone(&cx), &id); s::check(g.is_ok(), "a registered asset is known"); let g = g.unwrap(); s::check(g == r && g.supply == supply && g.manage_contract == at && g.name == "n" && g.symbol == "s" && g.storage_root == Hash::from_empty(), "a registered asset keeps its data");
        let c2 = ctx(&who(0), None, 0, 99999); s::check(b.register(Rc::clone(&c2), &at, "m".to_owned(), "t".to_owned(), BigUint::from(1u64)).is_err(), "an asset is registered once"); s::check(b.get_asset(c2, &id).unwrap() == g, "an asset is registered once");
    } else { s::cover("refused"); s::check(cx.borrow().cycles_used == used, "a refused registration uses no cycles"); }
    s::check(b.get_asset(cx, &a::chash(0x99)).is_err(), "an unknown asset is not known");
}
/// cycles
#[no_mangle] pub fn st_cycles() {
    let used = s::u64("used"); let limit = s::u64("limit"); let (act, cost) = if s::flag("transfer") { (CyclesAction::AccountTransfer, 210) } else { (CyclesAction::BankRegister, 2100) }; s::assume(used < u64::max_value() - cost);
    match s::nopanic("counting cycles does not panic", || consume_cycles(act, used, limit)) { Ok(n) => { s::check(n == used + cost, "cycles add up"); s::check(n <= limit, "cycles stay within the limit"); s::cover("within"); } Err(_) => { s::check(used + cost > limit, "cycles within the limit are granted"); s::cover("over"); } }
}
/// many keys: one trie and one state adapter with all of them, committed, reopened, written over
#[no_mangle] pub fn st_many() {
    let n = s::param("keys", 48) as usize; let sym = s::bytes("value", 2); let k = |i: usize| Bytes::from(if i % 3 == 0 { vec![0x12, i as u8] } else { vec![i as u8, 0x34, (i * 5) as u8] }); let v = |i: usize, turn: u8| Bytes::from(vec![sym[i % 2], turn, i as u8]); let rev = s::flag("backwards");
    let db = open(); let order: Vec<usize> = if rev { (0..n).rev().collect() } else { (0..n).collect() };
    let mut x = GeneralContractStateAdapter::new(MPTTrie::new(Arc::clone(&db))); for i in &order { s::check(x.insert_cache::<FixedBytesSchema>(k(*i), v(*i, 0)).is_ok(), "inserting works"); if i % 10 == 9 { s::check(x.stash().is_ok(), "stashing works"); } }
    let whole = |x: &GeneralContractStateAdapter<RocksTrieDB>, turn: &dyn Fn(usize) -> u8| for i in 0..n { s::check(x.get::<FixedBytesSchema>(&k(i)).ok() == Some(Some(v(i, turn(i)))), "the latest write that was not reverted is read"); s::check(x.contains::<FixedBytesSchema>(&k(i)).ok() == Some(true), "contains agrees with get"); };
    whole(&x, &|_| 0); x.stash().unwrap(); whole(&x, &|_| 0); let r1 = x.commit(); s::check(r1.is_ok(), "committing works"); let r1 = r1.unwrap(); whole(&x, &|_| 0);
    for i in 0..n { x.insert_cache::<FixedBytesSchema>(k(i), v(i, 9)).unwrap(); } x.revert_cache().unwrap(); whole(&x, &|_| 0);
    for i in 0..n / 2 { x.insert_cache::<FixedBytesSchema>(k(i), v(i, 1)).unwrap(); } x.stash().unwrap(); for i in n / 2..n { x.insert_cache::<FixedBytesSchema>(k(i), v(i, 2)).unwrap(); } x.revert_cache().unwrap();
    let turn = |i: usize| if i < n / 2 { 1 } else { 0 }; whole(&x, &turn); let r2 = x.commit().unwrap(); whole(&x, &turn); drop(x);
    let root = |turn: &dyn Fn(usize) -> u8| { let mut t = MPTTrie::new(Arc::new(cita_trie::MemoryDB::new(false))); for i in order.iter().rev() { t.insert(k(*i).encode_fixed().unwrap(), v(*i, turn(*i)).encode_fixed().unwrap()).unwrap(); } t.commit().unwrap() };
    s::check(r1 == root(&|_| 0) && r2 == root(&turn), "the committed root is the root of exactly the stashed state"); drop(db); rocksdb::sim::restart(); let db = open();
    for (r, second) in vec![(r1, false), (r2, true)] { let t = MPTTrie::from(r, Arc::clone(&db)); s::check(t.is_ok(), "every committed root can be opened later"); let t = t.ok().unwrap(); for i in 0..n { s::check(t.get(&k(i).encode_fixed().unwrap()).unwrap() == Some(v(i, if second { turn(i) } else { 0 }).encode_fixed().unwrap()), "every committed root keeps its contents"); } s::check(t.get(&Bytes::from(vec![0xee]).encode_fixed().unwrap()).unwrap().is_none(), "a trie gives back what was written"); }
    s::cover(if rev { "backwards" } else { "forwards" });
}
s::entries!(st_adapter, st_trie, st_db, st_account, st_account_kind, st_bank, st_cycles, st_many);
