#![feature(bind_by_move_pattern_guards)]
//! Storage: what is stored is found again, by every key, after restarts and crashes.
//@ deps: protocol bytes num_bigint core_storage rocksdb serde_json
use anyval as a;
use bytes::Bytes;
use core_storage::adapter::memory::MemoryAdapter;
use core_storage::adapter::rocks::RocksAdapter;
use core_storage::*;
use protocol::codec::ProtocolCodec;
use protocol::traits::{Storage, StorageAdapter, StorageBatchModify};
use protocol::types::*;
use protocol::ProtocolResult;
use std::collections::BTreeMap;
use std::sync::Arc;
use symrt as s;

fn rocks() -> Arc<RocksAdapter> { Arc::new(RocksAdapter::new("chain").unwrap()) }
fn th(k: usize) -> Hash { a::chash(0x61 + k as u8) }
fn tx(k: usize) -> SignedTransaction { let mut t = s::concrete(|| { let mut g = a::Gen::plain(); let x = a::transfer(&mut g); let r = a::raw(&mut g, x); a::signed(&mut g, r) }); t.tx_hash = th(k); t.signature = Bytes::from(s::bytes("tx", 1)); t }
fn receipt(k: usize) -> Receipt { let mut r = s::concrete(|| a::receipt(&mut a::Gen::plain(), 0)); r.tx_hash = th(k); let mut b = vec![9u8; 32]; b[5] = s::u8("receipt"); r.state_root = Hash::from_bytes(Bytes::from(b)).unwrap(); r }
fn epoch(id: u64) -> Epoch { let mut e = s::concrete(|| a::epoch(&mut a::Gen::plain(), 1)); e.header.epoch_id = id; let mut b = vec![9u8; 32]; b[5] = s::u8("epoch"); e.header.state_root = Hash::from_bytes(Bytes::from(b)).unwrap(); e }
fn proof() -> Proof { let mut p = s::concrete(|| a::proof(&mut a::Gen::plain())); p.signature = Bytes::from(s::bytes("proof", 2)); p }
/// the hash an epoch is filed under
fn hash_of(e: &Epoch) -> Hash { let mut h = e.header.clone(); Hash::digest(s::block_on(h.encode()).unwrap()) }

#[derive(Default)]
struct Model { tx: BTreeMap<usize, SignedTransaction>, rc: BTreeMap<usize, Receipt>, ep: Vec<Epoch>, proof: Option<Proof> }
fn agree<A: StorageAdapter>(st: &ImplStorage<A>, m: &Model) {
    for k in 0..3 {
        let r = s::nopanic("a lookup does not panic", || s::block_on(st.get_transaction_by_hash(th(k)))); s::check(r.ok() == m.tx.get(&k).cloned(), "a stored transaction is found by its hash");
        let r = s::nopanic("a lookup does not panic", || s::block_on(st.get_receipt(th(k)))); s::check(r.ok() == m.rc.get(&k).cloned(), "a stored receipt is found by its transaction's hash");
    }
  for order in [[2usize, 0, 1], [1, 2, 0]].iter() {
    let want: Vec<_> = order.iter().filter_map(|k| m.tx.get(k).cloned()).collect();
    s::check(s::block_on(st.get_transactions(order.iter().map(|k| th(*k)).collect())).ok() == Some(want), "a batch lookup gives the stored transactions in the order asked");
    let want: Vec<_> = order.iter().filter_map(|k| m.rc.get(k).cloned()).collect();
    s::check(s::block_on(st.get_receipts(order.iter().map(|k| th(*k)).collect())).ok() == Some(want), "a batch lookup gives the stored receipts in the order asked");
  }
    s::check(s::block_on(st.get_latest_proof()).ok() == m.proof, "the latest proof is the last one stored");
    s::check(s::block_on(st.get_latest_epoch()).ok() == m.ep.last().cloned(), "the latest epoch is the last one stored");
    for (i, e) in m.ep.iter().enumerate() {
        let newest = m.ep[i..].iter().filter(|x| x.header.epoch_id == e.header.epoch_id).last().unwrap();
        s::check(s::block_on(st.get_epoch_by_epoch_id(e.header.epoch_id)).ok().as_ref() == Some(newest), "an epoch is found by its id"); s::check(s::block_on(st.get_epoch_by_hash(hash_of(e))).ok().as_ref() == Some(newest), "an epoch is found by its hash");
    }
    s::check(s::block_on(st.get_epoch_by_epoch_id(0x7777)).is_err(), "an epoch that was not stored is not found"); s::check(s::block_on(st.get_epoch_by_hash(a::chash(0xee))).is_err(), "an epoch that was not stored is not found");
}
fn step<A: StorageAdapter>(st: &ImplStorage<A>, m: &mut Model, wide: bool) {
    match s::pick("op", 4) {
        0 => { let l = match s::pick("txs", 3) { 0 => vec![tx(0)], 1 => vec![tx(1), tx(0)], _ => vec![] }; s::check(s::block_on(st.insert_transactions(l.clone())).is_ok(), "transactions are stored"); for t in l { m.tx.insert((0..3).find(|k| th(*k) == t.tx_hash).unwrap(), t); } s::cover("transactions"); }
        1 => { let l = match s::pick("receipts", 3) { 0 => vec![receipt(0)], 1 => vec![receipt(1), receipt(0)], _ => vec![] }; s::check(s::block_on(st.insert_receipts(l.clone())).is_ok(), "receipts are stored"); for t in l { m.rc.insert((0..3).find(|k| th(*k) == t.tx_hash).unwrap(), t); } s::cover("receipts"); }
        2 => { let id = if wide { a::u64w("id") } else { s::pick("id", 3) as u64 }; s::assume(id != 0x7777); let e = epoch(id); s::check(s::block_on(st.insert_epoch(e.clone())).is_ok(), "an epoch is stored"); m.ep.push(e); s::cover("epoch"); }
        _ => { let p = proof(); s::check(s::block_on(st.update_latest_proof(p.clone())).is_ok(), "a proof is stored"); m.proof = Some(p); s::cover("proof"); }
    }
}
#[no_mangle] pub fn sg_rocks() {
    let mut st = ImplStorage::new(rocks()); let mut m = Model::default();
    for i in 0..s::param("ops", 2) { step(&st, &mut m, false); if i == 0 || s::flag("restart") { drop(st); rocksdb::sim::restart(); st = ImplStorage::new(rocks()); } agree(&st, &m); }
}
#[no_mangle] pub fn sg_memory() { let st = ImplStorage::new(Arc::new(MemoryAdapter::new())); let mut m = Model::default(); for _ in 0..s::param("ops", 2) { step(&st, &mut m, false); agree(&st, &m); } }
/// epochs with any ids
#[no_mangle] pub fn sg_epoch_ids() {
    let st = ImplStorage::new(rocks()); let base = [0u64, 0x4000, 0xffff_ffff, 1 << 56][s::pick("base", 4)]; let x = base.wrapping_add(u64::from(s::u8("id"))); let y = match s::pick("other", 3) { 0 => x.wrapping_sub(1), 1 => x ^ (1 << 32), _ => x ^ (1 << 8) };
    let (ex, ey) = (epoch(x), epoch(y)); s::check(s::block_on(st.insert_epoch(ex.clone())).is_ok() && s::block_on(st.insert_epoch(ey.clone())).is_ok(), "an epoch is stored"); s::cover("epochs");
    let g = |k| s::block_on(st.get_epoch_by_epoch_id(k)).ok(); s::check(g(x).map_or(false, |e| e == ex), "an epoch is found by its id"); s::check(g(y).map_or(false, |e| e == ey), "an epoch is found by its id");
    s::check(s::block_on(st.get_latest_epoch()).ok().map_or(false, |e| e == ey), "the latest epoch is the one inserted last"); s::check(s::block_on(st.get_epoch_by_hash(hash_of(&ex))).ok().map_or(false, |e| e == ex), "an epoch is found by its hash");
}
/// the disk fails at any write; the process restarts
#[no_mangle] pub fn sg_crash() {
    let mut m = Model::default(); let (e1, e2) = (epoch(4), epoch(5)); let (t0, t1, r0, r1) = (tx(0), tx(1), receipt(0), receipt(1)); let (p1, p2) = (proof(), proof());
    { let st = ImplStorage::new(rocks()); s::block_on(st.insert_epoch(e1.clone())).unwrap(); m.ep.push(e1.clone()); s::block_on(st.update_latest_proof(p1.clone())).unwrap(); m.proof = Some(p1);
      rocksdb::sim::fail_after(s::pick("at", 7) as u64); let mut ok = true;
      for k in 0..4 {
          let r = s::nopanic("a disk error is an error", || match k { 0 => s::block_on(st.insert_transactions(vec![t0.clone(), t1.clone()])), 1 => s::block_on(st.insert_receipts(vec![r0.clone(), r1.clone()])), 2 => s::block_on(st.insert_epoch(e2.clone())), _ => s::block_on(st.update_latest_proof(p2.clone())) });
          s::check(r.is_ok() != rocksdb::sim::is_down(), "what was not written is not reported as stored");
          if r.is_err() { ok = false; break; }
          match k { 0 => { m.tx.insert(0, t0.clone()); m.tx.insert(1, t1.clone()); } 1 => { m.rc.insert(0, r0.clone()); m.rc.insert(1, r1.clone()); } 2 => m.ep.push(e2.clone()), _ => m.proof = Some(p2.clone()) }
      }
      if ok { s::cover("completed") } else { s::cover("crashed") } }
    rocksdb::sim::restart(); let st = ImplStorage::new(rocks());
    for k in 0..2 { if let Some(t) = m.tx.get(&k) { s::check(s::block_on(st.get_transaction_by_hash(th(k))).ok().as_ref() == Some(t), "a transaction reported as stored survives a crash"); } if let Some(t) = m.rc.get(&k) { s::check(s::block_on(st.get_receipt(th(k))).ok().as_ref() == Some(t), "a receipt reported as stored survives a crash"); } }
    let n = s::block_on(st.get_transactions(vec![th(0), th(1)])).unwrap().len(); s::check(n == 0 || n == 2, "a batch of transactions is stored whole or not at all"); let n = s::block_on(st.get_receipts(vec![th(0), th(1)])).unwrap().len(); s::check(n == 0 || n == 2, "a batch of receipts is stored whole or not at all");
    let l = s::block_on(st.get_latest_epoch()); s::check(l.is_ok(), "there is a latest epoch after a crash"); let l = l.unwrap();
    s::check(if m.ep.len() == 2 { l == e2 } else { l == e1 || l == e2 }, "the latest epoch after a crash is one that was being stored or was stored before"); if l == e1 && s::block_on(st.get_epoch_by_epoch_id(5)).is_ok() { s::cover("half way"); }
    s::check(s::block_on(st.get_epoch_by_epoch_id(l.header.epoch_id)).ok().as_ref() == Some(&l), "the latest epoch is found by its id after a crash"); s::check(s::block_on(st.get_epoch_by_hash(hash_of(&l))).ok().as_ref() == Some(&l), "the latest epoch is found by its hash after a crash");
    s::check(s::block_on(st.get_epoch_by_epoch_id(4)).ok().as_ref() == Some(&e1) && s::block_on(st.get_epoch_by_hash(hash_of(&e1))).ok().as_ref() == Some(&e1), "earlier epochs survive a crash");
    let p = s::block_on(st.get_latest_proof()); s::check(p.is_ok() && p.ok() == m.proof, "the latest proof survives a crash");
}
/// the adapters' own operations: insert, remove, contains, batches of inserts and removals
fn adapter_ops<A: StorageAdapter>(x: &A) {
    let mut m: BTreeMap<usize, SignedTransaction> = BTreeMap::new();
    if s::flag("full") { let t = s::concrete(|| tx(0)); for k in 0..20 { s::block_on(x.insert::<TransactionSchema>(a::chash(0x90 + k), t.clone())).unwrap(); } }
    for _ in 0..s::param("ops", 2) {
        match s::pick("op", 5) {
            0 => { let k = s::pick("key", 2); let t = tx(k); s::check(s::block_on(x.insert::<TransactionSchema>(th(k), t.clone())).is_ok(), "inserting works"); m.insert(k, t); }
            1 => { let k = s::pick("key", 2); s::check(s::block_on(x.remove::<TransactionSchema>(th(k))).is_ok(), "removing works"); m.remove(&k); s::cover("remove"); }
            2 => { let t = tx(0); s::check(s::block_on(x.batch_modify::<TransactionSchema>(vec![th(1), th(0)], vec![StorageBatchModify::Remove, StorageBatchModify::Insert(t.clone())])).is_ok(), "a batch works"); m.remove(&1); m.insert(0, t); s::cover("batch"); }
            3 => { let t = tx(1); let r = s::nopanic("a lopsided batch does not panic", || if s::flag("more keys") { s::block_on(x.batch_modify::<TransactionSchema>(vec![th(1), th(0)], vec![StorageBatchModify::Insert(t)])) } else { s::block_on(x.batch_modify::<TransactionSchema>(vec![th(1)], vec![StorageBatchModify::Insert(t), StorageBatchModify::Remove])) }); s::check(r.is_err(), "a batch with different numbers of keys and values is refused"); s::cover("lopsided"); }
            _ => { s::check(s::block_on(x.insert::<ReceiptSchema>(th(0), receipt(0))).is_ok(), "inserting works"); s::check(s::block_on(x.remove::<ReceiptSchema>(th(1))).is_ok(), "removing works"); s::cover("other category"); }
        }
        for k in 0..3 { s::check(s::block_on(x.get::<TransactionSchema>(th(k))).ok() == Some(m.get(&k).cloned()), "a key gives its latest value"); s::check(s::block_on(x.contains::<TransactionSchema>(th(k))).ok() == Some(m.contains_key(&k)), "contains agrees with get"); }
        s::check(s::block_on(x.get_batch::<TransactionSchema>(vec![th(2), th(1), th(0)])).ok() == Some(vec![None, m.get(&1).cloned(), m.get(&0).cloned()]), "a batch lookup is aligned with its keys");
    }
}
#[no_mangle] pub fn sg_adapter() { if s::flag("rocks") { adapter_ops(&*rocks()) } else { adapter_ops(&MemoryAdapter::new()) } }
/// a reader beside a writer, and two writers: what is announced as latest is found by its id and hash, nothing stored is lost
fn race<A: StorageAdapter + 'static>(st: Arc<ImplStorage<A>>) {
    s::preempts(s::param("preempts", 1)); let ep = |id: u64| { s::concrete(|| { let mut e = a::epoch(&mut a::Gen::plain(), 1); e.header.epoch_id = id; e }) }; let (e1, e2) = (ep(1), ep(2)); s::block_on(st.insert_epoch(e1.clone())).unwrap();
    let (t0, t1, r0, r1) = s::concrete(|| (tx(0), tx(1), receipt(0), receipt(1))); let kind = s::pick("kind", 4); let pf = s::concrete(proof); let mut hs = vec![];
    let w = { let (st, e, t, r) = (st.clone(), e2.clone(), t0.clone(), r0.clone()); move || { if kind == 1 { s::block_on(st.insert_transactions(vec![t])).unwrap(); } else if kind == 2 { s::block_on(st.insert_receipts(vec![r])).unwrap(); } else { s::block_on(st.insert_epoch(e)).unwrap(); } } }; hs.push(s::spawn(w));
    let o = { let (st, t, r, pf) = (st.clone(), t1.clone(), r1.clone(), pf.clone()); let (e1, e2) = (e1.clone(), e2.clone()); move || {
        if kind == 1 { s::block_on(st.insert_transactions(vec![t])).unwrap(); } else if kind == 2 { s::block_on(st.insert_receipts(vec![r])).unwrap(); } else if kind == 3 { s::block_on(st.update_latest_proof(pf)).unwrap(); } else {
            let l = s::block_on(st.get_latest_epoch()).ok(); s::check(l.as_ref() == Some(&e1) || l.as_ref() == Some(&e2), "there is a latest epoch while another is stored"); let l = l.unwrap();
            s::check(s::block_on(st.get_epoch_by_epoch_id(l.header.epoch_id)).ok().as_ref() == Some(&l) && s::block_on(st.get_epoch_by_hash(hash_of(&l))).ok().as_ref() == Some(&l), "the latest epoch is found by its id and hash while another is stored");
        } } }; hs.push(s::spawn(o)); for h in hs { s::join(h); }
    match kind { 0 => { s::check(s::block_on(st.get_latest_epoch()).ok() == Some(e2), "the last epoch stored is the latest"); s::cover("read while written"); }
        1 => { s::check(s::block_on(st.get_transactions(vec![th(0), th(1)])).ok() == Some(vec![t0, t1]), "transactions stored at once are both there"); s::cover("transactions"); }
        3 => { s::check(s::block_on(st.get_latest_epoch()).ok() == Some(e2.clone()) && s::block_on(st.get_epoch_by_hash(hash_of(&e2))).ok() == Some(e2.clone()) && s::block_on(st.get_epoch_by_epoch_id(2)).ok() == Some(e2), "an epoch stored beside a proof is there"); s::check(s::block_on(st.get_latest_proof()).ok() == Some(pf), "a proof stored beside an epoch is there"); s::cover("proof"); }
        _ => { s::check(s::block_on(st.get_receipts(vec![th(0), th(1)])).ok() == Some(vec![r0, r1]), "receipts stored at once are both there"); s::cover("receipts"); } }
}
#[no_mangle] pub fn sg_race() { race(Arc::new(ImplStorage::new(Arc::new(MemoryAdapter::new())))) }
#[no_mangle] pub fn sg_race_rocks() { race(Arc::new(ImplStorage::new(rocks()))) }
/// one read or write fails, the others work: the operation it fell in reports it, and nothing else happens
#[no_mangle] pub fn sg_glitch() {
    let (t, r) = ([tx(0), tx(1), tx(2)], [receipt(0), receipt(1), receipt(2)]); let mut m = Model::default(); let (e1, e2, p1, p2) = (epoch(4), epoch(5), proof(), proof()); let st = ImplStorage::new(rocks());
    s::block_on(st.insert_transactions(vec![t[0].clone()])).unwrap(); m.tx.insert(0, t[0].clone()); s::block_on(st.insert_receipts(vec![r[0].clone()])).unwrap(); m.rc.insert(0, r[0].clone()); s::block_on(st.insert_epoch(e1.clone())).unwrap(); m.ep.push(e1.clone()); s::block_on(st.update_latest_proof(p1.clone())).unwrap(); m.proof = Some(p1);
    if s::flag("write") {
        rocksdb::sim::glitch_write_after(s::pick("at", 6) as u64); let l = m.ep.clone();
        for k in 0..4 {
            let got = s::nopanic("a disk error is an error", || match k { 0 => s::block_on(st.insert_transactions(vec![t[1].clone(), t[2].clone()])), 1 => s::block_on(st.insert_receipts(vec![r[1].clone(), r[2].clone()])), 2 => s::block_on(st.insert_epoch(e2.clone())), _ => s::block_on(st.update_latest_proof(p2.clone())) });
            let hit = rocksdb::sim::glitched(); s::check(got.is_err() == hit, "a write that failed is reported, and only that"); if hit { s::cover("write failed"); if k == 2 { let x = s::block_on(st.get_latest_epoch()).ok(); s::check(x.as_ref() == Some(&e1) || x.as_ref() == Some(&e2), "there is a latest epoch after a disk error"); let x = x.unwrap(); s::check(s::block_on(st.get_epoch_by_epoch_id(x.header.epoch_id)).ok().as_ref() == Some(&x) && s::block_on(st.get_epoch_by_hash(hash_of(&x))).ok().as_ref() == Some(&x), "the latest epoch is found by its id and hash after a disk error"); return; } continue; }
            match k { 0 => { m.tx.insert(1, t[1].clone()); m.tx.insert(2, t[2].clone()); } 1 => { m.rc.insert(1, r[1].clone()); m.rc.insert(2, r[2].clone()); } 2 => m.ep.push(e2.clone()), _ => m.proof = Some(p2.clone()) }
        }
        s::check(m.ep.len() == l.len() + 1, "setup"); agree(&st, &m);
    } else {
        s::block_on(st.insert_transactions(vec![t[1].clone()])).unwrap(); let want = vec![t[0].clone(), t[1].clone()]; rocksdb::sim::glitch_read_after(s::pick("at", 4) as u64); let what = s::pick("what", 8);
        fn is<T: PartialEq>(r: ProtocolResult<T>, want: T) { let hit = rocksdb::sim::glitched(); s::check(match &r { Ok(x) => *x == want && !hit, Err(_) => hit }, "a read that failed is reported, not taken for nothing"); s::cover(if hit { "read failed" } else { "read" }) }
        s::nopanic("a disk error is an error", || match what {
            0 => is(s::block_on(st.get_transactions(vec![th(0), th(1)])), want), 1 => is(s::block_on(st.get_transaction_by_hash(th(0))), t[0].clone()), 2 => is(s::block_on(st.get_receipts(vec![th(1), th(0)])), vec![r[0].clone()]), 3 => is(s::block_on(st.get_receipt(th(0))), r[0].clone()),
            4 => is(s::block_on(st.get_latest_epoch()), e1.clone()), 5 => is(s::block_on(st.get_epoch_by_hash(hash_of(&e1))), e1.clone()), 6 => is(s::block_on(st.get_epoch_by_epoch_id(4)), e1.clone()), _ => is(s::block_on(st.get_latest_proof()), m.proof.clone().unwrap()) });
        // the failure, when it did not strike yet, is not to strike the rest
        rocksdb::sim::restart(); drop(st); m.tx.insert(1, t[1].clone()); agree(&ImplStorage::new(rocks()), &m);
    }
}
/// an adapter whose read or write fails once
#[no_mangle] pub fn sg_adapter_glitch() {
    let t = [tx(0), tx(1)]; let x = rocks(); s::block_on(x.insert::<TransactionSchema>(th(0), t[0].clone())).unwrap(); let what = s::pick("what", 6); if what < 3 { rocksdb::sim::glitch_read_after(s::pick("at", 2) as u64) } else { rocksdb::sim::glitch_write_after(s::pick("at", 2) as u64) }
    let ok = s::nopanic("a disk error is an error", || match what { 0 => s::block_on(x.get::<TransactionSchema>(th(0))).map(|v| s::check(v == Some(t[0].clone()), "a key gives its latest value")).is_ok(), 1 => s::block_on(x.contains::<TransactionSchema>(th(0))).map(|v| s::check(v, "contains agrees with get")).is_ok(), 2 => s::block_on(x.get_batch::<TransactionSchema>(vec![th(0), th(1)])).map(|v| s::check(v == vec![Some(t[0].clone()), None], "a batch lookup is aligned with its keys")).is_ok(),
        3 => s::block_on(x.insert::<TransactionSchema>(th(1), t[1].clone())).is_ok(), 4 => s::block_on(x.remove::<TransactionSchema>(th(0))).is_ok(), _ => s::block_on(x.batch_modify::<TransactionSchema>(vec![th(1), th(0)], vec![StorageBatchModify::Insert(t[1].clone()), StorageBatchModify::Remove])).is_ok() });
    let hit = rocksdb::sim::glitched(); s::check(ok != hit, "a disk error is reported, and only that"); rocksdb::sim::restart(); drop(x); let x = rocks(); s::cover(if hit { "failed" } else { "worked" });
    let (t0, t1) = (ok && what >= 4, ok && (what == 3 || what == 5)); s::check(s::block_on(x.get::<TransactionSchema>(th(0))).ok() == Some(if t0 { None } else { Some(t[0].clone()) }) && s::block_on(x.get::<TransactionSchema>(th(1))).ok() == Some(if t1 { Some(t[1].clone()) } else { None }), "a write happens whole when it is reported, and not at all otherwise");
}
/// more than a handful: many transactions, receipts and epochs, asked for together and one by one
fn many<A: StorageAdapter>(st: ImplStorage<A>) -> Vec<Epoch> {
    let n = s::param("txs", 40) as usize; let h = |k: usize| { let mut b = vec![0x33u8; 32]; b[(k * 7) % 31] = k as u8; b[31] = k as u8; Hash::from_bytes(Bytes::from(b)).unwrap() };
    let (sym, split) = (s::bytes("tx", 2), [n, n / 2, 1][s::pick("split", 3)]); let (t0, r0) = (tx(0), receipt(0));
    let txs: Vec<SignedTransaction> = (0..n).map(|k| { let mut t = t0.clone(); t.tx_hash = h(k); t.signature = Bytes::from(vec![sym[k % 2], k as u8]); t }).collect();
    let rcs: Vec<Receipt> = (0..n).map(|k| { let mut r = r0.clone(); r.tx_hash = h(k); r.epoch_id = k as u64 + 5; r }).collect();
    for c in txs.chunks(split) { s::check(s::block_on(st.insert_transactions(c.to_vec())).is_ok(), "inserting works"); }
    for c in rcs.chunks(split) { s::check(s::block_on(st.insert_receipts(c.to_vec())).is_ok(), "inserting works"); }
    s::cover(if split == 1 { "one by one" } else { "together" });
    for k in 0..n { s::check(s::block_on(st.get_transaction_by_hash(h(k))).ok().as_ref() == Some(&txs[k]), "a stored transaction is found by its hash"); s::check(s::block_on(st.get_receipt(h(k))).ok().as_ref() == Some(&rcs[k]), "a stored receipt is found by its transaction's hash"); }
    // in another order, some twice, some unknown
    let ask: Vec<usize> = (0..n + 3).rev().chain(vec![0, n / 2, n + 1, 0]).collect();
    let want: Vec<_> = ask.iter().filter(|k| **k < n).map(|k| txs[*k].clone()).collect(); s::check(s::block_on(st.get_transactions(ask.iter().map(|k| h(*k)).collect())).ok() == Some(want), "a batch lookup gives the stored transactions in the order asked");
    let want: Vec<_> = ask.iter().filter(|k| **k < n).map(|k| rcs[*k].clone()).collect(); s::check(s::block_on(st.get_receipts(ask.iter().map(|k| h(*k)).collect())).ok() == Some(want), "a batch lookup gives the stored receipts in the order asked");
    s::check(s::block_on(st.get_transactions(vec![])).ok() == Some(vec![]) && s::block_on(st.get_receipts(vec![])).ok() == Some(vec![]), "nothing asked, nothing given");
    let base = [0u64, 250, u64::from(u32::max_value()) - 8, u64::max_value() - 40][s::pick("base", 4)]; let e0 = epoch(0);
    let eps: Vec<Epoch> = (0..s::param("epochs", 20)).map(|i| { let mut e = e0.clone(); e.header.epoch_id = base + i; e.header.timestamp = 77 + i; e }).collect();
    for (i, e) in eps.iter().enumerate() { s::check(s::block_on(st.insert_epoch(e.clone())).is_ok(), "inserting works"); s::check(s::block_on(st.get_latest_epoch()).ok().as_ref() == Some(e), "the latest epoch is the last one stored"); s::check(s::block_on(st.get_epoch_by_epoch_id(base)).ok().as_ref() == Some(&eps[0]) && s::block_on(st.get_epoch_by_epoch_id(base + i as u64 + 1)).is_err(), "stored epochs are found by id, others are not"); }
    epochs_there(&st, &eps); eps
}
fn epochs_there<A: StorageAdapter>(st: &ImplStorage<A>, eps: &[Epoch]) { for e in eps { s::check(s::block_on(st.get_epoch_by_epoch_id(e.header.epoch_id)).ok().as_ref() == Some(e), "a stored epoch is found by its id"); s::check(s::block_on(st.get_epoch_by_hash(hash_of(e))).ok().as_ref() == Some(e), "a stored epoch is found by its hash"); } s::check(s::block_on(st.get_latest_epoch()).ok().as_ref() == eps.last(), "the latest epoch is the last one stored"); }
#[no_mangle] pub fn sg_many() { many(ImplStorage::new(Arc::new(MemoryAdapter::new()))); }
#[no_mangle] pub fn sg_many_rocks() { let e = many(ImplStorage::new(rocks())); rocksdb::sim::restart(); epochs_there(&ImplStorage::new(rocks()), &e); }
s::entries!(sg_rocks, sg_memory, sg_epoch_ids, sg_crash, sg_adapter, sg_race, sg_race_rocks, sg_many, sg_many_rocks, sg_glitch, sg_adapter_glitch);
