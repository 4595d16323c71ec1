//! Protobuf codec: what goes over the wire and into the block and transaction stores.
//@ deps: protocol bytes num_bigint prost serde_json
use anyval as a;
use anyval::Gen;
use bytes::Bytes;
use protocol::codec::ProtocolCodec;
use protocol::types::*;
use symrt as s;

fn enc<T: ProtocolCodec + Clone>(x: &T) -> Option<Bytes> { let mut y = x.clone(); s::block_on(y.encode()).ok() }
fn dec<T: ProtocolCodec>(b: Bytes) -> Option<T> { s::block_on(T::decode(b)).ok() }
fn rt<T: ProtocolCodec + Clone + PartialEq>(x: T, name: &str) { a::roundtrip(x, name, enc, dec) }
fn hd<T: ProtocolCodec + Clone + PartialEq>(f: impl FnOnce(&mut Gen) -> T, name: &str) { let base = s::concrete(|| f(&mut Gen::plain())); a::survives(base, name, s::param("len", 6) as usize, enc, dec) }
/// the `k`-th variant of a type
fn hdk<T: ProtocolCodec + Clone + PartialEq>(k: usize, f: impl Fn(&mut Gen, usize) -> T, name: &str) { let (base, like) = s::concrete(|| (f(&mut Gen::plain(), k), if k > 0 { Some(f(&mut Gen::plain(), 0)) } else { None })); a::survives_like(base, like, name, s::param("len", 6) as usize, enc, dec) }

#[no_mangle] pub fn px_hash() { a::varints(); rt(a::hash("h"), "Hash") }
#[no_mangle] pub fn px_balance() { a::varints(); let mut g = Gen::one_wide(1); rt(g.bal("b"), "Balance") }
#[no_mangle] pub fn px_address() { a::varints(); if s::flag("user") { rt(a::user("u"), "UserAddress") } else { rt(a::contract("c"), "ContractAddress") } }
#[no_mangle] pub fn px_fee() { a::varints(); let mut g = Gen::one_wide(1); rt(a::fee(&mut g), "Fee") }
#[no_mangle] pub fn px_asset() { a::varints(); let mut g = Gen::one_wide(1); rt(a::asset(&mut g), "Asset") }
#[no_mangle] pub fn px_raw() { a::varints(); let k = s::pick("action", 5); let mut g = Gen::one_wide([3, 2, 3, 2, 3][k]); let x = a::action(&mut g, k); rt(a::raw(&mut g, x), "RawTransaction") }
#[no_mangle] pub fn px_signed() { a::varints(); let k = s::pick("action", 5); let mut p = Gen::plain(); let x = a::action(&mut p, k); let r = a::raw(&mut p, x); let mut g = Gen::small(); rt(a::signed(&mut g, r), "SignedTransaction") }
#[no_mangle] pub fn px_receipt() { a::varints(); let k = s::pick("result", 5); let mut g = Gen::one_wide([4, 2, 2, 2, 3][k]); rt(a::receipt(&mut g, k), "Receipt") }
#[no_mangle] pub fn px_proof() { a::varints(); let mut g = Gen::one_wide(2); rt(a::proof(&mut g), "Proof") }
#[no_mangle] pub fn px_validator() { a::varints(); let mut g = Gen::one_wide(2); rt(a::validator(&mut g), "Validator") }
#[no_mangle] pub fn px_header() { a::varints(); let mut g = Gen::one_wide(a::HEADER_INTS); rt(a::header(&mut g), "EpochHeader") }
#[no_mangle] pub fn px_epoch() { a::varints(); let mut g = Gen::small(); let n = s::pick("n", 3); rt(a::epoch(&mut g, n), "Epoch") }
#[no_mangle] pub fn px_pill() { a::varints(); let mut g = Gen::small(); let n = s::pick("n", 3); rt(Pill { epoch: a::epoch(&mut g, n), propose_hashes: a::hashes("p", 2 - n) }, "Pill") }
#[no_mangle] pub fn px_epochid() { a::varints(); rt(EpochId { id: a::u64w("id") }, "EpochId") }

/// large values of every type with parts of variable size
#[no_mangle] pub fn px_big() {
    let k = s::pick("type", 8); let mut g = Gen::big();
    match k {
        0 => rt(a::asset(&mut g), "Asset"), 1 => rt(g.bal("b"), "Balance"),
        2 => { let k = s::pick("action", 5); let x = a::action(&mut g, k); rt(a::raw(&mut g, x), "RawTransaction") }
        3 => { let mut p = Gen::plain(); let x = a::action(&mut p, 0); let r = a::raw(&mut p, x); rt(a::signed(&mut g, r), "SignedTransaction") }
        4 => { let k = s::pick("result", 5); rt(a::receipt(&mut g, k), "Receipt") }
        5 => rt(a::proof(&mut g), "Proof"), 6 => rt(a::epoch(&mut g, 1), "Epoch"), _ => { let e = s::concrete(|| a::epoch(&mut Gen::plain(), 1)); let n = g.list(1); rt(Pill { epoch: e, propose_hashes: a::hashes("p", n) }, "Pill") }
    }
    s::cover("large");
}

#[no_mangle] pub fn pd_hash() { hd(|_| a::hash("h"), "Hash") }
#[no_mangle] pub fn pd_balance() { hd(|g| g.bal("b"), "Balance") }
#[no_mangle] pub fn pd_user() { hd(|_| a::user("u"), "UserAddress") }
#[no_mangle] pub fn pd_contract() { hd(|_| a::contract("c"), "ContractAddress") }
#[no_mangle] pub fn pd_fee() { hd(|g| a::fee(g), "Fee") }
#[no_mangle] pub fn pd_asset() { hd(|g| a::asset(g), "Asset") }
#[no_mangle] pub fn pd_raw() { let k = s::pick("action", 5); hdk(k, |g, k| { let x = a::action(g, k); a::raw(g, x) }, "RawTransaction") }
#[no_mangle] pub fn pd_signed() { hd(|g| { let x = a::transfer(g); let r = a::raw(g, x); a::signed(g, r) }, "SignedTransaction") }
#[no_mangle] pub fn pd_receipt() { let k = s::pick("result", 5); hdk(k, |g, k| a::receipt(g, k), "Receipt") }
#[no_mangle] pub fn pd_proof() { hd(|g| a::proof(g), "Proof") }
#[no_mangle] pub fn pd_validator() { hd(|g| a::validator(g), "Validator") }
#[no_mangle] pub fn pd_header() { hd(|g| a::header(g), "EpochHeader") }
#[no_mangle] pub fn pd_epoch() { hd(|g| a::epoch(g, 1), "Epoch") }
#[no_mangle] pub fn pd_pill() { hd(|g| Pill { epoch: a::epoch(g, 1), propose_hashes: a::hashes("p", 1) }, "Pill") }
#[no_mangle] pub fn pd_epochid() { hd(|_| EpochId { id: 0x31 }, "EpochId") }
s::entries!(px_hash, px_balance, px_address, px_fee, px_asset, px_raw, px_signed, px_receipt, px_proof, px_validator, px_header, px_epoch, px_pill, px_epochid, px_big,
    pd_hash, pd_balance, pd_user, pd_contract, pd_fee, pd_asset, pd_raw, pd_signed, pd_receipt, pd_proof, pd_validator, pd_header, pd_epoch, pd_pill, pd_epochid);
