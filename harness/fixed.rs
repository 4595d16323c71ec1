//! Fixed (RLP) codec: what is hashed and stored.
//@ deps: protocol bytes num_bigint rlp serde_json
use anyval as a;
use anyval::Gen;
use bytes::Bytes;
use protocol::fixed_codec::ProtocolFixedCodec;
use protocol::types::*;
use symrt as s;

fn enc<T: ProtocolFixedCodec>(x: &T) -> Option<Bytes> { x.encode_fixed().ok() }
fn dec<T: ProtocolFixedCodec>(b: Bytes) -> Option<T> { T::decode_fixed(b).ok() }
fn rt<T: ProtocolFixedCodec + PartialEq>(x: T, name: &str) { a::roundtrip(x, name, enc, dec) }
fn hd<T: ProtocolFixedCodec + PartialEq>(f: impl FnOnce(&mut Gen) -> T, name: &str) { let base = s::concrete(|| f(&mut Gen::plain())); a::survives(base, name, s::param("len", 6) as usize, enc, dec) }
/// the `k`-th variant of a type
fn hdk<T: ProtocolFixedCodec + PartialEq>(k: usize, f: impl Fn(&mut Gen, usize) -> T, name: &str) { let (base, like) = s::concrete(|| (f(&mut Gen::plain(), k), if k > 0 { Some(f(&mut Gen::plain(), 0)) } else { None })); a::survives_like(base, like, name, s::param("len", 6) as usize, enc, dec) }
#[no_mangle] pub fn fx_hash() { rt(a::hash("h"), "Hash") }
#[no_mangle] pub fn fx_address() {
    match s::pick("k", 3) { 0 => rt(a::user("u"), "UserAddress"), 1 => rt(a::contract("c"), "ContractAddress"), _ => if s::flag("user") { rt(Address::User(a::user("u")), "Address") } else { rt(Address::Contract(a::contract("c")), "Address") } }
}
#[no_mangle] pub fn fx_fee() { let mut g = Gen::one_wide(1); rt(a::fee(&mut g), "Fee") }
#[no_mangle] pub fn fx_asset() { let mut g = Gen::one_wide(1); rt(a::asset(&mut g), "Asset") }
#[no_mangle] pub fn fx_account_user() { let (n, m) = [(0, 0), (1, 0), (1, 1), (2, 0), (1, 2)][s::pick("shape", 5)]; let mut g = Gen::one_wide(2 * m + n + 1); rt(Account::User(a::user_account(&mut g, n, m)), "Account::User") }
#[no_mangle] pub fn fx_account_contract() { let n = s::pick("n", 3); let mut g = Gen::one_wide(n + 1); rt(Account::Contract(a::contract_account(&mut g, n)), "Account::Contract") }
#[no_mangle] pub fn fx_raw() { let k = s::pick("action", 4); let mut g = Gen::one_wide([3, 2, 3, 2][k]); let x = a::action(&mut g, k); rt(a::raw(&mut g, x), "RawTransaction") }
#[no_mangle] pub fn fx_raw_approve() { let mut g = Gen::one_wide(3); let x = a::action(&mut g, 4); rt(a::raw(&mut g, x), "RawTransaction::Approve") }
#[no_mangle] pub fn fx_signed() { let k = s::pick("action", 4); let mut p = Gen::plain(); let x = a::action(&mut p, k); let r = a::raw(&mut p, x); let mut g = Gen::small(); rt(a::signed(&mut g, r), "SignedTransaction") }
#[no_mangle] pub fn fx_receipt() { let k = s::pick("result", 4); let mut g = Gen::one_wide(if k == 0 { 4 } else { 2 }); rt(a::receipt(&mut g, k), "Receipt") }
#[no_mangle] pub fn fx_receipt_approve() { let mut g = Gen::one_wide(3); rt(a::receipt(&mut g, 4), "Receipt::Approve") }
#[no_mangle] pub fn fx_result() { let k = s::pick("result", 5); let mut g = Gen::one_wide(2); rt(a::result(&mut g, k), "ReceiptResult") }
#[no_mangle] pub fn fx_proof() { let mut g = Gen::one_wide(2); rt(a::proof(&mut g), "Proof") }
#[no_mangle] pub fn fx_validator() { let mut g = Gen::one_wide(2); rt(a::validator(&mut g), "Validator") }
#[no_mangle] pub fn fx_header() { let mut g = Gen::one_wide(a::HEADER_INTS); rt(a::header(&mut g), "EpochHeader") }
#[no_mangle] pub fn fx_epoch() { let mut g = Gen::small(); let n = s::pick("n", 3); rt(a::epoch(&mut g, n), "Epoch") }
#[no_mangle] pub fn fx_pill() { let mut g = Gen::small(); let n = s::pick("n", 3); rt(Pill { epoch: a::epoch(&mut g, n), propose_hashes: a::hashes("p", 2 - n) }, "Pill") }
#[no_mangle] pub fn fx_epochid() { rt(EpochId { id: s::u64n("id") }, "EpochId") }
#[no_mangle] pub fn fx_genesis() { let mut g = Gen::one_wide(2); rt(a::genesis(&mut g), "Genesis") }
#[no_mangle] pub fn fx_bytes() { rt(Bytes::from(s::bytes_upto("b", 0, 4)), "Bytes") }

/// large values of every type with parts of variable size
#[no_mangle] pub fn fx_big() {
    let k = s::pick("type", 10); let mut g = Gen::big();
    match k {
        0 => rt(a::asset(&mut g), "Asset"), 1 => rt(Account::User(a::user_account(&mut g, 1, 1)), "Account::User"), 2 => rt(Account::Contract(a::contract_account(&mut g, 1)), "Account::Contract"),
        3 => { let k = s::pick("action", 5); let x = a::action(&mut g, k); rt(a::raw(&mut g, x), "RawTransaction") }
        4 => { let mut p = Gen::plain(); let x = a::action(&mut p, 0); let r = a::raw(&mut p, x); rt(a::signed(&mut g, r), "SignedTransaction") }
        5 => { let k = s::pick("result", 5); rt(a::receipt(&mut g, k), "Receipt") }
        6 => rt(a::proof(&mut g), "Proof"), 7 => rt(a::epoch(&mut g, 1), "Epoch"), 8 => { let e = s::concrete(|| a::epoch(&mut Gen::plain(), 1)); let n = g.list(1); rt(Pill { epoch: e, propose_hashes: a::hashes("p", n) }, "Pill") }
        _ => rt(a::genesis(&mut g), "Genesis"),
    }
    s::cover("large");
}

#[no_mangle] pub fn fd_hash() { hd(|_| a::hash("h"), "Hash") }
#[no_mangle] pub fn fd_address() { hd(|_| Address::User(a::user("u")), "Address") }
#[no_mangle] pub fn fd_user() { hd(|_| a::user("u"), "UserAddress") }
#[no_mangle] pub fn fd_contract() { hd(|_| a::contract("c"), "ContractAddress") }
#[no_mangle] pub fn fd_fee() { hd(|g| a::fee(g), "Fee") }
#[no_mangle] pub fn fd_asset() { hd(|g| a::asset(g), "Asset") }
#[no_mangle] pub fn fd_account_user() { hd(|g| Account::User(a::user_account(g, 1, 1)), "Account") }
#[no_mangle] pub fn fd_account_contract() { hd(|g| Account::Contract(a::contract_account(g, 1)), "Account") }
#[no_mangle] pub fn fd_raw() { let k = s::pick("action", 5); hdk(k, |g, k| { let x = a::action(g, k); a::raw(g, x) }, "RawTransaction") }
#[no_mangle] pub fn fd_signed() { hd(|g| { let x = a::transfer(g); let r = a::raw(g, x); a::signed(g, r) }, "SignedTransaction") }
#[no_mangle] pub fn fd_receipt() { hd(|g| a::receipt(g, 0), "Receipt") }
#[no_mangle] pub fn fd_result() { let k = s::pick("result", 5); hdk(k, |g, k| a::result(g, k), "ReceiptResult") }
#[no_mangle] pub fn fd_proof() { hd(|g| a::proof(g), "Proof") }
#[no_mangle] pub fn fd_validator() { hd(|g| a::validator(g), "Validator") }
#[no_mangle] pub fn fd_header() { hd(|g| a::header(g), "EpochHeader") }
#[no_mangle] pub fn fd_epoch() { hd(|g| a::epoch(g, 1), "Epoch") }
#[no_mangle] pub fn fd_pill() { hd(|g| Pill { epoch: a::epoch(g, 1), propose_hashes: a::hashes("p", 1) }, "Pill") }
#[no_mangle] pub fn fd_epochid() { hd(|_| EpochId { id: 0x31 }, "EpochId") }
#[no_mangle] pub fn fd_genesis() { hd(|g| a::genesis(g), "Genesis") }
s::entries!(fd_hash, fd_address, fd_user, fd_contract, fd_fee, fd_asset, fd_account_user, fd_account_contract, fd_raw, fd_signed, fd_receipt, fd_result, fd_proof, fd_validator, fd_header, fd_epoch, fd_pill, fd_epochid, fd_genesis,
    fx_hash, fx_address, fx_fee, fx_asset, fx_account_user, fx_account_contract, fx_raw, fx_raw_approve, fx_signed, fx_receipt, fx_receipt_approve, fx_result, fx_proof, fx_validator, fx_header, fx_epoch, fx_pill, fx_epochid, fx_genesis, fx_bytes, fx_big);
