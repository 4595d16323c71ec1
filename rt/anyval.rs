//! Arbitrary values of the protocol types, built from symbolic bytes.
use bytes::Bytes;
use num_bigint::BigUint;
use protocol::types::*;
use std::collections::BTreeMap;
use symrt as s;

/// What varies inside a composite value: either its structure (list lengths, variants, address kinds; integers then stay
/// in 1..=127, one RLP / varint shape) or one integer, over its full range (structure then fixed).
static VARINT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// full-range integers are split by the length of their varint instead of their byte length
pub fn varints() { VARINT.store(true, std::sync::atomic::Ordering::Relaxed) }
pub fn u64w(name: &str) -> u64 { if VARINT.load(std::sync::atomic::Ordering::Relaxed) { s::u64v(name) } else { s::u64n(name) } }
pub struct Gen { pub wide: Option<usize>, cnt: usize, big: usize }
/// sizes of large values: bytes, balances, lists
const BIG: [(usize, usize, usize); 4] = [(55, 16, 3), (56, 17, 20), (256, 32, 60), (5000, 33, 130)];
impl Gen {
    pub fn small() -> Gen { Gen { wide: None, cnt: 0, big: 0 } }
    /// either the structure varies, or one of the first `n` integers is full-range: chosen arbitrarily
    pub fn one_wide(n: usize) -> Gen { let k = s::pick("wide", n + 1); Gen { wide: if k == 0 { None } else { Some(k - 1) }, cnt: 0, big: 0 } }
    /// the structure is fixed and every integer small
    pub fn plain() -> Gen { Gen { wide: Some(usize::max_value()), cnt: 0, big: 0 } }
    /// everything is large: long byte strings, texts that are not ASCII, balances beyond 128 bits, long lists
    pub fn big() -> Gen { Gen { wide: Some(usize::max_value()), cnt: 0, big: 1 + s::pick("size", BIG.len()) } }
    /// `n` bytes, most of them fixed, the ends symbolic
    fn long(name: &str, n: usize) -> Vec<u8> { let mut v: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect(); v[0] = s::u8(name); v[n - 1] = s::u8(name); v }
    /// the length of a list
    pub fn list(&mut self, n: usize) -> usize { if self.big > 0 { BIG[self.big - 1].2 } else { n } }
    pub fn string(&mut self, name: &str, n: usize) -> String { if self.big == 0 { return string(name, n); } let mut t = " é\u{4e2d}\u{1f600}\0Z\n".repeat(1 + BIG[self.big - 1].0 / 14); t.push_str(&string(name, 1)); t }
    /// a structural choice
    pub fn pick(&mut self, name: &str, n: usize) -> usize { if self.wide.is_none() { s::pick(name, n) } else { n / 2 } }
    fn is_wide(&mut self) -> bool { let w = self.wide == Some(self.cnt); self.cnt += 1; w }
    pub fn u64(&mut self, name: &str) -> u64 { if self.is_wide() { u64w(name) } else { let v = s::u8(name); s::assume(s::and(v >= 1, v < 0x80)); u64::from(v) } }
    pub fn u8(&mut self, name: &str) -> u8 { let w = self.is_wide(); let v = s::u8(name); if !w { s::assume(s::and(v >= 1, v < 0x80)); } v }
    /// a balance: up to 9 bytes when wide (covers zero, one limb boundary and two limbs), one byte otherwise
    pub fn bal(&mut self, name: &str) -> BigUint {
        if self.big > 0 { let mut b = Gen::long(name, BIG[self.big - 1].1); s::assume(b[0] >= 0x80); b[1] = 0; return BigUint::from_bytes_be(&b); }
        if self.is_wide() { let b = s::bytes_upto(name, 0, 9); if !b.is_empty() { s::assume(b[0] != 0); } BigUint::from_bytes_be(&b) }
        else { let b = s::bytes(name, 1); s::assume(s::and(b[0] >= 1, b[0] < 0x80)); BigUint::from_bytes_be(&b) }
    }
    pub fn data(&mut self, name: &str, lo: usize, hi: usize) -> Bytes { if self.big > 0 { return Bytes::from(Gen::long(name, BIG[self.big - 1].0)); } let n = lo + self.pick(&format!("{}.len", name), hi - lo + 1); Bytes::from(s::bytes(name, n)) }
    pub fn contract(&mut self, name: &str) -> ContractAddress { let k = self.pick(&format!("{}.kind", name), 2) as u8; contract_k(name, k) }
    pub fn ctype(&mut self, name: &str) -> ContractType { match self.pick(name, 4) { 0 => ContractType::Asset, 1 => ContractType::App, 2 => ContractType::Library, _ => ContractType::Native } }
}
pub fn hash(name: &str) -> Hash { Hash::from_bytes(Bytes::from(s::bytes(name, 32))).unwrap() }
/// arbitrary, but for a long list only its first elements
fn hash_at(name: &str, i: usize) -> Hash { if i < 3 { hash(name) } else { let mut b = vec![i as u8; 32]; b[31] = s::u8(name); Hash::from_bytes(Bytes::from(b)).unwrap() } }
pub fn chash(k: u8) -> Hash { Hash::from_bytes(Bytes::from(vec![k; 32])).unwrap() }
pub fn user(name: &str) -> UserAddress { let mut b = s::bytes(name, 21); b[0] = 0x10; UserAddress::from_bytes(Bytes::from(b)).unwrap() }
pub fn cuser(k: u8) -> UserAddress { let mut b = vec![k; 21]; b[0] = 0x10; UserAddress::from_bytes(Bytes::from(b)).unwrap() }
pub fn contract(name: &str) -> ContractAddress {
    let k = s::pick(&format!("{}.kind", name), 4) as u8; contract_k(name, k)
}
pub fn contract_k(name: &str, k: u8) -> ContractAddress { let mut b = s::bytes(name, 21); b[0] = 0x20 + k; ContractAddress::from_bytes(Bytes::from(b)).unwrap() }
pub fn contract_of(k: u8) -> ContractAddress { let mut b = vec![k; 21]; b[0] = 0x20; ContractAddress::from_bytes(Bytes::from(b)).unwrap() }
pub fn ctype(name: &str) -> ContractType { match s::pick(name, 4) { 0 => ContractType::Asset, 1 => ContractType::App, 2 => ContractType::Library, _ => ContractType::Native } }
pub fn string(name: &str, n: usize) -> String { let b = s::bytes(name, n); for c in b.iter() { s::assume(*c < 0x80); } String::from_utf8(b).unwrap() }
pub fn data(name: &str, lo: usize, hi: usize) -> Bytes { Bytes::from(s::bytes_upto(name, lo, hi)) }
pub fn fee(g: &mut Gen) -> Fee { Fee { asset_id: hash("fee.asset"), cycle: g.u64("fee.cycle") } }
pub fn asset(g: &mut Gen) -> Asset {
    let n = g.pick("asset.lens", 3);
    Asset { id: hash("asset.id"), name: g.string("asset.name", n), symbol: g.string("asset.sym", 2 - n), supply: g.bal("asset.supply"), manage_contract: g.contract("asset.mc"), storage_root: hash("asset.root") }
}
pub fn carrying(g: &mut Gen) -> CarryingAsset { CarryingAsset { asset_id: hash("ca.asset"), amount: g.bal("ca.amount") } }
pub fn raw(g: &mut Gen, action: TransactionAction) -> RawTransaction {
    RawTransaction { chain_id: hash("tx.chain"), nonce: hash("tx.nonce"), timeout: g.u64("tx.timeout"), fee: fee(g), action }
}
pub fn transfer(g: &mut Gen) -> TransactionAction { TransactionAction::Transfer { receiver: user("tx.receiver"), carrying_asset: carrying(g) } }
pub fn approve(g: &mut Gen) -> TransactionAction { TransactionAction::Approve { spender: g.contract("tx.spender"), asset_id: hash("tx.asset"), max: g.bal("tx.max") } }
pub fn deploy(g: &mut Gen) -> TransactionAction { TransactionAction::Deploy { code: g.data("tx.code", 0, 2), contract_type: g.ctype("tx.ctype") } }
pub fn call(g: &mut Gen, with: bool) -> TransactionAction {
    let n = g.pick("tx.nargs", 3); let n = g.list(n);
    TransactionAction::Call { contract: g.contract("tx.contract"), method: g.string("tx.method", n.min(2)), args: (0..n).map(|i| if i < 3 && g.big == 0 { Bytes::from(s::bytes("tx.arg", i + 1)) } else { Bytes::from(vec![i as u8; i % 70]) }).collect(), carrying_asset: if with { Some(carrying(g)) } else { None } }
}
pub fn action(g: &mut Gen, k: usize) -> TransactionAction { match k { 0 => transfer(g), 1 => deploy(g), 2 => call(g, true), 3 => call(g, false), _ => approve(g) } }
pub fn signed(g: &mut Gen, raw: RawTransaction) -> SignedTransaction { SignedTransaction { raw, tx_hash: hash("stx.hash"), pubkey: g.data("stx.pubkey", 0, 1), signature: g.data("stx.sig", 1, 2) } }
pub fn proof(g: &mut Gen) -> Proof { Proof { epoch_id: g.u64("proof.epoch"), round: g.u64("proof.round"), epoch_hash: hash("proof.hash"), signature: g.data("proof.sig", 0, 1), bitmap: g.data("proof.bitmap", 1, 2) } }
pub fn validator(g: &mut Gen) -> Validator { Validator { address: user("val.addr"), propose_weight: g.u8("val.pw"), vote_weight: g.u8("val.vw") } }
pub fn bloom(name: &str) -> Bloom { let b = s::bytes(name, 256); let mut a = [0u8; 256]; a.copy_from_slice(&b); Bloom::from(a) }
pub fn header(g: &mut Gen) -> EpochHeader {
    let n = g.pick("hdr.lists", 3); let m = g.list(2 - n); let n = g.list(n);
    EpochHeader {
        chain_id: hash("hdr.chain"), epoch_id: g.u64("hdr.epoch"), pre_hash: hash("hdr.pre"), timestamp: g.u64("hdr.ts"), logs_bloom: bloom("hdr.bloom"), order_root: hash("hdr.order"),
        confirm_root: (0..n).map(|i| hash_at("hdr.confirm", i)).collect(), state_root: hash("hdr.state"), receipt_root: (0..m).map(|i| hash_at("hdr.receipt", i)).collect(), cycles_used: g.u64("hdr.cycles"),
        proposer: user("hdr.proposer"), proof: proof(g), validator_version: g.u64("hdr.vver"), validators: (0..n).map(|_| validator(g)).collect(),
    }
}
pub const HEADER_INTS: usize = 8;
pub fn hashes(name: &str, n: usize) -> Vec<Hash> { (0..n).map(|i| hash_at(name, i)).collect() }
pub fn epoch(g: &mut Gen, n: usize) -> Epoch { let n = g.list(n); Epoch { header: header(g), ordered_tx_hashes: hashes("epoch.tx", n) } }
pub fn receipt(g: &mut Gen, k: usize) -> Receipt {
    Receipt { state_root: hash("rc.state"), epoch_id: g.u64("rc.epoch"), tx_hash: hash("rc.tx"), cycles_used: fee(g), result: result(g, k) }
}
pub fn result(g: &mut Gen, k: usize) -> ReceiptResult {
    match k {
        0 => ReceiptResult::Transfer { receiver: user("rr.receiver"), asset_id: hash("rr.asset"), before_amount: g.bal("rr.before"), after_amount: g.bal("rr.after") },
        1 => ReceiptResult::Deploy { contract: g.contract("rr.contract"), contract_type: g.ctype("rr.ctype") },
        2 => ReceiptResult::Call { contract: g.contract("rr.contract"), return_value: g.data("rr.ret", 0, 2), logs_bloom: Box::new(bloom("rr.bloom")) },
        3 => { let n = g.pick("rr.lens", 3); ReceiptResult::Fail { system: g.string("rr.sys", n), user: g.string("rr.user", 2 - n) } }
        _ => ReceiptResult::Approve { spender: g.contract("rr.spender"), asset_id: hash("rr.asset"), max: g.bal("rr.max") },
    }
}
/// accounts with up to two assets; map keys are ordered symbolically
pub fn user_account(g: &mut Gen, n: usize, m: usize) -> UserAccount {
    let mut assets = BTreeMap::new();
    let big = g.big > 0; let n = g.list(n);
    for i in 0..n {
        let mut approved = BTreeMap::new();
        let m = if big && i > 0 { i % 3 } else if i == 0 { g.list(m) } else { 0 };
        for j in 0..m { approved.insert(if big { contract_of(j as u8) } else { g.contract("ua.spender") }, ApprovedInfo { max: g.bal("ua.max"), used: g.bal("ua.used") }); }
        assets.insert(if big { chash(i as u8) } else { hash("ua.asset") }, AssetInfo { balance: g.bal("ua.bal"), approved });
    }
    UserAccount { nonce: g.u64("ua.nonce"), assets }
}
pub fn contract_account(g: &mut Gen, n: usize) -> ContractAccount {
    let mut assets = BTreeMap::new();
    let big = g.big > 0; for i in 0..g.list(n) { assets.insert(if big { chash(i as u8) } else { hash("cacc.asset") }, g.bal("cacc.bal")); }
    ContractAccount { nonce: g.u64("cacc.nonce"), assets, storage_root: hash("cacc.root") }
}
pub fn genesis(g: &mut Gen) -> Genesis {
    let mut x: Genesis = serde_json::from_str(r#"{"timestamp":1,"prevhash":"","system_token":{"code":"","name":"","symbol":"","supply":1},"state_alloc":[]}"#).unwrap();
    let n = g.pick("gen.lens", 3);
    x.timestamp = g.u64("gen.ts"); x.prevhash = g.string("gen.prev", n); x.system_token.code = g.string("gen.code", 2 - n); x.system_token.name = g.string("gen.name", n); x.system_token.symbol = g.string("gen.sym", 2 - n); x.system_token.supply = g.u64("gen.supply");
    let n = g.list(n).min(20); let m = n.min(3); g.big = g.big.min(3);
    for _ in 0..n { x.state_alloc.push(GenesisStateAlloc { address: g.string("gen.addr", 1), assets: (0..m).map(|_| GenesisStateAsset { asset_id: g.string("gen.aid", 1), balance: g.string("gen.abal", 1) }).collect() }); }
    x
}

/// decode(encode(x)) == x
pub fn roundtrip<T: PartialEq>(x: T, name: &str, enc: impl FnOnce(&T) -> Option<Bytes>, dec: impl FnOnce(Bytes) -> Option<T>) {
    let e = s::nopanic(&format!("{}: encoding does not panic", name), || enc(&x));
    s::check(e.is_some(), &format!("{}: encodes", name));
    let e = match e { Some(e) => e, None => s::end() };
    let d = s::nopanic(&format!("{}: decoding its own encoding does not panic", name), || dec(e));
    match d {
        Some(d) => { s::check(d == x, &format!("{}: decode(encode(x)) == x", name)); s::cover("round trip"); }
        None => s::check(false, &format!("{}: decodes its own encoding", name)),
    }
}
/// Bytes that are an encoding with one byte overwritten by an arbitrary one, an encoding cut short anywhere, or short and
/// wholly arbitrary.  Overwriting skips the inside of long runs of payload filler.
/// Variants of one type share a prefix: `from` is where the differing part begins, and only the first variant gets `arbitrary` bytes.
pub fn hostile(base: Bytes, from: usize, arbitrary: usize) -> Bytes {
    match s::pick("how", if from > 0 { 2 } else { 3 }) {
        0 => {
            let b = base.to_vec(); let f = s::FILLER;
            let pos: Vec<usize> = (from..b.len()).filter(|&i| { let lo = i.saturating_sub(2); let hi = (i + 2).min(b.len()); !(i >= 2 && i + 2 <= b.len() && b[lo..hi].iter().all(|c| *c == f)) }).collect();
            let n = pos.len(); let k = s::pick("pos", n); let mut b = b; b[pos[k]] = s::u8("byte"); s::cover("one byte overwritten"); Bytes::from(b)
        }
        1 => { let b = base.to_vec(); let n = b.len() - from; let step = s::param("cutstep", 1) as usize; let k = from + s::pick("cut", (n + step - 1) / step) * step; let n = b.len(); s::cover("cut short"); Bytes::from(b[..k.min(n)].to_vec()) }
        _ => { s::cover("arbitrary bytes"); Bytes::from(s::bytes_upto("buf", 0, arbitrary)) }
    }
}
/// decoding hostile bytes returns; what it accepts can be encoded and decoded again
pub fn survives<T: PartialEq>(base: T, name: &str, arbitrary: usize, enc: impl Fn(&T) -> Option<Bytes>, dec: impl Fn(Bytes) -> Option<T>) { survives_like(base, None, name, arbitrary, enc, dec) }
pub fn survives_like<T: PartialEq>(base: T, like: Option<T>, name: &str, arbitrary: usize, enc: impl Fn(&T) -> Option<Bytes>, dec: impl Fn(Bytes) -> Option<T>) {
    let b = match enc(&base) { Some(b) => b, None => s::end() };
    let from = match like { None => 0, Some(l) => { let l = enc(&l).unwrap(); let mut i = 0; while i < l.len() && i < b.len() && l[i] == b[i] { i += 1 } ; i.max(1).min(b.len() - 1) } };
    let b = hostile(b, from, arbitrary);
    let d = s::nopanic(&format!("{}: decoding arbitrary bytes does not panic", name), || dec(b));
    match d {
        Some(d) => { s::cover("accepted"); let e = s::nopanic(&format!("{}: an accepted value can be encoded", name), || enc(&d)); let d2 = s::nopanic(&format!("{}: an accepted value can be decoded again", name), || e.and_then(|e| dec(e))); s::check(d2 == Some(d), &format!("{}: an accepted value survives a round trip", name)); }
        None => s::cover("rejected"),
    }
}
