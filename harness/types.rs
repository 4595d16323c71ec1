//! Hashes and addresses: what is accepted, how they print, how they are derived.
//@ deps: protocol bytes num_bigint serde_json
use bytes::Bytes;
use protocol::types::*;
use symrt as s;

fn low(c: u8) -> u8 { if c >= b'A' && c <= b'F' { c + 32 } else { c } }
fn hexv(b: &[u8]) -> String { let d = b"0123456789abcdef"; let mut r = vec![]; for x in b { r.push(d[(x >> 4) as usize]); r.push(d[(x & 15) as usize]); } String::from_utf8(r).unwrap() }

/// byte strings of every length around the right one, all bytes arbitrary
#[no_mangle] pub fn ty_hash_bytes() {
    let n = [0, 1, 31, 32, 33, 64][s::pick("len", 6)]; let b = s::bytes("b", n);
    let r = s::nopanic("Hash::from_bytes does not panic", || Hash::from_bytes(Bytes::from(b.clone())));
    match r { Ok(h) => { s::cover("accepted"); s::check(n == 32, "a hash has 32 bytes"); s::check(s::same(&h.as_bytes(), &b), "a hash keeps its bytes"); }
              Err(_) => { s::cover("rejected"); s::check(n != 32, "every 32-byte string is a hash"); } }
}
#[no_mangle] pub fn ty_addr_bytes() {
    let n = [0, 1, 20, 21, 22, 42][s::pick("len", 6)]; let b = s::bytes("b", n); let x = Bytes::from(b.clone());
    match s::pick("which", 3) {
        0 => match s::nopanic("UserAddress::from_bytes does not panic", || UserAddress::from_bytes(x)) {
            Ok(a) => { s::cover("accepted"); s::check(n == 21 && b[0] == 0x10, "user addresses: 21 bytes, magic 0x10"); s::check(s::same(&a.as_bytes(), &b), "a user address keeps its bytes"); }
            Err(_) => { s::cover("rejected"); s::check(n != 21 || b[0] != 0x10, "every well-formed user address is accepted"); } },
        1 => match s::nopanic("ContractAddress::from_bytes does not panic", || ContractAddress::from_bytes(x)) {
            Ok(a) => { s::cover("accepted"); s::check(n == 21, "contract addresses have 21 bytes"); s::check(s::same(&a.as_bytes(), &b), "a contract address keeps its bytes");
                let want = match a.contract_type() { ContractType::Asset => 0x20, ContractType::App => 0x21, ContractType::Library => 0x22, ContractType::Native => 0x23 };
                s::check(b[0] == want, "the first byte is the contract type"); }
            Err(_) => { s::cover("rejected"); s::check(n != 21 || b[0] < 0x20 || b[0] > 0x23, "every well-formed contract address is accepted"); } },
        _ => match s::nopanic("Address::from_bytes does not panic", || Address::from_bytes(x)) {
            Ok(a) => { s::cover("accepted"); s::check(n == 21, "addresses have 21 bytes"); s::check(s::same(&a.as_bytes(), &b), "an address keeps its bytes");
                match a { Address::User(_) => s::check(b[0] == 0x10, "a user address has magic 0x10"), Address::Contract(_) => s::check(s::and(b[0] >= 0x20, b[0] <= 0x23), "a contract address has magic 0x20..0x23") } }
            Err(_) => { s::cover("rejected"); s::check(n != 21 || (b[0] != 0x10 && (b[0] < 0x20 || b[0] > 0x23)), "every well-formed address is accepted"); } },
    }
}
/// the text of arbitrary bytes parses back to them; two of the bytes are arbitrary
#[no_mangle] pub fn ty_hex_round() {
    let which = s::pick("which", 4); let n = if which == 0 { 32 } else { 21 };
    let mut b = vec![0x5a; n]; b[0] = [0x77, 0x10, 0x20 + s::pick("magic", 4) as u8, 0x10][which];
    let k = 1 + s::pick("at", (n - 2) / 3) * 3; let w = s::bytes("b", 2); b[k] = w[0]; b[k + 1] = w[1];
    let x = Bytes::from(b.clone());
    let t = match which { 0 => Hash::from_bytes(x).unwrap().as_hex(), 1 => UserAddress::from_bytes(x).unwrap().as_hex(), 2 => ContractAddress::from_bytes(x).unwrap().as_hex(), _ => Address::from_bytes(x).unwrap().as_hex() };
    s::check(s::same(t.as_bytes(), hexv(&b).as_bytes()), "printed as lower-case hex");
    let t = if s::flag("prefix") { s::cover("with 0x"); format!("0x{}", t) } else { s::cover("without 0x"); t };
    let r = s::nopanic("from_hex does not panic", || match which { 0 => Hash::from_hex(&t).map(|h| h.as_bytes()), 1 => UserAddress::from_hex(&t).map(|h| h.as_bytes()), 2 => ContractAddress::from_hex(&t).map(|h| h.as_bytes()), _ => Address::from_hex(&t).map(|h| h.as_bytes()) });
    s::check(r.is_ok(), "printed text parses"); s::check(s::same(&r.unwrap(), &b), "printed text parses to the same bytes");
}
/// text with one arbitrary character, or of a wrong length
#[no_mangle] pub fn ty_hex_bad() {
    let which = s::pick("which", 3); let n = if which == 0 { 64 } else { 42 };
    let mut t: Vec<u8> = vec![b'a'; n]; if which > 0 { t[0] = b'1' + (which as u8 - 1); t[1] = b'0'; }
    let pre = s::flag("prefix"); if pre { t.insert(0, b'x'); t.insert(0, b'0'); }
    let c; let ok;
    match s::pick("how", 4) {
        0 => { let k = s::pick("at", t.len()); c = s::u8("c"); s::assume(c < 0x80); t[k] = c; s::cover("one character");
               let h = s::or(s::and(c >= b'0', c <= b'9'), s::and(low(c) >= b'a', low(c) <= b'f'));
               let k = if pre { k as isize - 2 } else { k as isize };
               ok = if k == -2 { c == b'0' } else if k == -1 { c == b'x' } else if which > 0 && k == 0 { if which == 1 { c == b'1' } else { c == b'2' } } else if which > 0 && k == 1 { if which == 1 { c == b'0' } else { s::and(c >= b'0', c <= b'3') } } else { h }; }
        1 => { let n = s::pick("len", t.len()); t.truncate(n); s::cover("cut short"); ok = false; }
        2 => { let n = 1 + s::pick("more", 3); for _ in 0..n { t.push(b'a'); } s::cover("too long"); ok = false; }
        _ => { let x = ["0x", "0X", "x", "0", " ", "\n", "\u{e9}", "\u{1d7d8}", "00", "+", "#", "\u{0}"][s::pick("affix", 12)].as_bytes(); if pre && s::flag("inside") { for (i, y) in x.iter().enumerate() { t.insert(2 + i, *y) } } else if s::flag("before") { if !pre && x == b"0x" { s::end() } for (i, y) in x.iter().enumerate() { t.insert(i, *y) } } else { t.extend_from_slice(x) } s::cover("affixed"); ok = false; }
    }
    let t = String::from_utf8(t).unwrap();
    let r = s::nopanic("from_hex does not panic on any text", || match which { 0 => Hash::from_hex(&t).map(|h| h.as_hex()), 1 => UserAddress::from_hex(&t).map(|h| h.as_hex()), _ => ContractAddress::from_hex(&t).map(|h| h.as_hex()) });
    match r {
        Ok(x) => { s::cover("accepted"); s::check(ok, "only well-formed text is accepted"); let t = if pre { &t[2..] } else { &t[..] }; s::check(s::same(x.as_bytes(), t.to_ascii_lowercase().as_bytes()), "accepted text is what is printed"); }
        Err(_) => { s::cover("rejected"); s::check(!ok, "well-formed text is accepted"); }
    }
}
fn tail(h: &Hash) -> Vec<u8> { h.as_bytes().to_vec()[..20].to_vec() }
#[no_mangle] pub fn ty_from_pubkey() {
    let n = [0, 1, 4, 33, 65, 300][s::pick("len", 6)]; let pk = Bytes::from(s::bytes("pk", n));
    let a = s::nopanic("from_pubkey_bytes does not panic", || UserAddress::from_pubkey_bytes(pk.clone())).unwrap();
    let b = a.as_bytes(); s::cover("derived");
    s::check(b[0] == 0x10 && s::same(&b[1..], &tail(&Hash::digest(pk.clone()))), "a user address is 0x10 and the first 20 bytes of the public key's hash");
    let pk2 = Bytes::from(s::bytes("pk2", n)); let a2 = UserAddress::from_pubkey_bytes(pk2.clone()).unwrap();
    if s::same(&pk, &pk2) { s::cover("same key"); s::check(a == a2, "one key, one address"); } else { s::cover("different keys"); s::check(a != a2, "different keys, different addresses"); }
}
#[no_mangle] pub fn ty_from_code() {
    let n = [0, 1, 2, 31, 5000][s::pick("len", 5)]; let mut code = vec![0x6f; if n > 2 { n - 2 } else { 0 }]; code.extend(s::bytes("code", if n > 2 { 2 } else { n })); let code = Bytes::from(code); let nonce = s::u64("nonce"); let k = s::pick("type", 4);
    let ct = |k| match k { 0 => ContractType::Asset, 1 => ContractType::App, 2 => ContractType::Library, _ => ContractType::Native };
    let a = s::nopanic("from_code does not panic", || ContractAddress::from_code(code.clone(), nonce, ct(k))).unwrap();
    let b = a.as_bytes(); let mut pre = code.to_vec(); pre.extend_from_slice(&nonce.to_be_bytes()); s::cover("derived");
    s::check(b[0] == 0x20 + k as u8 && a.contract_type() == ct(k), "a contract address carries its type");
    s::check(s::same(&b[1..], &tail(&Hash::digest(Bytes::from(pre)))), "a contract address is the hash of code and nonce");
    let nonce2 = s::u64("nonce2"); let a2 = ContractAddress::from_code(code, nonce2, ct(k)).unwrap();
    if nonce == nonce2 { s::check(a == a2, "one nonce, one address"); s::cover("same nonce"); } else { s::check(a != a2, "another nonce, another address"); s::cover("other nonce"); }
}
s::entries!(ty_hash_bytes, ty_addr_bytes, ty_hex_round, ty_hex_bad, ty_from_pubkey, ty_from_code);
