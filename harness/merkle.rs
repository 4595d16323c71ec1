//! Merkle roots and proofs.
//@ deps: protocol bytes common_merkle num_bigint serde_json
use bytes::Bytes;
use common_merkle::Merkle;
use protocol::types::Hash;
use symrt as s;

fn hash(name: &str) -> Hash { Hash::from_bytes(Bytes::from(s::bytes(name, 32))).unwrap() }
fn join(a: &Hash, b: &Hash) -> Hash { let mut v = a.as_bytes().to_vec(); v.extend_from_slice(&b.as_bytes()); Hash::digest(Bytes::from(v)) }
/// every proof leads to the root; another list of the same length has another root
#[no_mangle] pub fn mk_tree() {
    let n = s::pick("n", 1 + s::param("max", 5) as usize); let hs: Vec<Hash> = (0..n).map(|_| hash("leaf")).collect();
    let m = s::nopanic("building a tree does not panic", || Merkle::from_hashes(hs.clone())); let root = m.get_root_hash();
    s::check(root.is_some() == (n > 0), "a list has a root unless it is empty"); let root = match root { Some(r) => r, None => { s::cover("empty"); return; } };
    if n == 1 { s::check(root == hs[0], "the root of one element is the element") }
    for i in 0..n {
        let p = match s::nopanic("getting a proof does not panic", || m.get_proof_by_input_index(i)) { Some(p) => p, None => { s::check(false, "every element has a proof"); return; } };
        let r = p.iter().fold(hs[i].clone(), |h, x| if x.is_right { join(&h, &x.hash) } else { join(&x.hash, &h) }); s::check(s::same(&r.as_bytes(), &root.as_bytes()), "a proof leads from its element to the root");
        s::check((2usize << p.len()) > n && (1usize << p.len()) < 2 * n, "a proof is as long as the tree is deep");
    }
    s::check(m.get_proof_by_input_index(n).is_none() && m.get_proof_by_input_index(n + 7).is_none(), "nothing else has a proof"); s::cover("proofs");
    let j = s::pick("changed", n); let mut other = hs.clone(); other[j] = hash("other"); let same = s::same(&other[j].as_bytes(), &hs[j].as_bytes()); let r2 = Merkle::from_hashes(other).get_root_hash().unwrap();
    s::check(s::same(&r2.as_bytes(), &root.as_bytes()) == same, "lists of one length have one root exactly when they are equal"); if same { s::cover("equal") } else { s::cover("different") }
}
/// longer lists, of fixed hashes but one
#[no_mangle] pub fn mk_long() {
    let n = [6, 7, 8, 9, 13, 16, 17, 31, 33, 64, 100][s::pick("n", 11)]; let j = [0, 1, n / 2, n - 2, n - 1][s::pick("j", 5)]; let mut hs: Vec<Hash> = (0..n).map(|i| Hash::digest(Bytes::from(vec![i as u8]))).collect(); hs[j] = hash("leaf");
    let m = s::nopanic("building a tree does not panic", || Merkle::from_hashes(hs.clone())); let root = match m.get_root_hash() { Some(r) => r, None => { s::check(false, "a list has a root unless it is empty"); return; } };
    for i in 0..n {
        let p = match s::nopanic("getting a proof does not panic", || m.get_proof_by_input_index(i)) { Some(p) => p, None => { s::check(false, "every element has a proof"); return; } };
        let r = p.iter().fold(hs[i].clone(), |h, x| if x.is_right { join(&h, &x.hash) } else { join(&x.hash, &h) }); s::check(s::same(&r.as_bytes(), &root.as_bytes()), "a proof leads from its element to the root");
        s::check((2usize << p.len()) > n && (1usize << p.len()) < 2 * n, "a proof is as long as the tree is deep");
    }
    s::check(m.get_proof_by_input_index(n).is_none(), "nothing else has a proof"); s::cover("proofs");
    let mut other = hs.clone(); other[j] = hash("other"); let same = s::same(&other[j].as_bytes(), &hs[j].as_bytes()); let r2 = Merkle::from_hashes(other).get_root_hash().unwrap();
    s::check(s::same(&r2.as_bytes(), &root.as_bytes()) == same, "lists of one length have one root exactly when they are equal");
}
s::entries!(mk_tree, mk_long);
