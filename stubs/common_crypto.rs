//! Stand-in for `common_crypto` (re-exports of `ophelia`, which is not here): an ideal signature scheme.
//! A public key is 33 bytes; the one valid signature of a 32-byte hash by a key is the hash followed by the key's last 32 bytes.
//@ deps: bytes
use bytes::Bytes;
use std::convert::TryFrom;
#[derive(Debug, Clone, PartialEq)] pub enum CryptoError { InvalidLength, InvalidSignature, InvalidPublicKey, InvalidPrivateKey }
impl std::fmt::Display for CryptoError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for CryptoError {}
#[derive(Debug, Clone, PartialEq, Eq)] pub struct HashValue([u8; 32]);
impl HashValue { pub fn from_bytes_unchecked(b: [u8; 32]) -> HashValue { HashValue(b) } pub fn to_bytes(&self) -> Bytes { Bytes::from(&self.0[..]) } }
impl<'a> TryFrom<&'a [u8]> for HashValue { type Error = CryptoError; fn try_from(b: &'a [u8]) -> Result<HashValue, CryptoError> { if b.len() != 32 { return Err(CryptoError::InvalidLength) } let mut x = [0; 32]; x.copy_from_slice(b); Ok(HashValue(x)) } }
pub trait PrivateKey: for<'a> TryFrom<&'a [u8], Error = CryptoError> + Clone { type PublicKey: PublicKey; type Signature: Signature; fn sign_message(&self, msg: &HashValue) -> Self::Signature; fn pub_key(&self) -> Self::PublicKey; fn to_bytes(&self) -> Bytes; }
pub trait PublicKey: for<'a> TryFrom<&'a [u8], Error = CryptoError> + Clone { type Signature: Signature; fn to_bytes(&self) -> Bytes; }
pub trait Signature: for<'a> TryFrom<&'a [u8], Error = CryptoError> + Clone { fn to_bytes(&self) -> Bytes; }
pub trait Crypto {
    type PrivateKey: PrivateKey<PublicKey = Self::PublicKey, Signature = Self::Signature>;
    type PublicKey: PublicKey<Signature = Self::Signature>;
    type Signature: Signature;
    fn pub_key(privkey: &[u8]) -> Result<Self::PublicKey, CryptoError> { Ok(Self::PrivateKey::try_from(privkey)?.pub_key()) }
    fn sign_message(msg: &[u8], privkey: &[u8]) -> Result<Self::Signature, CryptoError> { Ok(Self::PrivateKey::try_from(privkey)?.sign_message(&HashValue::try_from(msg)?)) }
    fn verify_signature(msg: &[u8], signature: &[u8], pubkey: &[u8]) -> Result<(), CryptoError>;
}
#[derive(Debug, Clone, PartialEq, Eq)] pub struct Secp256k1PrivateKey(Vec<u8>);
#[derive(Debug, Clone, PartialEq, Eq)] pub struct Secp256k1PublicKey(Vec<u8>);
#[derive(Debug, Clone, PartialEq, Eq)] pub struct Secp256k1Signature(Vec<u8>);
impl<'a> TryFrom<&'a [u8]> for Secp256k1PrivateKey { type Error = CryptoError; fn try_from(b: &'a [u8]) -> Result<Self, CryptoError> { if b.len() == 32 { Ok(Secp256k1PrivateKey(b.to_vec())) } else { Err(CryptoError::InvalidPrivateKey) } } }
impl<'a> TryFrom<&'a [u8]> for Secp256k1PublicKey { type Error = CryptoError; fn try_from(b: &'a [u8]) -> Result<Self, CryptoError> { if b.len() == 33 { Ok(Secp256k1PublicKey(b.to_vec())) } else { Err(CryptoError::InvalidPublicKey) } } }
impl<'a> TryFrom<&'a [u8]> for Secp256k1Signature { type Error = CryptoError; fn try_from(b: &'a [u8]) -> Result<Self, CryptoError> { if b.len() == 64 { Ok(Secp256k1Signature(b.to_vec())) } else { Err(CryptoError::InvalidSignature) } } }
impl PrivateKey for Secp256k1PrivateKey {
    type PublicKey = Secp256k1PublicKey; type Signature = Secp256k1Signature;
    fn sign_message(&self, msg: &HashValue) -> Secp256k1Signature { let mut v = msg.0.to_vec(); v.extend_from_slice(&self.0); Secp256k1Signature(v) }
    fn pub_key(&self) -> Secp256k1PublicKey { let mut v = vec![2]; v.extend_from_slice(&self.0); Secp256k1PublicKey(v) }
    fn to_bytes(&self) -> Bytes { Bytes::from(self.0.clone()) }
}
impl PublicKey for Secp256k1PublicKey { type Signature = Secp256k1Signature; fn to_bytes(&self) -> Bytes { Bytes::from(self.0.clone()) } }
impl Signature for Secp256k1Signature { fn to_bytes(&self) -> Bytes { Bytes::from(self.0.clone()) } }
#[derive(Debug, Clone)] pub struct Secp256k1;
impl Crypto for Secp256k1 {
    type PrivateKey = Secp256k1PrivateKey; type PublicKey = Secp256k1PublicKey; type Signature = Secp256k1Signature;
    fn verify_signature(msg: &[u8], signature: &[u8], pubkey: &[u8]) -> Result<(), CryptoError> {
        if msg.len() != 32 { return Err(CryptoError::InvalidLength) } if signature.len() != 64 { return Err(CryptoError::InvalidSignature) } if pubkey.len() != 33 { return Err(CryptoError::InvalidPublicKey) }
        if signature[..32] == *msg && signature[32..] == pubkey[1..] { Ok(()) } else { Err(CryptoError::InvalidSignature) }
    }
}
