//! Bridges between case data, the reference model and kms values. No kms result is unwrapped here:
//! whatever kms does wrong becomes an Err that the check reports.
use crate::gen::{Key, PKey};
use crate::refs::bip32::{Meta, RPrv, RPub};
use crate::refs::bip39::Lang;
use kms::bip32::{ChildNumber, DerivationPath, ExtendedKey, ExtendedKeyAttrs, Prefix, XPrv, XPub};
use kms::bip39::{ErrorKind, Language, Mnemonic};

pub fn lang(l: Lang) -> Language {
    match l {
        Lang::En => Language::English,
        Lang::Zh => Language::ChineseSimplified,
    }
}
pub fn attrs(m: &Meta) -> ExtendedKeyAttrs {
    ExtendedKeyAttrs { depth: m.depth, parent_fingerprint: m.fp, child_number: ChildNumber(m.child), chain_code: m.chain }
}
pub fn meta(a: &ExtendedKeyAttrs) -> Meta {
    Meta { depth: a.depth, fp: a.parent_fingerprint, child: a.child_number.0, chain: a.chain_code }
}
pub fn xprv(k: &Key) -> Result<XPrv, String> {
    xprv_r(&k.r())
}
pub fn xprv_r(k: &RPrv) -> Result<XPrv, String> {
    let e = ExtendedKey { prefix: Prefix::XPRV, attrs: attrs(&k.meta), key_bytes: k.key33() };
    XPrv::try_from(e).map_err(|e| format!("a valid extended private key was refused: {:?} ({:?})", e, k))
}
pub fn xpub_r(k: &RPub) -> Result<XPub, String> {
    let e = ExtendedKey { prefix: Prefix::XPUB, attrs: attrs(&k.meta), key_bytes: k.key };
    XPub::try_from(e).map_err(|e| format!("a valid extended public key was refused: {:?} ({:?})", e, k))
}
pub fn xpub(k: &PKey) -> Result<XPub, String> {
    xpub_r(&k.r())
}
pub fn see_prv(x: &XPrv) -> RPrv {
    RPrv { key: x.to_bytes(), meta: meta(x.attrs()) }
}
pub fn see_pub(x: &XPub) -> RPub {
    RPub { key: x.to_bytes(), meta: meta(x.attrs()) }
}
pub fn cmp_prv(x: &XPrv, r: &RPrv, what: &str) -> Result<(), String> {
    same!(see_prv(x), *r, "{}", what);
    same!(x.private_key().serialize(), r.key, "{}: private_key()", what);
    Ok(())
}
pub fn cmp_pub(x: &XPub, r: &RPub, what: &str) -> Result<(), String> {
    same!(see_pub(x), *r, "{}", what);
    same!(x.public_key().serialize_compressed(), r.key, "{}: public_key()", what);
    Ok(())
}
pub fn path(p: &[u32]) -> DerivationPath {
    let mut d = DerivationPath::default();
    for i in p {
        d.push(ChildNumber(*i));
    }
    d
}
/// canonical text of a path
pub fn path_text(p: &[u32]) -> String {
    let mut s = "m".to_string();
    for i in p {
        s += &format!("/{}{}", i & 0x7fff_ffff, if i >> 31 == 1 { "'" } else { "" });
    }
    s
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Checksum,
    Word,
    Keysize(usize),
    Count(usize),
    Other,
}
pub fn kind(e: &anyhow::Error) -> Kind {
    match e.downcast_ref::<ErrorKind>() {
        Some(ErrorKind::InvalidChecksum) => Kind::Checksum,
        Some(ErrorKind::InvalidWord) => Kind::Word,
        Some(ErrorKind::InvalidKeysize(n)) => Kind::Keysize(*n),
        Some(ErrorKind::InvalidWordLength(n)) => Kind::Count(*n),
        _ => Kind::Other,
    }
}
pub fn mnemonic(entropy: &[u8], l: Lang) -> Result<Mnemonic, String> {
    Mnemonic::from_entropy(entropy, lang(l)).map_err(|e| format!("entropy of {} bytes refused: {}", entropy.len(), e))
}
