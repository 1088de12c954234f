use super::hash::{hash160, hmac_sha512};
use super::{base58, secp};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Meta {
    pub depth: u8,
    pub fp: [u8; 4],
    pub child: u32,
    pub chain: [u8; 32],
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RPrv {
    pub key: [u8; 32],
    pub meta: Meta,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RPub {
    pub key: [u8; 33],
    pub meta: Meta,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fail {
    Depth,
    Hardened,
    Crypto,
}

pub fn payload(version: u32, m: &Meta, key: &[u8; 33]) -> [u8; 78] {
    let mut p = [0u8; 78];
    p[..4].copy_from_slice(&version.to_be_bytes());
    p[4] = m.depth;
    p[5..9].copy_from_slice(&m.fp);
    p[9..13].copy_from_slice(&m.child.to_be_bytes());
    p[13..45].copy_from_slice(&m.chain);
    p[45..].copy_from_slice(key);
    p
}
pub fn fingerprint(pubkey: &[u8; 33]) -> [u8; 4] {
    hash160(pubkey)[..4].try_into().unwrap()
}
fn split(i: [u8; 64]) -> ([u8; 32], [u8; 32]) {
    (i[..32].try_into().unwrap(), i[32..].try_into().unwrap())
}

pub fn master(seed: &[u8]) -> Option<RPrv> {
    let (il, ir) = split(hmac_sha512(b"Bitcoin seed", seed));
    secp::valid_scalar(&il)?;
    Some(RPrv { key: il, meta: Meta { depth: 0, fp: [0; 4], child: 0, chain: ir } })
}

impl RPrv {
    pub fn pubkey(&self) -> [u8; 33] {
        secp::pubkey(&self.key).expect("reference: invalid private key")
    }
    pub fn neuter(&self) -> RPub {
        RPub { key: self.pubkey(), meta: self.meta.clone() }
    }
    pub fn child(&self, i: u32) -> Result<RPrv, Fail> {
        if self.meta.depth == 255 {
            return Err(Fail::Depth);
        }
        let pk = self.pubkey();
        let mut data = Vec::new();
        if i >= 1 << 31 {
            data.push(0);
            data.extend_from_slice(&self.key);
        } else {
            data.extend_from_slice(&pk);
        }
        data.extend_from_slice(&i.to_be_bytes());
        let (il, ir) = split(hmac_sha512(&self.meta.chain, &data));
        let t = secp::from_be(&il);
        if secp::is_zero(&t) || secp::cmp(&t, &secp::N) != std::cmp::Ordering::Less {
            return Err(Fail::Crypto);
        }
        let k = secp::add(&t, &secp::from_be(&self.key), &secp::N);
        if secp::is_zero(&k) {
            return Err(Fail::Crypto);
        }
        Ok(RPrv { key: secp::to_be(&k), meta: Meta { depth: self.meta.depth + 1, fp: fingerprint(&pk), child: i, chain: ir } })
    }
    pub fn key33(&self) -> [u8; 33] {
        let mut k = [0u8; 33];
        k[1..].copy_from_slice(&self.key);
        k
    }
    pub fn text(&self, version: u32) -> String {
        base58::check_encode(&payload(version, &self.meta, &self.key33()))
    }
    pub fn path(&self, p: &[u32]) -> Result<RPrv, Fail> {
        p.iter().try_fold(self.clone(), |k, i| k.child(*i))
    }
}
impl RPub {
    pub fn child(&self, i: u32) -> Result<RPub, Fail> {
        if i >= 1 << 31 {
            return Err(Fail::Hardened);
        }
        if self.meta.depth == 255 {
            return Err(Fail::Depth);
        }
        let mut data = self.key.to_vec();
        data.extend_from_slice(&i.to_be_bytes());
        let (il, ir) = split(hmac_sha512(&self.meta.chain, &data));
        let t = match secp::valid_scalar(&il) {
            Some(t) => t,
            None => return Err(Fail::Crypto),
        };
        let q = secp::padd_gmul(&secp::decompress(&self.key), &t);
        let key = secp::compress(&q).ok_or(Fail::Crypto)?;
        Ok(RPub { key, meta: Meta { depth: self.meta.depth + 1, fp: fingerprint(&self.key), child: i, chain: ir } })
    }
    pub fn text(&self, version: u32) -> String {
        base58::check_encode(&payload(version, &self.meta, &self.key))
    }
    pub fn path(&self, p: &[u32]) -> Result<RPub, Fail> {
        p.iter().try_fold(self.clone(), |k, i| k.child(*i))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Parsed {
    Prv(u32, RPrv),
    Pub(u32, RPub),
}
/// Strict parser: the acceptance predicate of property P10.
pub fn parse(s: &str) -> Option<Parsed> {
    let p = base58::check_decode(s)?;
    if p.len() != 78 {
        return None;
    }
    let l = s.as_bytes();
    if !l[..4].iter().all(|c| c.is_ascii_alphabetic()) {
        return None;
    }
    let version = u32::from_be_bytes(p[..4].try_into().unwrap());
    let meta = Meta {
        depth: p[4],
        fp: p[5..9].try_into().unwrap(),
        child: u32::from_be_bytes(p[9..13].try_into().unwrap()),
        chain: p[13..45].try_into().unwrap(),
    };
    if meta.depth == 0 && (meta.fp != [0; 4] || meta.child != 0) {
        return None;
    }
    let key: [u8; 33] = p[45..].try_into().unwrap();
    match &l[1..4] {
        b"prv" => {
            if key[0] != 0 {
                return None;
            }
            let k: [u8; 32] = key[1..].try_into().unwrap();
            secp::valid_scalar(&k)?;
            Some(Parsed::Prv(version, RPrv { key: k, meta }))
        }
        b"pub" => {
            secp::decompress(&key)?;
            Some(Parsed::Pub(version, RPub { key, meta }))
        }
        _ => None,
    }
}
