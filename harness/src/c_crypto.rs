//! P14 (signatures), P21 (raw key operations), P22 (failing key types).
use crate::engine::{Out, Run};
use crate::gen::*;
use crate::k;
use crate::refs::bip32::{self as rb, Meta};
use crate::refs::hash::{hash160, hmac_sha512, ripemd160, sha256};
use crate::refs::{hex, secp};
use kms::bip32::{ChildNumber, Error, ExtendedKey, ExtendedPrivateKey, ExtendedPublicKey, Prefix, PrivateKey, PublicKey, XPrv};
use libsecp256k1 as ls;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::str::FromStr;

fn secret(k: &B32) -> Result<ls::SecretKey, String> {
    ls::SecretKey::parse(&k.0).map_err(|e| format!("reference library refuses a valid key: {:?}", e))
}
struct Sig {
    r: secp::U256,
    s: secp::U256,
    raw: [u8; 64],
    id: u8,
}
fn sign(sk: &ls::SecretKey, digest: &[u8]) -> Result<Sig, String> {
    let (raw, id) = kms::ecdsa_sign(sk, digest).map_err(|e| format!("a 32-byte digest was refused: {}", e))?;
    Ok(Sig { r: secp::from_be(&raw[..32].try_into().unwrap()), s: secp::from_be(&raw[32..].try_into().unwrap()), raw, id })
}
/// everything one signature must satisfy
fn check_sig(key: &B32, digest: &B32) -> Result<Sig, String> {
    let sk = secret(key)?;
    let g = sign(&sk, &digest.0)?;
    let ctx = || format!("signature {} id {} by {:?} over {:?}", hex(&g.raw), g.id, key, digest);
    let inrange = |v: &secp::U256| !secp::is_zero(v) && secp::cmp(v, &secp::N) == std::cmp::Ordering::Less;
    ensure!(inrange(&g.r) && inrange(&g.s), "{}: r or s out of range", ctx());
    ensure!(!secp::is_high(&g.s), "{}: s is in the upper half range", ctx());
    ensure!(g.id < 4, "{}: recovery id out of range", ctx());
    let q = secp::gmul(&secp::from_be(&key.0));
    ensure!(secp::ecdsa_verify(&q, &digest.0, &g.r, &g.s), "{}: does not verify under the signer's public key", ctx());
    let rec = secp::ecdsa_recover(&digest.0, &g.r, &g.s, g.id);
    ensure!(rec.is_some() && secp::compress(&rec) == secp::compress(&q), "{}: recovers a different public key", ctx());
    let again = sign(&sk, &digest.0)?;
    ensure!(again.raw == g.raw && again.id == g.id, "{}: signing again gave {} id {}", ctx(), hex(&again.raw), again.id);
    // the nonce, which the key holder can compute: k = (z + r d) / s
    let d = secp::from_be(&key.0);
    let z = secp::reduce(&secp::from_be(&digest.0), &secp::N);
    let kk = secp::mul(&secp::add(&z, &secp::mul(&g.r, &d, &secp::N), &secp::N), &secp::inv(&g.s, &secp::N), &secp::N);
    let short = |v: &secp::U256| v[3] == 0 || (v[3] >> 8 == 0);
    ensure!(!short(&kk) && !short(&secp::neg(&kk, &secp::N)), "{}: nonce shorter than 200 bits", ctx());
    Ok(g)
}
fn digest_mod(d: &B32, m: &DMut) -> B32 {
    let mut d = *d;
    match m {
        DMut::Bit(b) => d.0[*b as usize / 8] ^= 0x80 >> (b % 8),
        DMut::New(n) => d = *n,
        DMut::Rev => d.0.reverse(),
        DMut::Not => d.0.iter_mut().for_each(|x| *x = !*x),
        DMut::Head(n, k) => d.0[..*k as usize % 33].copy_from_slice(&n.0[..*k as usize % 33]),
        DMut::Tail(n, k) => d.0[32 - *k as usize % 33..].copy_from_slice(&n.0[32 - *k as usize % 33..]),
        DMut::Rot(k) => d.0.rotate_left(*k as usize % 32),
        DMut::Hash => d = A(sha256(&d.0)),
        DMut::Neg => d = A(secp::to_be(&secp::neg(&secp::reduce(&secp::from_be(&d.0), &secp::N), &secp::N))),
        DMut::AddOne => d = A(secp::to_be(&secp::add(&secp::reduce(&secp::from_be(&d.0), &secp::N), &[1, 0, 0, 0], &secp::N))),
        DMut::Reduce => d = A(secp::to_be(&secp::reduce(&secp::from_be(&d.0), &secp::N))),
    }
    d
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum DMut {
    Bit(u8),
    New(B32),
    Rev,
    Not,
    Head(B32, u8),
    Tail(B32, u8),
    Rot(u8),
    Hash,
    Neg,
    AddOne,
    Reduce,
}
fn dmut() -> BoxedStrategy<DMut> {
    prop_oneof![
        6 => any::<u8>().prop_map(DMut::Bit),
        2 => b32().prop_map(DMut::New),
        1 => Just(DMut::Rev),
        1 => Just(DMut::Not),
        3 => (arr::<32>(), 1u8..32).prop_map(|(a, k)| DMut::Head(a, k)),
        3 => (arr::<32>(), 1u8..32).prop_map(|(a, k)| DMut::Tail(a, k)),
        1 => (1u8..32).prop_map(DMut::Rot),
        1 => Just(DMut::Hash),
        1 => Just(DMut::Neg),
        1 => Just(DMut::AddOne),
        1 => Just(DMut::Reduce),
    ]
    .boxed()
}
fn red(d: &B32) -> secp::U256 {
    secp::reduce(&secp::from_be(&d.0), &secp::N)
}

pub fn p14(r: &mut Run) {
    r.sub(
        "rare",
        "digests from a table for which r or s of one key's signature begins or ends with a long run of zero or one bits: as in sign; non-trivial = all",
        200,
        2_000,
        || crate::rare::pick("signature").boxed(),
        |i, o| {
            o.nt();
            check_sig(&A(crate::clash::value(0)), &A(crate::clash::value(*i))).map(|_| ())
        },
    );
    r.sub(
        "sign",
        "secret keys (edge scalars included) and 32-byte digests (edge values, >= n, zero): range, low S, verification and recovery by the reference curve, repeatability, full-length nonce, and rejection of a second related digest; non-trivial = all",
        25_000,
        2_000_000,
        || (scalar(), b32(), dmut()),
        |(key, d, m), o| {
            o.nt();
            let g = check_sig(key, d)?;
            o.label_if(secp::cmp(&secp::from_be(&d.0), &secp::N) != std::cmp::Ordering::Less, "digest >= n");
            o.label_if(g.id & 1 == 1, "odd R");
            o.label_if(key.0[0] == 0, "key with leading zero byte");
            o.label_if(d.0[0] == 0, "digest with leading zero byte");
            let e = digest_mod(d, m);
            if red(&e) != red(d) {
                let q = secp::gmul(&secp::from_be(&key.0));
                ensure!(!secp::ecdsa_verify(&q, &e.0, &g.r, &g.s), "the signature {} over {:?} also verifies for {:?}", hex(&g.raw), d, e);
            }
            Ok(())
        },
    );
    r.sub(
        "nonces",
        "families of related digests (one bit flipped, shared head or tail, reversed, rotated, negated, hashed, congruent) and related keys: every signature is checked, and two signatures share an R only if key and digest (mod n) coincide; non-trivial = at least two distinct (key, digest) pairs",
        3_000,
        200_000,
        || (scalar(), b32(), proptest::collection::vec((dmut(), proptest::option::weighted(0.3, mutation())), 1..10)),
        |(key, d, ms), o| {
            let mut seen: HashMap<secp::U256, (B32, B32)> = HashMap::new();
            let mut pairs = vec![(*key, *d)];
            for (m, km) in ms {
                let e = digest_mod(&pairs[pairs.len() / 2].1, m);
                let kk = match km {
                    Some(mu) => mu.apply(&Key { key: *key, chain: *d, depth: 0, fp: A([0; 4]), child: 0 }).key,
                    None => *key,
                };
                pairs.push((kk, e));
            }
            o.nt_if(pairs.iter().any(|p| p != &pairs[0]));
            for (kk, e) in pairs {
                let g = check_sig(&kk, &e)?;
                if let Some((k2, e2)) = seen.insert(g.r, (kk, e)) {
                    ensure!(k2 == kk && red(&e2) == red(&e), "nonce reused: key {:?} digest {:?} and key {:?} digest {:?} give the same R {}", k2, e2, kk, e, hex(&g.raw[..32]));
                }
            }
            Ok(())
        },
    );
    r.sub(
        "one_key_many",
        "one key signing 40 digests that count up from a base in one byte position: all R distinct; non-trivial = all",
        200,
        10_000,
        || (scalar(), b32(), 0usize..32),
        |(key, d, at), o| {
            o.nt();
            o.extra = 39;
            let sk = secret(key)?;
            let mut seen: HashMap<[u8; 32], (B32, secp::U256)> = HashMap::new();
            for i in 0..40u8 {
                let mut e = *d;
                e.0[*at] = e.0[*at].wrapping_add(i);
                let g = sign(&sk, &e.0)?;
                if let Some((e2, z2)) = seen.insert(g.raw[..32].try_into().unwrap(), (e, red(&e))) {
                    ensure!(z2 == red(&e), "nonce reused under key {:?} for digests {:?} and {:?}", key, e2, e);
                }
            }
            Ok(())
        },
    );
    r.sub(
        "from_wallet",
        "keys taken out of derived wallet keys by every conversion (private_key, From by value and by reference): they are the key and sign identically; non-trivial = all",
        2_000,
        60_000,
        || (key(), b32()),
        |(kk, d), o| {
            o.nt();
            let x = k::xprv(kk)?;
            let a = ls::SecretKey::from(&x);
            let b = x.private_key().clone();
            let c = ls::SecretKey::from(x.clone());
            let want = check_sig(&kk.key, d)?;
            for (s, n) in [(&a, "From<&XPrv>"), (&b, "private_key()"), (&c, "From<XPrv>")] {
                same!(s.serialize(), kk.key.0, "{}", n);
                let g = sign(s, &d.0)?;
                ensure!(g.raw == want.raw && g.id == want.id, "{}: signs differently", n);
            }
            Ok(())
        },
    );
    r.sub(
        "lengths",
        "messages of every length 0..=300 and source-derived sizes and sampled lengths up to 2^18, contents structured: an error exactly when the length is not 32; non-trivial = wrong length",
        20_000,
        400_000,
        || (scalar(), prop_oneof![6 => 0usize..301, 4 => size(4200), 4 => 28usize..37, 1 => long_size(1 << 18), 2 => proptest::sample::select(vec![256 + 32, 288usize, 512 + 32, 65536 + 32])], any::<u8>(), any::<u8>()),
        |(key, n, f, m), o| {
            let msg: Vec<u8> = (0..*n).map(|i| f.wrapping_add((i as u8).wrapping_mul(*m))).collect();
            o.nt_if(*n != 32);
            let res = kms::ecdsa_sign(&secret(key)?, &msg);
            ensure!(res.is_ok() == (*n == 32), "a message of {} bytes: {}", n, if res.is_ok() { "signed" } else { "refused" });
            Ok(())
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tweak {
    Raw(B32),
    /// n - k + d: gives a zero key for d = 0
    Cancel(i8),
    /// the key itself (point doubling)
    Own,
    /// n + k, not reduced
    OwnPlusN,
    N(i8),
    Zero,
}
fn tweak() -> BoxedStrategy<Tweak> {
    prop_oneof![
        6 => b32().prop_map(Tweak::Raw),
        2 => (-2i8..3).prop_map(Tweak::Cancel),
        1 => Just(Tweak::Own),
        1 => Just(Tweak::OwnPlusN),
        2 => (-2i8..3).prop_map(Tweak::N),
        1 => Just(Tweak::Zero),
    ]
    .boxed()
}
fn add_small(a: &[u8; 32], d: i32) -> [u8; 32] {
    let mut b = *a;
    let mut c = d;
    for i in (0..32).rev() {
        c += b[i] as i32;
        b[i] = c as u8;
        c >>= 8;
    }
    b
}
fn tweak_bytes(t: &Tweak, key: &B32) -> [u8; 32] {
    match t {
        Tweak::Raw(b) => b.0,
        Tweak::Cancel(d) => {
            let n = secp::to_be(&secp::neg(&secp::from_be(&key.0), &secp::N));
            add_small(&n, *d as i32)
        }
        Tweak::Own => key.0,
        Tweak::OwnPlusN => {
            let (n, mut o, mut c) = (secp::to_be(&secp::N), key.0, 0u16);
            for i in (0..32).rev() {
                c += o[i] as u16 + n[i] as u16;
                o[i] = c as u8;
                c >>= 8;
            }
            o
        }
        Tweak::N(d) => add_small(&secp::to_be(&secp::N), *d as i32),
        Tweak::Zero => [0; 32],
    }
}
/// Result the group law prescribes: Err for an error, Ok(None) where error or "unchanged" are both right.
fn add_prv(key: &B32, t: &[u8; 32]) -> Result<Option<[u8; 32]>, ()> {
    let tv = secp::from_be(t);
    if secp::is_zero(&tv) {
        return Ok(None);
    }
    if secp::cmp(&tv, &secp::N) != std::cmp::Ordering::Less {
        return Err(());
    }
    let s = secp::add(&tv, &secp::from_be(&key.0), &secp::N);
    if secp::is_zero(&s) {
        return Err(());
    }
    Ok(Some(secp::to_be(&s)))
}
fn add_pub(p: &[u8; 33], t: &[u8; 32]) -> Result<Option<[u8; 33]>, ()> {
    let tv = secp::from_be(t);
    if secp::is_zero(&tv) {
        return Ok(None);
    }
    if secp::cmp(&tv, &secp::N) != std::cmp::Ordering::Less {
        return Err(());
    }
    secp::compress(&secp::padd_gmul(&secp::decompress(p), &tv)).map(Some).ok_or(())
}
fn judge<const N: usize>(got: Result<[u8; N], Error>, want: Result<Option<[u8; N]>, ()>, own: &[u8; N], what: &str) -> Out {
    match (got, want) {
        (Ok(g), Ok(Some(w))) => {
            ensure!(g == w, "{}: got {}, expected {}", what, hex(&g), hex(&w));
        }
        (Ok(g), Ok(None)) => {
            ensure!(g == *own, "{}: the zero tweak changed the key to {}", what, hex(&g));
        }
        (Err(_), Ok(None)) | (Err(_), Err(())) => {}
        (Err(e), Ok(Some(w))) => return Err(format!("{}: refused ({}), expected {}", what, e, hex(&w))),
        (Ok(g), Err(())) => return Err(format!("{}: must be an error, gave {}", what, hex(&g))),
    }
    Ok(())
}

pub fn p21(r: &mut Run) {
    r.sub(
        "scalars",
        "32-byte strings, most near 0, n, p and 2^256: accepted as a private key exactly when in 1..n-1, bytes back unchanged, public key by the reference curve; non-trivial = all",
        40_000,
        3_000_000,
        b32,
        |b, o| {
            o.nt();
            let ok = secp::valid_scalar(&b.0).is_some();
            o.label(if ok { "valid" } else { "invalid" });
            match <ls::SecretKey as PrivateKey>::from_bytes(&b.0) {
                Ok(sk) => {
                    ensure!(ok, "{:?} accepted as a private key", b);
                    same!(hex(&PrivateKey::to_bytes(&sk)), hex(&b.0), "private key bytes");
                    let p = PrivateKey::public_key(&sk);
                    same!(hex(&PublicKey::to_bytes(&p)), hex(&secp::pubkey(&b.0).unwrap()), "public key of {:?}", b);
                    Ok(())
                }
                Err(e) => {
                    ensure!(!ok, "valid private key {:?} refused: {}", b, e);
                    same!(e, Error::Crypto, "error for an invalid private key");
                    Ok(())
                }
            }
        },
    );
    r.sub(
        "points",
        "33-byte strings: compressed points, off-curve x, x >= p, every tag byte: accepted exactly when a compressed curve point, bytes back unchanged, fingerprint = HASH160[..4]; non-trivial = all",
        40_000,
        3_000_000,
        || (point(), prop_oneof![4 => Just(None), 2 => b32().prop_map(Some)], prop_oneof![4 => Just(None), 1 => any::<u8>().prop_map(Some), 2 => (0u8..8).prop_map(Some)], proptest::option::weighted(0.2, 0u16..264)),
        |(p, x, tag, bit), o| {
            o.nt();
            let mut b = p.0;
            if let Some(x) = x {
                b[1..].copy_from_slice(&x.0);
            }
            if let Some(t) = tag {
                b[0] = *t;
            }
            if let Some(i) = bit {
                b[*i as usize / 8] ^= 0x80 >> (i % 8);
            }
            let ok = secp::decompress(&b).is_some();
            o.label(if ok { "valid" } else { "invalid" });
            match <ls::PublicKey as PublicKey>::from_bytes(b) {
                Ok(q) => {
                    ensure!(ok, "{} accepted as a public key", hex(&b));
                    same!(hex(&PublicKey::to_bytes(&q)), hex(&b), "public key bytes");
                    same!(hex(&q.fingerprint()), hex(&hash160(&b)[..4]), "fingerprint of {}", hex(&b));
                    Ok(())
                }
                Err(e) => {
                    ensure!(!ok, "valid public key {} refused: {}", hex(&b), e);
                    same!(e, Error::Crypto, "error for an invalid public key");
                    Ok(())
                }
            }
        },
    );
    r.sub(
        "tweaks",
        "keys and tweaks (arbitrary, 0, around n, own key, n minus own key): private and public addition against the reference, each other, and errors exactly where the group law has no result (a zero tweak may be an error or leave the key unchanged); non-trivial = all",
        20_000,
        1_500_000,
        || (scalar(), tweak()),
        |(key, tw), o| {
            o.nt();
            let t = tweak_bytes(tw, key);
            let sk = secret(key)?;
            let want = add_prv(key, &t);
            o.label(match want { Ok(Some(_)) => "sum", Ok(None) => "zero tweak", Err(()) => "no result" });
            let got = PrivateKey::derive_child(&sk, t).map(|k| PrivateKey::to_bytes(&k));
            judge(got, want, &key.0, &format!("private key {:?} plus tweak {}", key, hex(&t)))?;
            same!(hex(&PrivateKey::to_bytes(&sk)), hex(&key.0), "the key itself after derive_child");
            let pk = PrivateKey::public_key(&sk);
            let own = PublicKey::to_bytes(&pk);
            let got = PublicKey::derive_child(&pk, t).map(|k| PublicKey::to_bytes(&k));
            let via = match want {
                Ok(Some(s)) => Ok(Some(secp::pubkey(&s).unwrap())),
                Ok(None) => Ok(None),
                Err(()) => Err(()),
            };
            judge(got, via, &own, &format!("public key of {:?} plus tweak {}", key, hex(&t)))?;
            same!(hex(&PublicKey::to_bytes(&pk)), hex(&own), "the public key itself after derive_child");
            Ok(())
        },
    );
    r.sub(
        "public_tweaks",
        "curve points with unknown private key, and points whose negation is the tweak's multiple of G: public addition against the reference; non-trivial = all",
        20_000,
        1_500_000,
        || (prop_oneof![3 => point().prop_map(|p| (p, None)), 2 => (scalar(), any::<bool>()).prop_map(|(k, neg)| { let mut p = secp::pubkey(&k.0).unwrap(); if neg { p[0] ^= 1 } (A(p), Some(k)) })], b32()),
        |((p, k), t), o| {
            o.nt();
            // with Some(k): P = kG or -kG, tweak k doubles or cancels
            let t = k.unwrap_or(*t);
            let pk = <ls::PublicKey as PublicKey>::from_bytes(p.0).map_err(|e| format!("valid point {:?} refused: {}", p, e))?;
            let want = add_pub(&p.0, &t.0);
            o.label(match want { Ok(Some(_)) => "sum", Ok(None) => "zero tweak", Err(()) => "no result" });
            let got = PublicKey::derive_child(&pk, t.0).map(|k| PublicKey::to_bytes(&k));
            judge(got, want, &p.0, &format!("public key {:?} plus tweak {:?}", p, t))
        },
    );
    r.sub(
        "sums",
        "several tweaks applied to a key in two orders: both equal the reference sum; non-trivial = at least two tweaks",
        4_000,
        200_000,
        || (scalar(), proptest::collection::vec(scalar(), 1..6)),
        |(key, ts), o| {
            o.nt_if(ts.len() >= 2);
            let mut sum = secp::from_be(&key.0);
            for t in ts {
                sum = secp::add(&sum, &secp::from_be(&t.0), &secp::N);
            }
            for rev in [false, true] {
                let mut part = secp::from_be(&key.0);
                let mut sk = secret(key)?;
                let mut pk = PrivateKey::public_key(&sk);
                let order: Vec<_> = if rev { ts.iter().rev().collect() } else { ts.iter().collect() };
                for t in order {
                    part = secp::add(&part, &secp::from_be(&t.0), &secp::N);
                    if secp::is_zero(&part) {
                        return Ok(());
                    }
                    sk = PrivateKey::derive_child(&sk, t.0).map_err(|e| format!("tweak {:?} refused: {}", t, e))?;
                    pk = PublicKey::derive_child(&pk, t.0).map_err(|e| format!("tweak {:?} refused: {}", t, e))?;
                }
                same!(hex(&PrivateKey::to_bytes(&sk)), hex(&secp::to_be(&sum)), "sum of tweaks, private");
                same!(hex(&PublicKey::to_bytes(&pk)), hex(&secp::pubkey(&secp::to_be(&sum)).unwrap()), "sum of tweaks, public");
            }
            Ok(())
        },
    );
    r.sub(
        "ripemd",
        "byte strings of every length 0..=1030 including block boundaries, and sampled lengths up to 2^17: lower-case hexadecimal RIPEMD-160 by the reference; non-trivial = all",
        20_000,
        600_000,
        || (prop_oneof![12 => size(1030), 1 => long_size(1 << 17)], bytes_pat(64)),
        |(n, v), o| {
            o.nt();
            let m: Vec<u8> = (0..*n).map(|i| v[i % 64].wrapping_add((i / 64) as u8)).collect();
            same!(kms::crypto::ripemd(&m), hex(&ripemd160(&m)), "ripemd of {} bytes", n);
            Ok(())
        },
    );
}

// ---- P22: a key type that fails on command ----

const ERRS: [Error; 7] = [Error::Base58, Error::Bip39, Error::ChildNumber, Error::Crypto, Error::Decode, Error::Depth, Error::SeedLength];

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Fault {
    /// which derive (or from_bytes) call fails, counted from 0
    at: usize,
    /// this call only, or this and all later ones
    lasting: bool,
    err: u8,
}
#[derive(Default)]
struct Mock {
    derive: Option<Fault>,
    load: Option<Fault>,
    derives: usize,
    loads: usize,
    log: Vec<(Vec<u8>, [u8; 32])>,
    loaded: Vec<Vec<u8>>,
}
impl Mock {
    fn hit(f: &Option<Fault>, n: usize) -> Option<Error> {
        f.as_ref().filter(|f| n == f.at || (f.lasting && n > f.at)).map(|f| ERRS[f.err as usize % 7])
    }
}
thread_local! {
    static MOCK: RefCell<Mock> = RefCell::new(Mock::default());
}
fn mderive(key: &[u8], t: [u8; 32]) -> Result<(), Error> {
    MOCK.with(|m| {
        let mut m = m.borrow_mut();
        let n = m.derives;
        m.derives += 1;
        m.log.push((key.to_vec(), t));
        Mock::hit(&m.derive, n).map_or(Ok(()), Err)
    })
}
fn mload(b: &[u8]) -> Result<(), Error> {
    MOCK.with(|m| {
        let mut m = m.borrow_mut();
        let n = m.loads;
        m.loads += 1;
        m.loaded.push(b.to_vec());
        Mock::hit(&m.load, n).map_or(Ok(()), Err)
    })
}
#[derive(Clone)]
struct MPrv([u8; 32]);
#[derive(Clone)]
struct MPub([u8; 33]);
fn h(tag: u8, a: &[u8], b: &[u8]) -> [u8; 32] {
    let mut v = vec![tag];
    v.extend_from_slice(a);
    v.extend_from_slice(b);
    sha256(&v)
}
fn m_child(k: &[u8; 32], t: &[u8; 32]) -> [u8; 32] {
    h(1, k, t)
}
fn m_pub(k: &[u8; 32]) -> [u8; 33] {
    let mut p = [5; 33];
    p[1..].copy_from_slice(&h(2, k, &[]));
    p
}
fn m_pchild(p: &[u8; 33], t: &[u8; 32]) -> [u8; 33] {
    let mut o = [9; 33];
    o[1..].copy_from_slice(&h(3, p, t));
    o
}
impl PrivateKey for MPrv {
    type PublicKey = MPub;
    fn from_bytes(b: &[u8; 32]) -> Result<Self, Error> {
        mload(b)?;
        Ok(MPrv(*b))
    }
    fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    fn derive_child(&self, t: [u8; 32]) -> Result<Self, Error> {
        mderive(&self.0, t)?;
        Ok(MPrv(m_child(&self.0, &t)))
    }
    fn public_key(&self) -> MPub {
        MPub(m_pub(&self.0))
    }
}
impl PublicKey for MPub {
    fn from_bytes(b: [u8; 33]) -> Result<Self, Error> {
        mload(&b)?;
        Ok(MPub(b))
    }
    fn to_bytes(&self) -> [u8; 33] {
        self.0
    }
    fn derive_child(&self, t: [u8; 32]) -> Result<Self, Error> {
        mderive(&self.0, t)?;
        Ok(MPub(m_pchild(&self.0, &t)))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Route {
    SeedPath,
    SeedThenPath,
    PrvPath,
    PrvSteps,
    PubPath,
    PubSteps,
    PrvText,
    PubText,
    PrvTextPath,
    PubTextPath,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MCase {
    route: Route,
    seed: B,
    start: Key,
    path: Vec<u32>,
    derive: Option<Fault>,
    load: Option<Fault>,
}
/// what must happen: final key bytes and meta, or an error; and the derive calls made on the way
struct Expect {
    out: Result<(Vec<u8>, Meta), Vec<Error>>,
    log: Vec<(Vec<u8>, [u8; 32])>,
    /// a further correct call that may be logged before a depth error is noticed
    spare: Option<(Vec<u8>, [u8; 32])>,
}
fn expect(c: &MCase) -> Expect {
    let public = matches!(c.route, Route::PubPath | Route::PubSteps | Route::PubText | Route::PubTextPath);
    let from_seed = matches!(c.route, Route::SeedPath | Route::SeedThenPath);
    let steps: &[u32] = if matches!(c.route, Route::PrvText | Route::PubText) { &[] } else { &c.path };
    let mut ex = Expect { out: Err(vec![]), log: vec![], spare: None };
    let (mut prv, mut meta) = if from_seed {
        let i = hmac_sha512(b"Bitcoin seed", &c.seed.0);
        (i[..32].try_into().unwrap(), Meta { depth: 0, fp: [0; 4], child: 0, chain: i[32..].try_into().unwrap() })
    } else {
        (c.start.key.0, c.start.r().meta)
    };
    let mut publ = m_pub(&prv);
    if let Some(e) = Mock::hit(&c.load, 0) {
        ex.out = Err(vec![e]);
        return ex;
    }
    for i in steps {
        let own = if public { publ } else { m_pub(&prv) };
        if public && i >> 31 == 1 {
            ex.out = Err(if meta.depth == 255 { vec![Error::ChildNumber, Error::Depth] } else { vec![Error::ChildNumber] });
            return ex;
        }
        let mut data = vec![];
        if i >> 31 == 1 {
            data.push(0);
            data.extend_from_slice(&prv);
        } else {
            data.extend_from_slice(&own);
        }
        data.extend_from_slice(&i.to_be_bytes());
        let hm = hmac_sha512(&meta.chain, &data);
        let t: [u8; 32] = hm[..32].try_into().unwrap();
        let call = (if public { publ.to_vec() } else { prv.to_vec() }, t);
        let fault = Mock::hit(&c.derive, ex.log.len());
        if meta.depth == 255 {
            ex.out = Err([Error::Depth].into_iter().chain(fault).collect());
            ex.spare = Some(call);
            return ex;
        }
        ex.log.push(call);
        if let Some(e) = fault {
            ex.out = Err(vec![e]);
            return ex;
        }
        prv = m_child(&prv, &t);
        publ = m_pchild(&publ, &t);
        meta = Meta { depth: meta.depth + 1, fp: hash160(&own)[..4].try_into().unwrap(), child: *i, chain: hm[32..].try_into().unwrap() };
    }
    ex.out = Ok((if public { publ.to_vec() } else { prv.to_vec() }, meta));
    ex
}
type MX = ExtendedPrivateKey<MPrv>;
type MP = ExtendedPublicKey<MPub>;
fn see_x(x: &MX) -> (Vec<u8>, Meta) {
    (x.to_bytes().to_vec(), k::meta(x.attrs()))
}
fn see_p(x: &MP) -> (Vec<u8>, Meta) {
    (x.to_bytes().to_vec(), k::meta(x.attrs()))
}
fn drive(c: &MCase) -> Result<(Vec<u8>, Meta), Error> {
    let p = k::path(&c.path);
    let r = c.start.r();
    let ek = |prefix, key_bytes| ExtendedKey { prefix, attrs: k::attrs(&r.meta), key_bytes };
    let mp = m_pub(&c.start.key.0);
    let prv_text = || crate::refs::base58::check_encode(&rb::payload(0x0488ade4, &r.meta, &r.key33()));
    let pub_text = || crate::refs::base58::check_encode(&rb::payload(0x0488b21e, &r.meta, &mp));
    Ok(match c.route {
        Route::SeedPath => see_x(&MX::new_from_path(&c.seed.0, &p)?),
        Route::SeedThenPath => see_x(&MX::new(&c.seed.0)?.derive_from_path(&p)?),
        Route::PrvPath => see_x(&MX::try_from(ek(Prefix::XPRV, r.key33()))?.derive_from_path(&p)?),
        Route::PrvSteps => {
            let mut x = MX::try_from(ek(Prefix::XPRV, r.key33()))?;
            for i in &c.path {
                let before = see_x(&x);
                let y = x.derive_child(ChildNumber(*i));
                if see_x(&x) != before {
                    panic!("derive_child changed its parent");
                }
                x = y?;
            }
            see_x(&x)
        }
        Route::PubPath => see_p(&MP::try_from(ek(Prefix::XPUB, mp))?.derive_from_path(&p)?),
        Route::PubSteps => {
            let mut x = MP::try_from(ek(Prefix::XPUB, mp))?;
            for i in &c.path {
                x = x.derive_child(ChildNumber(*i))?;
            }
            see_p(&x)
        }
        Route::PrvText => see_x(&MX::from_str(&prv_text())?),
        Route::PubText => see_p(&MP::from_str(&pub_text())?),
        Route::PrvTextPath => see_x(&prv_text().parse::<MX>()?.derive_from_path(&p)?),
        Route::PubTextPath => see_p(&pub_text().parse::<MP>()?.derive_from_path(&p)?),
    })
}
fn run_mock(c: &MCase) -> Out {
    MOCK.with(|m| *m.borrow_mut() = Mock { derive: c.derive.clone(), load: c.load.clone(), ..Mock::default() });
    let got = drive(c);
    let mut log = MOCK.with(|m| std::mem::take(&mut m.borrow_mut().log));
    log.dedup();
    let ex = expect(c);
    let show = |l: &[(Vec<u8>, [u8; 32])]| l.iter().map(|(k, t)| format!("{}+{}", hex(&k[k.len() - 4..]), hex(&t[..4]))).collect::<Vec<_>>().join(" ");
    match (&got, &ex.out) {
        (Ok(a), Ok(b)) => same!(*a, *b, "{:?} with {} steps", c.route, c.path.len()),
        (Err(a), Err(b)) => ensure!(b.contains(a), "{:?}: reported {:?}, expected {:?}", c.route, a, b),
        (Ok(_), Err(b)) => return Err(format!("{:?}: the key type failed (or the step is impossible: {:?}) but a key was returned", c.route, b)),
        (Err(a), Ok(_)) => return Err(format!("{:?}: failed with {:?} although every step succeeds", c.route, a)),
    }
    let spare_ok = ex.spare.as_ref().is_some_and(|s| log.len() == ex.log.len() + 1 && log[..ex.log.len()] == ex.log[..] && log.last() == Some(s));
    ensure!(log == ex.log || spare_ok, "{:?}: tweaks handed to the key type: {}; expected {}", c.route, show(&log), show(&ex.log));
    Ok(())
}
fn route() -> impl Strategy<Value = Route> + Clone {
    use Route::*;
    proptest::sample::select(vec![SeedPath, SeedThenPath, PrvPath, PrvSteps, PubPath, PubSteps, PrvTextPath, PubTextPath, PrvText, PubText])
}
fn mcase(maxlen: usize) -> BoxedStrategy<MCase> {
    let fault = |p: f64, n: usize| proptest::option::weighted(p, (0..n, any::<bool>(), 0u8..7).prop_map(|(at, lasting, err)| Fault { at, lasting, err }));
    (route(), seed_ok(), prop_oneof![3 => key_shallow(), 1 => key()], path(maxlen), fault(0.7, maxlen), fault(0.15, 3), any::<u8>())
        .prop_map(|(route, seed, start, mut path, derive, mut load, unh)| {
            if matches!(route, Route::PubPath | Route::PubSteps | Route::PubTextPath) && unh > 50 {
                for i in &mut path {
                    *i &= 0x7fff_ffff;
                }
            }
            // only the first load is certain to happen
            if let Some(l) = &mut load {
                l.at = 0;
            }
            MCase { route, seed, start, path, derive, load }
        })
        .boxed()
}

pub fn p22(r: &mut Run) {
    r.sub(
        "faults",
        "a recording key type is driven along paths of up to 12 steps by every route (seed, path, steps, text; private and public), failing once or lastingly at a chosen call with any error: result, error and exact tweak log against the model; non-trivial = a fault or refused step happens, or at least two steps succeed",
        60_000,
        4_000_000,
        || mcase(12),
        |c, o| {
            let ex = expect(c);
            o.nt_if(ex.out.is_err() || ex.log.len() >= 2);
            o.label(match &ex.out {
                Ok(_) => "succeeds",
                Err(_) if ex.log.is_empty() => "fails before the first step",
                Err(_) => "fails at a step",
            });
            o.label_if(c.derive.as_ref().is_some_and(|f| !f.lasting) && ex.out.is_err(), "failure that would not recur");
            run_mock(c)
        },
    );
    r.sub(
        "every_position",
        "for one path every call position fails in turn, once and lastingly, with every error variant; non-trivial = path of at least two steps",
        250,
        8_000,
        || (route(), seed_ok(), key_shallow(), path(20)),
        |(route, seed, start, path), o| {
            o.nt_if(path.len() >= 2);
            let mut path = path.clone();
            if matches!(route, Route::PubPath | Route::PubSteps | Route::PubTextPath) {
                for i in &mut path {
                    *i &= 0x7fff_ffff;
                }
            }
            let mut c = MCase { route: *route, seed: seed.clone(), start: start.clone(), path, derive: None, load: None };
            run_mock(&c)?;
            for at in 0..c.path.len() {
                for lasting in [false, true] {
                    for err in 0..7 {
                        c.derive = Some(Fault { at, lasting, err });
                        run_mock(&c).map_err(|m| format!("call {} failing with {:?}{}: {}", at, ERRS[err as usize], if lasting { " from then on" } else { " once" }, m))?;
                        o.extra += 1;
                    }
                }
            }
            c.derive = None;
            for err in 0..7 {
                for lasting in [false, true] {
                    c.load = Some(Fault { at: 0, lasting, err });
                    run_mock(&c).map_err(|m| format!("from_bytes failing with {:?}: {}", ERRS[err as usize], m))?;
                    o.extra += 1;
                }
            }
            Ok(())
        },
    );
    r.sub(
        "long",
        "paths up to 300 steps with a fault or the depth limit somewhere along them; non-trivial = all",
        250,
        8_000,
        || (mcase(12), idx(), 1usize..300, 0usize..300, any::<bool>()),
        |(c, i, n, at, on), o| {
            o.nt();
            let mut c = c.clone();
            let i = if matches!(c.route, Route::PubPath | Route::PubSteps | Route::PubTextPath) { i & 0x7fff_ffff } else { *i };
            c.path = (0..*n as u32).map(|j| i.wrapping_add(j % 5) & 0x7fff_ffff | i & 1 << 31).collect();
            if *on {
                c.derive = Some(Fault { at: *at, lasting: c.derive.as_ref().is_some_and(|f| f.lasting), err: at.wrapping_mul(31) as u8 % 7 });
            }
            run_mock(&c)
        },
    );
    // the published key types, along paths: their own failures are the group-law ones, unreachable through HMAC,
    // so what can be driven is that the generic code uses the same tweaks for them
    r.sub(
        "real_type",
        "the same routes with the secp256k1 key type against the reference: the generic code hands it the same tweaks; non-trivial = at least two steps",
        1_500,
        60_000,
        || (key_shallow(), path(6)),
        |(kk, p), o| {
            o.nt_if(p.len() >= 2);
            let x: XPrv = k::xprv(kk)?;
            match (x.derive_from_path(&k::path(p)), kk.r().path(p)) {
                (Ok(a), Ok(b)) => k::cmp_prv(&a, &b, "path"),
                (Err(_), Err(_)) => Ok(()),
                (a, b) => Err(format!("{:?} against {:?}", a, b)),
            }
        },
    );
}
