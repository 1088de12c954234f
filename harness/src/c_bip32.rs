//! P05-P13: extended keys, derivation, serialisation, paths, prefixes.
use crate::engine::{Out, Run, Tier};
use crate::gen::*;
use crate::k::{self, cmp_prv, cmp_pub, see_prv, see_pub};
use crate::refs::bip32::{self as rb, Fail, Parsed, RPrv, RPub};
use crate::refs::hash::sha256;
use crate::refs::{base58, hex, secp};
use kms::bip32::{ChildNumber, DerivationPath, Error, ExtendedKey, Prefix, XPrv, XPub};
use kms::bip39::Seed;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::str::FromStr;
use subtle::ConstantTimeEq;

pub fn p05(r: &mut Run) {
    r.sub(
        "rare",
        "seeds from a table whose master key or chain code begins or ends with a long run of zero or one bits: as in master; non-trivial = all",
        400,
        4_000,
        || prop_oneof![crate::rare::pick("master16").prop_map(crate::rare::seed16), crate::rare::pick("master64").prop_map(crate::rare::seed64)].prop_map(B),
        |s, o| {
            o.nt();
            let want = rb::master(&s.0).ok_or("reference: invalid master key")?;
            let a = XPrv::new(&s.0).map_err(|e| format!("seed refused: {}", e))?;
            cmp_prv(&a, &want, "new")?;
            cmp_pub(&a.public_key(), &want.neuter(), "public key")?;
            same!(*a.to_string(Prefix::XPRV), want.text(0x0488ade4), "text");
            derive_prv(&a, &want, 0)?;
            derive_prv(&a, &want, 1 << 31)
        },
    );
    r.sub(
        "master",
        "seeds of 16/32/64/128 bytes (random, structured, source literals): root key, chain code and attributes against the reference, through every route (new, empty path, parsed \"m\", borrowed/owned); non-trivial = all",
        150_000,
        8_000_000,
        seed_ok,
        |s, o| {
            o.nt();
            o.label(match s.0.len() { 16 => "16", 32 => "32", 64 => "64", _ => "128" });
            let want = rb::master(&s.0).ok_or("reference: invalid master key")?;
            let a = XPrv::new(&s.0).map_err(|e| format!("seed refused: {}", e))?;
            cmp_prv(&a, &want, "new")?;
            let b = XPrv::new(s.0.clone()).map_err(|e| format!("seed refused: {}", e))?;
            cmp_prv(&b, &want, "new, owned seed")?;
            let c = XPrv::new_from_path(&s.0, &DerivationPath::default()).map_err(|e| format!("empty path refused: {}", e))?;
            cmp_prv(&c, &want, "new_from_path, empty path")?;
            Ok(())
        },
    );
    r.sub(
        "from_mnemonic_seed",
        "seeds made by the library itself from mnemonics and passwords: the root key is the reference master key of the reference seed; non-trivial = all",
        1_500,
        40_000,
        || (entropy(), lang(), password()),
        |(e, l, pw), o| {
            o.nt();
            let m = k::mnemonic(&e.0, *l)?;
            let s = crate::refs::bip39::seed(&crate::refs::bip39::phrase(&e.0, *l), *l, pw);
            let want = rb::master(&s).ok_or("reference: invalid master key")?;
            let x = XPrv::new(Seed::new(&m, pw)).map_err(|e| format!("seed refused: {}", e))?;
            cmp_prv(&x, &want, "new(Seed)")
        },
    );
    r.sub(
        "lengths",
        "byte strings of any length 0..=300, sampled lengths up to 2^18, source-derived sizes, and multiples/offsets of valid lengths: seed-length error exactly when not 16/32/64/128 bytes, whatever the path; non-trivial = invalid length",
        30_000,
        600_000,
        || (prop_oneof![6 => 0usize..301, 4 => size(4097), 1 => long_size(1 << 18), 2 => proptest::sample::select(vec![256 + 16, 256 + 32, 256 + 64, 256 + 128, 512 + 64, 4096 + 64, 65536 + 16, 65536 + 64, 65536 + 128])], any::<u8>(), path(3)),
        |(n, f, p), o| {
            let s: Vec<u8> = (0..*n).map(|i| f.wrapping_add((i as u8).wrapping_mul(7))).collect();
            let ok = [16, 32, 64, 128].contains(n);
            o.nt_if(!ok);
            match XPrv::new(&s) {
                Ok(x) => {
                    ensure!(ok, "seed of {} bytes accepted", n);
                    cmp_prv(&x, &rb::master(&s).ok_or("reference")?, "new")?;
                }
                Err(e) => {
                    ensure!(!ok, "seed of {} bytes refused: {}", n, e);
                    same!(e, Error::SeedLength, "error for {} bytes", n);
                }
            }
            match XPrv::new_from_path(&s, &k::path(p)) {
                Ok(_) => ensure!(ok, "seed of {} bytes accepted with path {:?}", n, p),
                Err(e) => {
                    ensure!(!ok, "seed of {} bytes refused with path {:?}: {}", n, p, e);
                    same!(e, Error::SeedLength, "error for {} bytes and path {:?}", n, p);
                }
            }
            Ok(())
        },
    );
}

pub fn derive_prv(x: &XPrv, rr: &RPrv, i: u32) -> Out {
    let before = see_prv(x);
    match (rr.child(i), x.derive_child(ChildNumber(i))) {
        (Ok(want), Ok(c)) => cmp_prv(&c, &want, &format!("child {:#x} of {:?}", i, rr))?,
        (Err(Fail::Depth), Err(e)) => same!(e, Error::Depth, "error for a child below depth 255"),
        (Err(_), Err(_)) => {}
        (Ok(_), Err(e)) => return Err(format!("child {:#x} of {:?} refused: {}", i, rr, e)),
        (Err(f), Ok(c)) => return Err(format!("child {:#x} of {:?} given ({:?}) although {:?}", i, rr, see_prv(&c), f)),
    }
    same!(see_prv(x), before, "the parent after deriving child {:#x}", i);
    Ok(())
}
pub fn derive_pub(x: &XPub, rr: &RPub, i: u32) -> Out {
    let before = see_pub(x);
    match (rr.child(i), x.derive_child(ChildNumber(i))) {
        (Ok(want), Ok(c)) => cmp_pub(&c, &want, &format!("public child {:#x} of {:?}", i, rr))?,
        (Err(Fail::Depth), Err(e)) => same!(e, Error::Depth, "error for a public child below depth 255"),
        (Err(Fail::Hardened), Err(e)) => ensure!(
            e == Error::ChildNumber || (e == Error::Depth && rr.meta.depth == 255),
            "error for a hardened public child is {:?}",
            e
        ),
        (Err(_), Err(_)) => {}
        (Ok(_), Err(e)) => return Err(format!("public child {:#x} of {:?} refused: {}", i, rr, e)),
        (Err(f), Ok(c)) => return Err(format!("public child {:#x} of {:?} given ({:?}) although {:?}", i, rr, see_pub(&c), f)),
    }
    same!(see_pub(x), before, "the parent after deriving public child {:#x}", i);
    Ok(())
}

pub fn p06(r: &mut Run) {
    r.sub(
        "rare",
        "indices from a table for which the tweak, the child key or the child chain code of one parent begins or ends with a long run of zero or one bits, and children of such children: against the reference; non-trivial = all",
        600,
        6_000,
        || (prop_oneof![crate::rare::pick("child"), crate::rare::pick("hardened").prop_map(|i| i | 1 << 31)], idx()),
        |(i, j), o| {
            o.nt();
            let p = crate::rare::parent();
            let x = k::xprv_r(&p)?;
            derive_prv(&x, &p, *i)?;
            let c = p.child(*i).map_err(|e| format!("reference: {:?}", e))?;
            let y = x.derive_child((*i).into()).map_err(|e| format!("child refused: {}", e))?;
            derive_prv(&y, &c, *j)?;
            let z = y.to_string(Prefix::XPRV).parse::<XPrv>().map_err(|e| format!("own text refused: {}", e))?;
            derive_prv(&z, &c, *j)
        },
    );
    let classes = |k: &Key, i: u32, o: &mut crate::engine::Obs| {
        o.label(if i >> 31 == 1 { "hardened" } else { "normal" });
        o.label_if(k.key.0[0] == 0, "key with leading zero byte");
        o.label_if(k.depth == 255, "at depth limit");
    };
    r.sub(
        "ckd",
        "extended private key built field by field (boundary scalars, leading zeros, any chain code/depth/fingerprint/child number) x any 32-bit index: child against the reference, parent unchanged; non-trivial = all",
        110_000,
        6_000_000,
        || (key(), idx()),
        move |(ky, i), o| {
            o.nt();
            classes(ky, *i, o);
            derive_prv(&k::xprv(ky)?, &ky.r(), *i)
        },
    );
    r.sub(
        "related",
        "the same or neighbouring indices derived in turn from 2-4 keys that differ in a single field or bit, on one thread: every child against the reference; non-trivial = at least one key differs",
        20_000,
        1_000_000,
        || (key(), proptest::collection::vec(mutation(), 1..4), idx(), proptest::collection::vec(prop_oneof![2 => Just(0u32), 1 => Just(1u32 << 31), 1 => (0u32..31).prop_map(|b| 1 << b)], 4)),
        |(ky, ms, i, d), o| {
            let mut keys = vec![ky.clone()];
            for m in ms {
                keys.push(m.apply(keys.last().unwrap()));
            }
            o.nt_if(keys.iter().any(|x| x != ky));
            let xs = keys.iter().map(k::xprv).collect::<Result<Vec<_>, _>>()?;
            for (n, (x, q)) in xs.iter().zip(&keys).enumerate() {
                derive_prv(x, &q.r(), *i ^ d[n])?;
            }
            derive_prv(&xs[0], &keys[0].r(), *i)
        },
    );
    r.sub(
        "chain",
        "chains of 1-8 derivations from a root key, every link against the reference; non-trivial = at least two links",
        6_000,
        300_000,
        || (seed_ok(), proptest::collection::vec(idx(), 1..9)),
        |(s, p), o| {
            o.nt_if(p.len() > 1);
            let mut rr = rb::master(&s.0).ok_or("reference")?;
            let mut x = XPrv::new(&s.0).map_err(|e| format!("seed refused: {}", e))?;
            for i in p {
                derive_prv(&x, &rr, *i)?;
                x = x.derive_child((*i).into()).map_err(|e| format!("child refused: {}", e))?;
                rr = rr.child(*i).map_err(|e| format!("{:?}", e))?;
            }
            Ok(())
        },
    );
    r.sub(
        "depth_limit",
        "every index class from keys at depth 254 and 255: depth 255 gives a depth error, 254 a child at 255; non-trivial = parent at 255",
        8_000,
        300_000,
        || (key(), idx(), any::<bool>()),
        |(ky, i, at), o| {
            o.nt_if(*at);
            let mut q = ky.clone();
            q.depth = if *at { 255 } else { 254 };
            derive_prv(&k::xprv(&q)?, &q.r(), *i)
        },
    );
}

pub fn p07(r: &mut Run) {
    r.sub(
        "rare",
        "indices from a table for which the tweak or the child point or fingerprint of one parent begins or ends with a long run of zero or one bits, and children of such children: against the reference; non-trivial = all",
        400,
        4_000,
        || (prop_oneof![crate::rare::pick("child"), crate::rare::pick("pubchild")], idx().prop_map(|i| i & 0x7fff_ffff)),
        |(i, j), o| {
            o.nt();
            let p = crate::rare::parent();
            let x = k::xpub_r(&p.neuter())?;
            derive_pub(&x, &p.neuter(), *i)?;
            let c = p.child(*i).map_err(|e| format!("reference: {:?}", e))?.neuter();
            let y = x.derive_child((*i).into()).map_err(|e| format!("child refused: {}", e))?;
            same!(y.fingerprint(), rb::fingerprint(&c.key), "fingerprint");
            derive_pub(&y, &c, *j)
        },
    );
    r.sub(
        "commute",
        "extended private key x any index: neuter-then-derive = derive-then-neuter = reference; hardened refused with a child-number error, depth 255 with a depth error; non-trivial = non-hardened index (both routes run)",
        60_000,
        3_000_000,
        || (key(), prop_oneof![4 => idx().prop_map(|i| i & 0x7fff_ffff), 1 => idx()]),
        |(ky, i), o| {
            let hard = i >> 31 == 1;
            o.nt_if(!hard);
            o.label(if hard { "hardened" } else { "normal" });
            o.label_if(ky.depth == 255, "at depth limit");
            let x = k::xprv(ky)?;
            let rp = ky.r().neuter();
            let n = x.public_key();
            cmp_pub(&n, &rp, "public_key()")?;
            same!(n.fingerprint(), rb::fingerprint(&rp.key), "fingerprint()");
            derive_pub(&n, &rp, *i)?;
            if !hard && ky.depth < 255 {
                let a = x.derive_child((*i).into()).map_err(|e| format!("child refused: {}", e))?.public_key();
                let b = n.derive_child((*i).into()).map_err(|e| format!("public child refused: {}", e))?;
                same!(see_pub(&a), see_pub(&b), "N(CKDpriv) and CKDpub for index {}", i);
                ensure!(a == b, "N(CKDpriv) != CKDpub for index {}", i);
            }
            same!(see_prv(&x), ky.r(), "the private parent afterwards");
            Ok(())
        },
    );
    r.sub(
        "public_only",
        "extended public keys over arbitrary curve points (no private key known) x any index: against the reference; non-trivial = all",
        40_000,
        2_000_000,
        || (pkey(), idx()),
        |(p, i), o| {
            o.nt();
            o.label(if *i >> 31 == 1 { "hardened" } else { "normal" });
            derive_pub(&k::xpub(p)?, &p.r(), *i)
        },
    );
    r.sub(
        "related",
        "one index derived publicly from 2-4 keys that differ in a single field or bit, in turn: every child against the reference; non-trivial = at least one key differs",
        10_000,
        400_000,
        || (key(), proptest::collection::vec(mutation(), 1..4), idx().prop_map(|i| i & 0x7fff_ffff)),
        |(ky, ms, i), o| {
            let mut keys = vec![ky.clone()];
            for m in ms {
                keys.push(m.apply(keys.last().unwrap()));
            }
            o.nt_if(keys.iter().any(|x| x != ky));
            let mut first = None;
            for q in &keys {
                let rp = q.r().neuter();
                let x = k::xpub_r(&rp)?;
                derive_pub(&x, &rp, *i)?;
                first.get_or_insert((x, rp));
            }
            let (x, rp) = first.unwrap();
            derive_pub(&x, &rp, *i)
        },
    );
    r.sub(
        "paths",
        "non-hardened paths of 0-8 steps from a private key, possibly running over depth 255: private-then-neuter = neuter-then-public = reference or the depth error on both; with one hardened step inserted the public route gives the child-number error; non-trivial = path of at least two steps",
        6_000,
        250_000,
        || (key(), proptest::collection::vec(idx().prop_map(|i| i & 0x7fff_ffff), 0..9), proptest::option::weighted(0.4, (any::<u8>(), idx())), prop_oneof![2 => Just(None), 1 => (246u8..=255).prop_map(Some)]),
        |(ky, p, h, dep), o| {
            o.nt_if(p.len() > 1);
            let mut q = ky.clone();
            q.depth = dep.unwrap_or(q.depth.min(240));
            let q = q.fix();
            let x = k::xprv(&q)?;
            let want = q.r().neuter().path(p);
            let a = x.clone().derive_from_path(&k::path(p)).map(|y| see_pub(&y.public_key()));
            let b = x.public_key().derive_from_path(&k::path(p)).map(|y| see_pub(&y));
            match want {
                Ok(w) => {
                    same!(a, Ok(w.clone()), "private route along {:?}", p);
                    same!(b, Ok(w), "public route along {:?}", p);
                }
                Err(_) => {
                    o.label("over the depth limit");
                    same!(a, Err(Error::Depth), "private route along {:?} from depth {}", p, q.depth);
                    same!(b, Err(Error::Depth), "public route along {:?} from depth {}", p, q.depth);
                }
            }
            if let Some((at, i)) = h {
                let at = *at as usize % (p.len() + 1);
                if q.depth as usize + at < 255 {
                    o.label("with a hardened step");
                    let mut p2 = p.clone();
                    p2.insert(at, i | 1 << 31);
                    same!(x.public_key().derive_from_path(&k::path(&p2)).map(|y| see_pub(&y)), Err(Error::ChildNumber), "public route along {:?}", p2);
                }
            }
            Ok(())
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Start {
    Seed(B),
    Key(Key),
}
/// run the path one step at a time
fn steps_prv(x: XPrv, p: &[u32]) -> Result<XPrv, Error> {
    let mut x = x;
    for i in p {
        x = x.derive_child(ChildNumber(*i))?;
    }
    Ok(x)
}
fn steps_pub(x: XPub, p: &[u32]) -> Result<XPub, Error> {
    let mut x = x;
    for i in p {
        x = x.derive_child(ChildNumber(*i))?;
    }
    Ok(x)
}
fn route_prv(start: &Start, p: &[u32], cut: usize, o: &mut crate::engine::Obs) -> Out {
    let text = k::path_text(p);
    let dp = k::path(p);
    let parsed = DerivationPath::from_str(&text).map_err(|e| format!("path {} refused: {}", text, e))?;
    let root = match start {
        Start::Seed(s) => XPrv::new(&s.0).map_err(|e| format!("seed refused: {}", e))?,
        Start::Key(q) => k::xprv(q)?,
    };
    let rr = match start {
        Start::Seed(s) => rb::master(&s.0).ok_or("reference")?,
        Start::Key(q) => q.r(),
    };
    let want: Result<RPrv, Error> = match rr.path(p) {
        Ok(w) => Ok(w),
        Err(Fail::Depth) => {
            o.label("over the depth limit");
            Err(Error::Depth)
        }
        Err(_) => Err(Error::Crypto),
    };
    let see = |x: Result<XPrv, Error>| x.map(|y| see_prv(&y));
    let short = |p: &[u32]| if p.len() > 12 { format!("{} steps", p.len()) } else { format!("{:?}", p) };
    same!(see(root.clone().derive_from_path(&dp)), want, "derive_from_path along {}", short(p));
    same!(see(root.clone().derive_from_path(&parsed)), want, "derive_from_path along parsed {}", short(p));
    if let Start::Seed(s) = start {
        same!(see(XPrv::new_from_path(&s.0, &dp)), want, "new_from_path along {}", short(p));
        same!(see(XPrv::new_from_path(&s.0, &parsed)), want, "new_from_path along parsed {}", short(p));
    }
    same!(see(steps_prv(root.clone(), p)), want, "step by step along {}", short(p));
    let c = cut % (p.len() + 1);
    let (a, b) = (k::path(&p[..c]), k::path(&p[c..]));
    same!(see(root.clone().derive_from_path(&a).and_then(|x| x.derive_from_path(&b))), want, "split at {} along {}", c, short(p));
    if let Ok(w) = &want {
        same!(w.meta.depth as usize, rr.meta.depth as usize + p.len(), "depth");
    }
    same!(see_prv(&root), rr, "the start key afterwards");
    Ok(())
}
fn route_pub(start: &PKey, p: &[u32], cut: usize, o: &mut crate::engine::Obs) -> Out {
    let root = k::xpub(start)?;
    let rr = start.r();
    let want: Result<RPub, Vec<Error>> = match rr.path(p) {
        Ok(w) => Ok(w),
        Err(f) => {
            // the failing step
            let at = (0..p.len()).find(|n| rr.path(&p[..n + 1]).is_err()).unwrap_or(0);
            let both = p[at] >> 31 == 1 && rr.meta.depth as usize + at == 255;
            o.label(match f { Fail::Depth => "over the depth limit", Fail::Hardened => "hardened step", _ => "crypto" });
            Err(if both { vec![Error::ChildNumber, Error::Depth] } else if f == Fail::Hardened { vec![Error::ChildNumber] } else if f == Fail::Depth { vec![Error::Depth] } else { vec![Error::Crypto] })
        }
    };
    let ck = |x: Result<XPub, Error>, what: &str| -> Out {
        match (&want, x) {
            (Ok(w), Ok(y)) => {
                same!(see_pub(&y), *w, "public {} along {:?}", what, p);
                Ok(())
            }
            (Err(es), Err(e)) if es.contains(&e) => Ok(()),
            (w, x) => Err(format!("public {} along {:?} from depth {}: got {:?}, expected {:?}", what, p, rr.meta.depth, x.map(|y| see_pub(&y)), w)),
        }
    };
    ck(root.clone().derive_from_path(&k::path(p)), "derive_from_path")?;
    ck(steps_pub(root.clone(), p), "step by step")?;
    let c = cut % (p.len() + 1);
    ck(root.clone().derive_from_path(&k::path(&p[..c])).and_then(|x| x.derive_from_path(&k::path(&p[c..]))), "split path")
}

pub fn p08(r: &mut Run) {
    r.sub(
        "routes",
        "seed or arbitrary start key (any depth) x path of 0-12 steps x split point: all routes (from seed, from root, parsed path, split, step by step) against the reference fold, including where the path crosses depth 255; non-trivial = at least two steps",
        5_000,
        250_000,
        || (prop_oneof![1 => seed_ok().prop_map(Start::Seed), 1 => key_shallow().prop_map(Start::Key), 1 => (key(), 243u8..=255).prop_map(|(mut k, d)| { k.depth = d; Start::Key(k.fix()) })], path(12), any::<usize>()),
        |(s, p, c), o| {
            o.nt_if(p.len() > 1);
            route_prv(s, p, *c, o)
        },
    );
    r.sub(
        "long",
        "seed x path of up to 260 steps, biased to lengths around the depth limit and powers of two: all routes against the reference fold; non-trivial = more than 12 steps",
        120,
        6_000,
        || {
            (
                seed_ok().prop_map(Start::Seed),
                prop_oneof![3 => proptest::sample::select(vec![253usize, 254, 255, 256, 257, 260]), 2 => 13usize..261, 1 => size(260), 1 => proptest::sample::select(vec![16usize, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200])],
                proptest::collection::vec(idx(), 1..20),
                any::<usize>(),
            )
        },
        |(s, n, p, c), o| {
            o.nt_if(*n > 12);
            let p: Vec<u32> = (0..*n).map(|i| p[i % p.len()]).collect();
            route_prv(s, &p, *c, o)
        },
    );
    r.sub(
        "public",
        "arbitrary public start key (any depth) x path of 0-10 steps, hardened steps with low probability, x split point: all public routes against the reference fold with the failing step's error; non-trivial = at least two steps",
        5_000,
        250_000,
        || (pkey(), prop_oneof![Just(None), (243u8..=255).prop_map(Some), (0u8..5).prop_map(Some)], proptest::collection::vec(prop_oneof![12 => idx().prop_map(|i| i & 0x7fff_ffff), 1 => idx()], 0..=10), any::<usize>()),
        |(q, d, p, c), o| {
            o.nt_if(p.len() > 1);
            let mut q = q.clone();
            if let Some(d) = d {
                q.depth = *d;
            }
            if q.depth == 0 {
                q.fp = A([0; 4]);
                q.child = 0;
            }
            route_pub(&q, p, *c, o)
        },
    );
}

pub fn prefixes() -> [(Prefix, &'static str, u32); 8] {
    [
        (Prefix::XPRV, "xprv", 0x0488ade4),
        (Prefix::TPRV, "tprv", 0x04358394),
        (Prefix::YPRV, "yprv", 0x049d7878),
        (Prefix::ZPRV, "zprv", 0x04b2430c),
        (Prefix::XPUB, "xpub", 0x0488b21e),
        (Prefix::TPUB, "tpub", 0x043587cf),
        (Prefix::YPUB, "ypub", 0x049d7cb2),
        (Prefix::ZPUB, "zpub", 0x04b24746),
    ]
}
fn check_ek(ek: &ExtendedKey, pi: usize, m: &rb::Meta, key33: &[u8; 33], what: &str) -> Out {
    let (p, s, v) = prefixes()[pi];
    same!(ek.prefix, p, "{}: prefix", what);
    same!(ek.prefix.as_str(), s, "{}: prefix letters", what);
    same!(ek.prefix.version(), v, "{}: version", what);
    same!(k::meta(&ek.attrs), *m, "{}: attributes", what);
    same!(ek.key_bytes, *key33, "{}: key bytes", what);
    Ok(())
}
fn texts_of(ek: &ExtendedKey, want: &str, dirty: u8, what: &str) -> Out {
    same!(ek.to_string(), want, "{}: to_string", what);
    same!(format!("{}", ek), want, "{}: Display", what);
    for b in [0u8, dirty] {
        let mut buf = [b; ExtendedKey::MAX_BASE58_SIZE];
        match ek.write_base58(&mut buf) {
            Ok(s) => same!(s, want, "{}: write_base58 into a buffer of {:#x}", what, b),
            Err(e) => return Err(format!("{}: write_base58 failed: {}", what, e)),
        }
    }
    Ok(())
}
pub fn p09(r: &mut Run) {
    r.sub(
        "rare",
        "extended private keys from a table whose checksum begins or ends with a long run of zero or one bits: text against the reference and back; non-trivial = all",
        200,
        2_000,
        || crate::rare::pick("text").boxed(),
        |i, o| {
            o.nt();
            let q = RPrv { key: [1; 32], meta: crate::clash::meta_of(&crate::clash::value(*i)) };
            let x = k::xprv_r(&q)?;
            let t = q.text(0x0488ade4);
            same!(*x.to_string(Prefix::XPRV), t, "text");
            cmp_prv(&XPrv::from_str(&t).map_err(|e| format!("own text refused: {}", e))?, &q, "parsed")
        },
    );
    r.sub(
        "private",
        "extended private key built field by field x the four private prefixes: text through every route against reference Base58Check, parse back to an equal key with the same attributes and prefix; non-trivial = all",
        80_000,
        4_000_000,
        || (key(), 0usize..4, any::<u8>()),
        |(q, pi, dirty), o| {
            o.nt();
            o.label(prefixes()[*pi].1);
            let (pre, letters, ver) = prefixes()[*pi];
            let want = q.r().text(ver);
            ensure!(want.starts_with(letters), "reference text");
            let x = k::xprv(q)?;
            same!(x.to_string(pre).as_str(), want, "XPrv::to_string");
            let ek = x.to_extended_key(pre);
            check_ek(&ek, *pi, &q.r().meta, &q.r().key33(), "to_extended_key")?;
            texts_of(&ek, &want, *dirty, "ExtendedKey")?;
            let e2 = ExtendedKey::from_str(&want).map_err(|e| format!("own text refused: {} {}", e, want))?;
            check_ek(&e2, *pi, &q.r().meta, &q.r().key33(), "parsed ExtendedKey")?;
            texts_of(&e2, &want, *dirty, "parsed ExtendedKey")?;
            let y = XPrv::from_str(&want).map_err(|e| format!("own text refused: {} {}", e, want))?;
            cmp_prv(&y, &q.r(), "parsed key")?;
            ensure!(x == y, "parsed key is not equal to the original");
            let z = XPrv::try_from(e2).map_err(|e| format!("own record refused: {}", e))?;
            cmp_prv(&z, &q.r(), "key from record")?;
            same!(y.to_string(pre).as_str(), want, "text of the parsed key");
            let ek3 = ExtendedKey { prefix: pre, attrs: k::attrs(&q.r().meta), key_bytes: q.r().key33() };
            texts_of(&ek3.clone(), &want, *dirty, "cloned record")
        },
    );
    r.sub(
        "public",
        "extended public keys over arbitrary points x the four public prefixes: as above; non-trivial = all",
        80_000,
        4_000_000,
        || (pkey(), 4usize..8, any::<u8>()),
        |(q, pi, dirty), o| {
            o.nt();
            o.label(prefixes()[*pi].1);
            let mut q = q.clone();
            if q.depth == 0 {
                q.fp = A([0; 4]);
                q.child = 0;
            }
            let (pre, letters, ver) = prefixes()[*pi];
            let want = q.r().text(ver);
            ensure!(want.starts_with(letters), "reference text");
            let x = k::xpub(&q)?;
            same!(x.to_string(pre), want, "XPub::to_string");
            let ek = x.to_extended_key(pre);
            check_ek(&ek, *pi, &q.r().meta, &q.key.0, "to_extended_key")?;
            texts_of(&ek, &want, *dirty, "ExtendedKey")?;
            let e2 = ExtendedKey::from_str(&want).map_err(|e| format!("own text refused: {} {}", e, want))?;
            check_ek(&e2, *pi, &q.r().meta, &q.key.0, "parsed ExtendedKey")?;
            let y = XPub::from_str(&want).map_err(|e| format!("own text refused: {} {}", e, want))?;
            cmp_pub(&y, &q.r(), "parsed key")?;
            ensure!(x == y, "parsed key is not equal to the original");
            let z = XPub::try_from(e2).map_err(|e| format!("own record refused: {}", e))?;
            cmp_pub(&z, &q.r(), "key from record")?;
            same!(y.to_string(pre), want, "text of the parsed key");
            Ok(())
        },
    );
    r.sub(
        "related",
        "several keys differing in one field or bit serialised and parsed in turn, with changing prefixes, on one thread: each text and each parsed key against the reference; non-trivial = at least two different keys",
        12_000,
        600_000,
        || (key(), proptest::collection::vec((mutation(), 0usize..4), 1..5)),
        |(q, ms), o| {
            let mut cur = q.clone();
            for (m, pi) in ms {
                let nx = m.apply(&cur);
                o.nt_if(nx != cur);
                cur = nx;
                let (pre, _, ver) = prefixes()[*pi];
                let (ppre, _, pver) = prefixes()[*pi + 4];
                let x = k::xprv(&cur)?;
                let t = cur.r().text(ver);
                same!(x.to_string(pre).as_str(), t, "XPrv::to_string");
                let n = cur.r().neuter();
                let u = n.text(pver);
                same!(x.public_key().to_string(ppre), u, "XPub::to_string");
                cmp_prv(&XPrv::from_str(&t).map_err(|e| format!("own text refused: {}", e))?, &cur.r(), "parsed key")?;
                cmp_pub(&XPub::from_str(&u).map_err(|e| format!("own text refused: {}", e))?, &n, "parsed public key")?;
            }
            Ok(())
        },
    );
}

/// Everything P10 demands of one text.
pub fn parse_verdict(t: &str, o: &mut crate::engine::Obs) -> Out {
    let want = rb::parse(t);
    o.label(match &want { None => "must be refused", Some(Parsed::Prv(..)) => "private", Some(Parsed::Pub(..)) => "public" });
    let std = |v: u32| prefixes().iter().any(|p| p.2 == v);
    let ek = ExtendedKey::from_str(t);
    match (&want, XPrv::from_str(t)) {
        (Some(Parsed::Prv(_, w)), Ok(x)) => {
            cmp_prv(&x, w, "parsed private key")?;
            match &ek {
                Ok(e) => same!(x.to_string(e.prefix).as_str(), t, "re-serialised text"),
                Err(e) => return Err(format!("text accepted as XPrv but refused as ExtendedKey ({}): {:?}", e, t)),
            }
        }
        (Some(Parsed::Prv(v, _)), Err(e)) => ensure!(!std(*v), "valid extended private key refused ({}): {:?}", e, t),
        (_, Ok(x)) => return Err(format!("accepted as a private key ({:?}) although not a well-formed one: {:?}", see_prv(&x), t)),
        (_, Err(_)) => {}
    }
    match (&want, XPub::from_str(t)) {
        (Some(Parsed::Pub(_, w)), Ok(x)) => {
            cmp_pub(&x, w, "parsed public key")?;
            match &ek {
                Ok(e) => same!(x.to_string(e.prefix), t, "re-serialised text"),
                Err(e) => return Err(format!("text accepted as XPub but refused as ExtendedKey ({}): {:?}", e, t)),
            }
        }
        (Some(Parsed::Pub(v, _)), Err(e)) => ensure!(!std(*v), "valid extended public key refused ({}): {:?}", e, t),
        (_, Ok(x)) => return Err(format!("accepted as a public key ({:?}) although not a well-formed one: {:?}", see_pub(&x), t)),
        (_, Err(_)) => {}
    }
    // the untyped record: at least a genuine Base58Check payload of 78 bytes, kept verbatim
    if let Ok(e) = &ek {
        let p = base58::check_decode(t).ok_or_else(|| format!("accepted as ExtendedKey without a valid Base58 checksum: {:?}", t))?;
        same!(p.len(), 78, "payload size of accepted ExtendedKey {:?}", t);
        same!(&rb::payload(e.prefix.version(), &k::meta(&e.attrs), &e.key_bytes)[..], &p[..], "fields of accepted ExtendedKey {:?}", t);
        same!(e.to_string(), t, "re-serialised ExtendedKey");
        same!(e.prefix.as_str(), &t[..4], "prefix of accepted ExtendedKey");
    }
    Ok(())
}
pub const MORE_VERSIONS: [u32; 14] = [
    0x0295b005, 0x0295b43f, 0x02aa7a99, 0x02aa7ed3, 0x044a4e28, 0x044a5262, 0x045f18bc, 0x045f1cf6, 0x024285b5, 0x024289ef, 0x02575048, 0x02575483, 0x019d9cfe, 0x019da462,
];
fn version() -> BoxedStrategy<u32> {
    prop_oneof![
        8 => (0usize..8).prop_map(|i| prefixes()[i].2),
        2 => proptest::sample::select(MORE_VERSIONS.to_vec()),
        2 => (0usize..8, -2000i64..2000).prop_map(|(i, d)| (prefixes()[i].2 as i64 + d) as u32),
        2 => (0usize..8, 0u32..32).prop_map(|(i, b)| prefixes()[i].2 ^ 1 << b),
        1 => any::<u32>(),
    ].boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pay {
    version: u32,
    q: Key,
    /// fp/child kept although depth is 0
    raw_root: bool,
    key33: A<33>,
    /// how to change the payload or the checksum
    tweak: Tweak,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tweak {
    None,
    Len(u8),
    Sum(u8, u8),
    SumBytes(u8),
    SingleSha,
    NoSum,
}
pub fn key33() -> BoxedStrategy<A<33>> {
    let tag = || prop_oneof![3 => Just(0u8), 3 => Just(2), 3 => Just(3), 1 => Just(4), 1 => 5u8..8, 1 => Just(1), 1 => any::<u8>()];
    prop_oneof![
        4 => (tag(), b32()).prop_map(|(t, x)| { let mut k = [t; 33]; k[1..].copy_from_slice(&x.0); A(k) }),
        2 => point(),
        2 => scalar().prop_map(|x| { let mut k = [0; 33]; k[1..].copy_from_slice(&x.0); A(k) }),
        1 => (point(), tag()).prop_map(|(mut p, t)| { p.0[0] = t; p }),
        2 => (prop_oneof![Just([0u8; 32]), Just(secp::to_be(&secp::N)), Just([0xff; 32]), Just(secp::to_be(&secp::P))], tag()).prop_map(|(x, t)| { let mut k = [t; 33]; k[1..].copy_from_slice(&x); A(k) }),
    ].boxed()
}
impl Pay {
    pub fn text(&self) -> String {
        let mut m = self.q.r().meta;
        if self.raw_root {
            m.depth = 0;
        } else if m.depth == 0 {
            m.fp = [0; 4];
            m.child = 0;
        }
        let mut p = rb::payload(self.version, &m, &self.key33.0).to_vec();
        if let Tweak::Len(n) = self.tweak {
            p.resize(n as usize, 0x55);
        }
        let mut sum = sha256(&sha256(&p))[..4].to_vec();
        match self.tweak {
            Tweak::Sum(i, x) => sum[i as usize % 4] ^= x,
            Tweak::SumBytes(m) => sum.iter_mut().enumerate().for_each(|(i, b)| if m >> i & 1 == 1 { *b = !*b }),
            Tweak::SingleSha => sum = sha256(&p)[..4].to_vec(),
            Tweak::NoSum => sum.clear(),
            _ => {}
        }
        p.extend(sum);
        base58::encode(&p)
    }
}
pub fn pay() -> BoxedStrategy<Pay> {
    (
        version(),
        key(),
        prop_oneof![4 => Just(false), 1 => Just(true)],
        fp(),
        idx(),
        key33(),
        prop_oneof![
            8 => Just(Tweak::None), 1 => prop_oneof![75u8..82, any::<u8>()].prop_map(Tweak::Len),
            3 => (0u8..4, prop_oneof![(0u8..8).prop_map(|b| 1 << b), 1u8..=255]).prop_map(|(i, x)| Tweak::Sum(i, x)),
            1 => (0u8..16).prop_map(Tweak::SumBytes), 1 => Just(Tweak::SingleSha), 1 => Just(Tweak::NoSum),
        ],
    )
        .prop_map(|(version, mut q, raw_root, f, i, key33, tweak)| {
            if raw_root && q.depth == 0 {
                q.fp = f;
                q.child = i;
            }
            Pay { version, q, raw_root, key33, tweak }
        })
        .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CharEdit {
    Sub(u8, u8),
    SubAny(u8, char),
    Del(u8),
    Ins(u8, u8),
    Swap(u8, u8),
    Trunc(u8),
    Append(String),
    Prepend(String),
    Case(u8),
    Dup,
    Prefix(u8),
}
pub fn char_edit() -> BoxedStrategy<CharEdit> {
    let pos = || prop_oneof![5 => any::<u8>(), 1 => 0u8..5, 1 => 105u8..112];
    prop_oneof![
        5 => (pos(), any::<u8>()).prop_map(|(a, b)| CharEdit::Sub(a, b)),
        2 => (pos(), prop_oneof![proptest::sample::select(vec!['0', 'O', 'I', 'l', ' ', '+', '/', '\0', 'é', 'ｘ', '😀', '-', '_']), uchar()]).prop_map(|(a, b)| CharEdit::SubAny(a, b)),
        2 => pos().prop_map(CharEdit::Del),
        2 => (pos(), any::<u8>()).prop_map(|(a, b)| CharEdit::Ins(a, b)),
        2 => (pos(), pos()).prop_map(|(a, b)| CharEdit::Swap(a, b)),
        1 => pos().prop_map(CharEdit::Trunc),
        1 => prop_oneof![Just("\n".to_string()), Just(" ".into()), Just("\0".into()), Just("1".into()), ustring(3), "[1-9A-HJ-NP-Za-km-z]{1,4}"].prop_map(CharEdit::Append),
        1 => prop_oneof![Just("\n".to_string()), Just(" ".into()), Just("1".into()), Just("\u{feff}".into()), ustring(3)].prop_map(CharEdit::Prepend),
        2 => pos().prop_map(CharEdit::Case),
        1 => Just(CharEdit::Dup),
        1 => (0u8..8).prop_map(CharEdit::Prefix),
    ].boxed()
}
pub fn char_edits(t: &str, ed: &[CharEdit]) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for e in ed {
        let n = c.len();
        if n == 0 {
            break;
        }
        let at = |i: &u8| *i as usize % n;
        match e {
            CharEdit::Sub(i, x) => c[at(i)] = base58::ALPHABET[*x as usize % 58] as char,
            CharEdit::SubAny(i, x) => c[at(i)] = *x,
            CharEdit::Del(i) => {
                c.remove(at(i));
            }
            CharEdit::Ins(i, x) => c.insert(at(i), base58::ALPHABET[*x as usize % 58] as char),
            CharEdit::Swap(i, j) => c.swap(at(i), at(j)),
            CharEdit::Trunc(i) => c.truncate(at(i)),
            CharEdit::Append(s) => c.extend(s.chars()),
            CharEdit::Prepend(s) => c = s.chars().chain(c).collect(),
            CharEdit::Case(i) => {
                let i = at(i);
                c[i] = if c[i].is_ascii_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() }
            }
            CharEdit::Dup => c.extend(c.clone()),
            CharEdit::Prefix(p) => {
                for (i, x) in prefixes()[*p as usize % 8].1.chars().enumerate() {
                    if i < c.len() {
                        c[i] = x
                    }
                }
            }
        }
    }
    c.into_iter().collect()
}
pub fn p10(r: &mut Run) {
    r.sub(
        "payloads",
        "78-byte payloads with correct checksum whose version, key tag, scalar, point, or depth-0 fields are valid or broken one way or another, plus payloads of other lengths and checksums off by a bit, a byte or a method: accepted as a private/public key only if the reference predicate holds, with the same fields and identical re-serialisation; non-trivial = all",
        250_000,
        12_000_000,
        pay,
        |p, o| {
            o.nt();
            parse_verdict(&p.text(), o)
        },
    );
    r.sub(
        "damaged",
        "a valid text (private or public, any standard prefix) with 1-3 character edits (substitute, delete, insert, swap, truncate, append, prepend, case, foreign characters, changed prefix letters): verdict against the reference predicate; non-trivial = the text changed",
        120_000,
        6_000_000,
        || (key(), 0usize..8, proptest::collection::vec(char_edit(), 1..4)),
        |(q, pi, ed), o| {
            let v = prefixes()[*pi].2;
            let t = if *pi < 4 { q.r().text(v) } else { q.r().neuter().text(v) };
            let u = char_edits(&t, ed);
            o.nt_if(u != t);
            parse_verdict(&u, o)
        },
    );
    r.sub(
        "each_position",
        "a valid text with every single character replaced in turn (111 positions per case): all refused; non-trivial = all",
        400,
        30_000,
        || (key(), 0usize..8, any::<u8>()),
        |(q, pi, x), o| {
            o.nt();
            o.extra = 110;
            let v = prefixes()[*pi].2;
            let t = if *pi < 4 { q.r().text(v) } else { q.r().neuter().text(v) };
            let mut ob = crate::engine::Obs::default();
            for i in 0..t.len() {
                let mut b = t.clone().into_bytes();
                let old = base58::ALPHABET.iter().position(|c| *c == b[i]).unwrap_or(0);
                b[i] = base58::ALPHABET[(old + 1 + *x as usize % 57) % 58];
                parse_verdict(&String::from_utf8(b).unwrap(), &mut ob)?;
            }
            Ok(())
        },
    );
    r.sub(
        "free_text",
        "arbitrary Unicode and Base58-alphabet strings of 0-130 characters, and random bytes Base58Check-encoded: verdict against the reference predicate; non-trivial = non-empty",
        60_000,
        3_000_000,
        || prop_oneof![2 => ustring(12), 3 => "[1-9A-HJ-NP-Za-km-z]{0,130}", 1 => "[xyztuvXYZ]p(rv|ub)[1-9A-HJ-NP-Za-km-z]{100,110}", 1 => proptest::collection::vec(any::<u8>(), 0..100).prop_map(|v| base58::check_encode(&v)), 1 => "[0-9A-Za-z\u{80}-\u{2ff}]{0,6}", 1 => size(140).prop_map(|n| "1".repeat(n))],
        |t, o| {
            o.nt_if(!t.is_empty());
            parse_verdict(t, o)
        },
    );
    r.sub(
        "long_text",
        "a valid text with up to 2^14 characters before, after or inside it, and the long text alone: refused (a 78-byte payload has at most 112 characters); non-trivial = more than 112 characters",
        3_000,
        100_000,
        || (key(), 0usize..8, long_size(1 << 14), proptest::sample::select(vec!['1', 'z', 'x', ' ', '0', 'A', '\u{3042}', '\0', '\n']), any::<u8>()),
        |(kk, i, n, c, at), o| {
            let (p, _, v) = prefixes()[*i];
            let good = if p.is_private() { kk.r().text(v) } else { kk.r().neuter().text(v) };
            let mut t: Vec<char> = good.chars().collect();
            let at = match at % 4 { 0 => 0, 1 | 2 => t.len(), _ => *at as usize % t.len() };
            t.splice(at..at, std::iter::repeat(*c).take(*n));
            let t: String = t.into_iter().collect();
            if t.chars().count() <= 112 {
                return parse_verdict(&t, o);
            }
            o.nt();
            ensure!(XPrv::from_str(&t).is_err(), "text of {} characters accepted as a private key", t.len());
            ensure!(XPub::from_str(&t).is_err(), "text of {} characters accepted as a public key", t.len());
            ensure!(ExtendedKey::from_str(&t).is_err(), "text of {} characters accepted as a key", t.len());
            Ok(())
        },
    );
    r.sub(
        "records",
        "ExtendedKey records with arbitrary field values and matching or mismatching prefix letters converted to key types: accepted exactly when kind and key bytes are valid; non-trivial = all",
        80_000,
        4_000_000,
        || (key(), key33(), prop_oneof![3 => (0usize..8).prop_map(|i| (prefixes()[i].1.to_string(), prefixes()[i].2)), 1 => ("[A-Za-z]p(rv|ub)", any::<u32>()), 1 => ("[A-Za-z]{4}", any::<u32>())]),
        |(q, k33, (letters, ver)), o| {
            o.nt();
            let mk = || ExtendedKey { prefix: Prefix::from_parts_unchecked(letters, *ver), attrs: k::attrs(&q.r().meta), key_bytes: k33.0 };
            let kind = &letters[1..];
            let prv_ok = kind == "prv" && k33.0[0] == 0 && secp::valid_scalar(k33.0[1..].try_into().unwrap()).is_some();
            let pub_ok = kind == "pub" && secp::decompress(&k33.0).is_some();
            o.label(if prv_ok { "valid private" } else if pub_ok { "valid public" } else { "invalid" });
            match XPrv::try_from(mk()) {
                Ok(x) => {
                    ensure!(prv_ok, "record {} {} accepted as a private key", letters, hex(&k33.0));
                    cmp_prv(&x, &RPrv { key: k33.0[1..].try_into().unwrap(), meta: q.r().meta }, "key from record")?;
                }
                Err(e) => ensure!(!prv_ok, "valid private record refused: {}", e),
            }
            match XPub::try_from(mk()) {
                Ok(x) => {
                    ensure!(pub_ok, "record {} {} accepted as a public key", letters, hex(&k33.0));
                    cmp_pub(&x, &RPub { key: k33.0, meta: q.r().meta }, "key from record")?;
                }
                Err(e) => ensure!(!pub_ok, "valid public record refused: {}", e),
            }
            Ok(())
        },
    );
}

/// the same key by another route
fn via(x: &XPrv, q: &Key, route: u8) -> Result<XPrv, String> {
    Ok(match route % 4 {
        0 => x.clone(),
        1 => XPrv::from_str(&q.r().text(prefixes()[route as usize / 4 % 4].2)).map_err(|e| format!("own text refused: {}", e))?,
        2 => XPrv::from_str(&x.to_string(Prefix::XPRV)).map_err(|e| format!("own text refused: {}", e))?,
        _ => k::xprv(q)?,
    })
}
/// a key type whose public key tells little of the private one (MODE: nothing, either half, all but the last bit)
#[derive(Clone)]
struct LKey<const MODE: u8>([u8; 32]);
#[derive(Clone, PartialEq)]
struct LPub([u8; 33]);
impl<const MODE: u8> kms::bip32::PrivateKey for LKey<MODE> {
    type PublicKey = LPub;
    fn from_bytes(b: &[u8; 32]) -> Result<Self, Error> {
        Ok(LKey(*b))
    }
    fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    fn derive_child(&self, t: [u8; 32]) -> Result<Self, Error> {
        Ok(LKey(t))
    }
    fn public_key(&self) -> LPub {
        let mut p = [2; 33];
        match MODE {
            1 => p[1..17].copy_from_slice(&self.0[..16]),
            2 => p[1..17].copy_from_slice(&self.0[16..]),
            3 => {
                p[1..].copy_from_slice(&self.0);
                p[32] |= 1
            }
            _ => {}
        }
        LPub(p)
    }
}
impl kms::bip32::PublicKey for LPub {
    fn from_bytes(b: [u8; 33]) -> Result<Self, Error> {
        Ok(LPub(b))
    }
    fn to_bytes(&self) -> [u8; 33] {
        self.0
    }
    fn derive_child(&self, _: [u8; 32]) -> Result<Self, Error> {
        Err(Error::Crypto)
    }
}
fn lossy<const MODE: u8>(q: &Key, p: &Key) -> Out {
    type X<const M: u8> = kms::bip32::ExtendedPrivateKey<LKey<M>>;
    let mk = |q: &Key| -> Result<X<MODE>, String> {
        let mut b = [0; 33];
        b[1..].copy_from_slice(&q.key.0);
        X::try_from(ExtendedKey { prefix: Prefix::XPRV, attrs: k::attrs(&q.r().meta), key_bytes: b }).map_err(|e| format!("key of a harness type refused: {:?}", e))
    };
    let (a, b) = (mk(q)?, mk(p)?);
    let want = q.key == p.key && q.r().meta == p.r().meta;
    for (x, y) in [(&a, &b), (&b, &a)] {
        same!(x == y, want, "== over key type {}", MODE);
        same!(x != y, !want, "!= over key type {}", MODE);
        same!(bool::from(x.ct_eq(y)), want, "ct_eq over key type {}", MODE);
    }
    let (u, v) = (a.public_key(), b.public_key());
    let want = kms::bip32::PublicKey::to_bytes(u.public_key()) == kms::bip32::PublicKey::to_bytes(v.public_key()) && q.r().meta == p.r().meta;
    same!(u == v, want, "== of public keys over key type {}", MODE);
    same!(u != v, !want, "!= of public keys over key type {}", MODE);
    Ok(())
}
pub fn p11(r: &mut Run) {
    let eqs = |a: &XPrv, b: &XPrv, want: bool, what: &str| -> Out {
        for (x, y, d) in [(a, b, "a,b"), (b, a, "b,a")] {
            same!(x == y, want, "{}: == ({})", what, d);
            same!(x != y, !want, "{}: != ({})", what, d);
            same!(bool::from(x.ct_eq(y)), want, "{}: ct_eq ({})", what, d);
        }
        Ok(())
    };
    let eqp = |a: &XPub, b: &XPub, want: bool, what: &str| -> Out {
        for (x, y) in [(a, b), (b, a)] {
            same!(x == y, want, "{}: == of public keys", what);
            same!(x != y, !want, "{}: != of public keys", what);
        }
        Ok(())
    };
    r.sub(
        "pairs",
        "pairs of extended private keys differing by 0-2 single-field mutations (one bit, negated key, new value), each built directly, cloned or parsed: ==, != and ct_eq both ways, for the keys, their public keys and their attributes, agree with field-wise equality; non-trivial = the keys differ",
        80_000,
        4_000_000,
        || (key(), proptest::collection::vec(mutation(), 0..3), any::<[u8; 2]>()),
        move |(q, ms, rt), o| {
            let p = ms.iter().fold(q.clone(), |x, m| m.apply(&x));
            o.nt_if(p != *q);
            let (a, b) = (k::xprv(q)?, k::xprv(&p)?);
            let (a, b) = (via(&a, q, rt[0])?, via(&b, &p, rt[1])?);
            o.label_if(p.key != q.key && Key { key: q.key, ..p.clone() } == *q, "differ in the private key only");
            o.label_if(p == *q, "equal");
            eqs(&a, &b, p == *q, "private keys")?;
            let (ra, rb_) = (q.r().neuter(), p.r().neuter());
            eqp(&a.public_key(), &b.public_key(), ra == rb_, "neutered keys")?;
            same!(a.attrs() == b.attrs(), q.r().meta == p.r().meta, "attributes");
            same!(a.attrs() != b.attrs(), q.r().meta != p.r().meta, "attributes");
            eqs(&a, &a.clone(), true, "a key and its clone")
        },
    );
    r.sub(
        "public_pairs",
        "pairs of extended public keys over arbitrary points differing in parity, point or one attribute, built directly or parsed; non-trivial = the keys differ",
        60_000,
        3_000_000,
        || (pkey(), mutation(), prop_oneof![2 => Just(0u8), 1 => Just(1), 1 => Just(2)], point(), any::<bool>()),
        move |(q, m, pt, other, parsed), o| {
            let mut q = q.clone();
            let dummy = Key { key: A([1; 32]), chain: q.chain, depth: q.depth, fp: q.fp, child: q.child }.fix();
            q.fp = dummy.fp;
            q.child = dummy.child;
            let mm = m.apply(&dummy);
            let mut p = PKey { key: q.key, chain: mm.chain, depth: mm.depth, fp: mm.fp, child: mm.child };
            match pt {
                1 => p.key.0[0] ^= 1,
                2 => p.key = *other,
                _ => {}
            }
            o.nt_if(p != q);
            o.label_if(*pt == 1, "other parity");
            let a = k::xpub(&q)?;
            let b = if *parsed { XPub::from_str(&p.r().text(0x0488b21e)).map_err(|e| format!("own text refused: {}", e))? } else { k::xpub(&p)? };
            eqp(&a, &b, p == q, "public keys")?;
            eqp(&a, &a.clone(), true, "a key and its clone")
        },
    );
    r.sub(
        "any_key_type",
        "pairs as in the first, over key types of the harness whose public keys are shared by many private ones (none of the key, half of it, all but one bit), by ==, != and ct_eq: equal exactly when bytes and attributes are; non-trivial = the keys differ",
        20_000,
        1_000_000,
        || (key(), proptest::collection::vec(mutation(), 0..3), b32(), 0u8..4),
        |(q, ms, other, how), o| {
            let mut p = ms.iter().fold(q.clone(), |x, m| m.apply(&x));
            match how {
                1 => p.key.0[31] ^= 1,
                2 => p.key.0[..16].copy_from_slice(&other.0[..16]),
                3 => p.key.0[16..].copy_from_slice(&other.0[16..]),
                _ => {}
            }
            o.nt_if(p != *q);
            lossy::<0>(q, &p)?;
            lossy::<1>(q, &p)?;
            lossy::<2>(q, &p)?;
            lossy::<3>(q, &p)
        },
    );
    r.sub(
        "routes",
        "one key reached by derivation and by direct construction, and a sibling: equal to itself, different from the sibling, privately and publicly; non-trivial = all",
        8_000,
        400_000,
        || (key_shallow(), idx(), prop_oneof![2 => (0u32..32).prop_map(|b| 1 << b), 1 => 1u32..=u32::MAX], any::<u8>()),
        move |(q, i, d, rt), o| {
            o.nt();
            let x = k::xprv(q)?;
            let a = x.derive_child((*i).into()).map_err(|e| format!("child refused: {}", e))?;
            let w = Key::from_r(&q.r().child(*i).map_err(|e| format!("{:?}", e))?);
            let b = via(&k::xprv(&w)?, &w, *rt)?;
            eqs(&a, &b, true, "derived and built key")?;
            eqp(&a.public_key(), &b.public_key(), true, "derived and built key")?;
            let c = x.derive_child((i ^ d).into()).map_err(|e| format!("child refused: {}", e))?;
            eqs(&a, &c, false, "siblings")?;
            eqp(&a.public_key(), &c.public_key(), false, "siblings")?;
            eqs(&a, &x, false, "child and parent")
        },
    );
}

/// an iterator that announces what it likes about its length, within the rules
struct Hint<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}
/// extend by the same numbers from an iterator of one kind or another
fn extend_via(d: &mut DerivationPath, v: &[u32], how: usize) {
    let it = v.iter().map(|i| ChildNumber(*i));
    let n = v.len();
    match how % 9 {
        0 => d.extend(it),
        1 => d.extend(it.filter(|_| true)),
        2 => {
            let mut it = it;
            d.extend(std::iter::from_fn(move || it.next()))
        }
        3 => d.extend(Hint(it, (0, None))),
        4 => d.extend(Hint(it, (0, Some(usize::MAX)))),
        5 => d.extend(Hint(it, (n / 2, Some(2 * n + 7)))),
        6 => d.extend(v[..n / 2].iter().chain(&v[n / 2..]).map(|i| ChildNumber(*i))),
        7 => d.extend(it.collect::<Vec<_>>()),
        _ => {
            for i in it {
                d.extend(Some(i));
                d.extend(None);
            }
        }
    }
}
/// What a child-number text must do.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Tv {
    Must(u32),
    /// decimal with leading zeros or a plus sign: may be refused, but if taken then as this value
    May(u32),
    Never,
}
fn child_text(t: &str) -> Tv {
    let (d, h) = match t.strip_suffix('\'') {
        Some(d) => (d, 1u32 << 31),
        None => (t, 0),
    };
    let (d2, plus) = match d.strip_prefix('+') {
        Some(x) => (x, true),
        None => (d, false),
    };
    if d2.is_empty() || !d2.bytes().all(|b| b.is_ascii_digit()) {
        return Tv::Never;
    }
    let s = d2.trim_start_matches('0');
    let v = if s.is_empty() { 0 } else if s.len() > 10 { u64::MAX } else { s.parse::<u64>().unwrap() };
    if v >= 1 << 31 {
        return Tv::Never;
    }
    if plus || (d2.len() > 1 && d2.starts_with('0')) {
        return Tv::May(v as u32 | h);
    }
    Tv::Must(v as u32 | h)
}
pub fn child_tok() -> BoxedStrategy<String> {
    let num = || prop_oneof![4 => idx().prop_map(|i| (i & 0x7fff_ffff).to_string()), 1 => (0u64..20).prop_map(|d| ((1u64 << 31) - 10 + d).to_string()), 1 => (0u64..20).prop_map(|d| ((1u64 << 32) - 10 + d).to_string()), 1 => (0u64..20).prop_map(|d| (u64::MAX - d).to_string()), 1 => any::<u64>().prop_map(|d| d.to_string()), 1 => "[0-9]{1,25}", 1 => int().prop_map(|d| d.to_string())];
    prop_oneof![
        5 => (num(), any::<bool>()).prop_map(|(n, h)| n + if h { "'" } else { "" }),
        2 => (num(), proptest::sample::select(vec!["h", "H", "''", "'h", "\u{2019}", "\u{2032}", "`", "\"", " ", "' ", "_", ".0", "e0", "u32", "/", "-", "+", "*", "\0", "p"])).prop_map(|(n, s)| n + s),
        2 => (proptest::sample::select(vec!["-", "+", " ", "0", "00", "0x", "'", "m", "\u{a0}", "\u{200e}", "--", "++", "+-", "\u{ff10}", "\u{661}", "1_", "0o", "0b"]), num()).prop_map(|(s, n)| s.to_string() + &n),
        1 => proptest::sample::select(vec!["", "'", "m", "M", "*", "-0", "+0", "+", "+'", "-", "x", "0'", "\u{ff11}", "\u{0663}", "''"]).prop_map(String::from),
        1 => ustring(4),
    ].boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PathOp {
    Push(u32),
    Extend(Vec<u32>),
    ExtendSelf,
    Parent,
    Reparse,
    CloneAnd(u32),
    Collect,
    Fresh,
}
fn check_path(d: &DerivationPath, m: &[u32], what: &str) -> Out {
    same!(d.len(), m.len(), "{}: len", what);
    same!(d.is_empty(), m.is_empty(), "{}: is_empty", what);
    same!(d.iter().map(|c| c.0).collect::<Vec<_>>(), m, "{}: iter", what);
    same!(d.as_ref().iter().map(|c| c.0).collect::<Vec<_>>(), m, "{}: as_ref", what);
    let t = k::path_text(m);
    same!(d.to_string(), t, "{}: Display", what);
    match DerivationPath::from_str(&t) {
        Ok(p) => {
            ensure!(p == *d, "{}: reparsed path differs: {:?}", what, p);
            same!(p.iter().map(|c| c.0).collect::<Vec<_>>(), m, "{}: reparsed steps", what);
        }
        Err(e) => return Err(format!("{}: own text {} refused: {}", what, t, e)),
    }
    match d.parent() {
        None => ensure!(m.is_empty(), "{}: no parent", what),
        Some(p) => {
            ensure!(!m.is_empty(), "{}: the root has a parent", what);
            same!(p.iter().map(|c| c.0).collect::<Vec<_>>(), &m[..m.len() - 1], "{}: parent", what);
        }
    }
    Ok(())
}
fn check_cn(v: u32) -> Out {
    let c = ChildNumber(v);
    let (i, h) = (v & 0x7fff_ffff, v >> 31 == 1);
    same!(c.index(), i, "index of {:#x}", v);
    same!(c.is_hardened(), h, "is_hardened of {:#x}", v);
    same!(c.to_bytes(), v.to_be_bytes(), "to_bytes of {:#x}", v);
    same!(ChildNumber::from_bytes(v.to_be_bytes()), c, "from_bytes of {:#x}", v);
    same!(ChildNumber::from(v), c, "from {:#x}", v);
    same!(u32::from(c), v, "into u32 of {:#x}", v);
    same!(ChildNumber::new(i, h), Ok(c), "new({}, {})", i, h);
    same!(ChildNumber::new(i | 1 << 31, h), Err(Error::ChildNumber), "new({}, {})", i | 1 << 31, h);
    let t = if h { format!("{}'", i) } else { i.to_string() };
    same!(c.to_string(), t, "Display of {:#x}", v);
    same!(ChildNumber::from_str(&t), Ok(c), "parse of {:?}", t);
    Ok(())
}
pub fn p12(r: &mut Run) {
    let all = r.tier == Tier::Thorough;
    if all {
        r.custom("child_numbers", "all 2^32 child numbers: index, flag, bytes, integers, constructor, text both ways (exhaustive); non-trivial = all", |_, rep| {
            if let Some(v) = rep {
                let v = v.as_u64().unwrap_or(0) as u32;
                return Ok(match check_cn(v) { Ok(()) => Ok((1, 1, vec![], serde_json::json!({}))), Err(m) => Err((v.into(), m)) });
            }
            let bad = std::sync::Mutex::new(None);
            std::thread::scope(|s| {
                for w in 0..8u64 {
                    let bad = &bad;
                    s.spawn(move || {
                        for v in (w << 29)..((w + 1) << 29) {
                            if let Err(m) = check_cn(v as u32) {
                                *bad.lock().unwrap() = Some((serde_json::Value::from(v), m));
                            }
                            if v & 0xffff == 0 && bad.lock().unwrap().is_some() {
                                break;
                            }
                        }
                    });
                }
            });
            let b = bad.into_inner().unwrap();
            Ok(match b { Some(x) => Err(x), None => Ok((1 << 32, 1 << 32, vec![serde_json::json!(0x8000_0000u32)], serde_json::json!({"exhaustive": true}))) })
        });
    }
    r.sub(
        "child_blocks",
        "blocks of 1024 consecutive child numbers, starting at random or boundary values (0, 2^31, powers of two and ten, 2^32): every conversion both ways; non-trivial = all",
        5_000,
        20_000,
        || prop_oneof![4 => any::<u32>(), 1 => (0u32..32).prop_map(|b| (1u32 << b).wrapping_sub(512)), 1 => (0u32..10).prop_map(|b| 10u32.pow(b).wrapping_sub(512)), 1 => (0u32..10).prop_map(|b| 10u32.pow(b).wrapping_sub(512) | 1 << 31), 1 => Just(u32::MAX - 511)],
        |s, o| {
            o.nt();
            o.extra = 1023;
            for d in 0..1024 {
                check_cn(s.wrapping_add(d))?;
            }
            Ok(())
        },
    );
    r.sub(
        "child_text",
        "texts from a child-number grammar with sign, suffix, radix, overflow, Unicode-digit and quote variations, and free text: decimal below 2^31 with optional apostrophe accepted as that value, anything else refused; non-trivial = all distinct",
        150_000,
        6_000_000,
        child_tok,
        |t, o| {
            o.nt();
            let got = ChildNumber::from_str(t).map(|c| c.0).ok();
            let want = child_text(t);
            o.label(match want { Tv::Must(_) => "accept", Tv::May(_) => "optional", Tv::Never => "refuse" });
            ensure!(
                match want { Tv::Must(v) => got == Some(v), Tv::May(v) => got.is_none() || got == Some(v), Tv::Never => got.is_none() },
                "child number text {:?} gave {:?}, expected {:?}", t, got, want
            );
            Ok(())
        },
    );
    r.sub(
        "path_text",
        "path texts from step texts (valid, overflowing, malformed) joined and framed with variations (missing m, M, trailing slash, doubled slash, spaces): accepted exactly when well formed, with those steps; non-trivial = at least one step",
        150_000,
        6_000_000,
        || (prop_oneof![6 => Just("m".to_string()), 1 => proptest::sample::select(vec!["M", "", "m ", " m", "mm", "m'", "/m", "m/", "n", "\u{ff4d}", "0", ".", "m\0"]).prop_map(String::from), 1 => ustring(3)], prop_oneof![3 => proptest::collection::vec(idx().prop_map(|i| k::path_text(&[i])[2..].to_string()), 0..8), 2 => proptest::collection::vec(child_tok(), 0..5), 2 => (proptest::collection::vec(idx().prop_map(|i| k::path_text(&[i])[2..].to_string()), 0..8), child_tok(), any::<usize>()).prop_map(|(mut v, t, p)| { let p = p % (v.len() + 1); v.insert(p, t); v })], prop_oneof![6 => Just("/"), 1 => proptest::sample::select(vec!["//", "\\", " /", "/ ", ".", ",", "\u{2215}", "/./"])].prop_map(String::from), prop_oneof![6 => Just(""), 1 => proptest::sample::select(vec!["/", " ", "\n", "'", "//", "\0"])].prop_map(String::from)),
        |(head, steps, sep, tail), o| {
            o.nt_if(!steps.is_empty());
            let mut t = head.clone();
            for s in steps {
                t += sep;
                t += s;
            }
            t += tail;
            let mut parts = t.split('/');
            let mut want = Some(vec![]);
            let mut optional = false;
            if parts.next() != Some("m") {
                want = None;
            }
            for p in parts {
                match (child_text(p), &mut want) {
                    (Tv::Must(v), Some(w)) => w.push(v),
                    (Tv::May(v), Some(w)) => {
                        w.push(v);
                        optional = true
                    }
                    _ => want = None,
                }
            }
            o.label(if want.is_none() { "refuse" } else { "accept" });
            match (DerivationPath::from_str(&t), want) {
                (Ok(p), Some(w)) => check_path(&p, &w, "parsed path"),
                (Err(_), None) => Ok(()),
                (Err(e), Some(_)) => {
                    ensure!(optional, "path {:?} refused: {}", t, e);
                    Ok(())
                }
                (Ok(p), None) => Err(format!("malformed path {:?} accepted as {}", t, p)),
            }
        },
    );
    r.sub(
        "edits",
        "histories of path edits (push, extend, extend by itself, parent, reparse, clone, collect) against a Vec, all views and both text directions checked after every step; non-trivial = at least three operations",
        30_000,
        1_500_000,
        || proptest::collection::vec(prop_oneof![4 => idx().prop_map(PathOp::Push), 2 => proptest::collection::vec(idx(), 0..6).prop_map(PathOp::Extend), 1 => Just(PathOp::ExtendSelf), 3 => Just(PathOp::Parent), 1 => Just(PathOp::Reparse), 1 => idx().prop_map(PathOp::CloneAnd), 1 => Just(PathOp::Collect), 1 => Just(PathOp::Fresh)], 1..16),
        |ops, o| {
            o.nt_if(ops.len() >= 3);
            let mut d = DerivationPath::default();
            let mut m: Vec<u32> = vec![];
            check_path(&d, &m, "default path")?;
            for op in ops {
                match op {
                    PathOp::Push(i) => {
                        d.push(ChildNumber(*i));
                        m.push(*i)
                    }
                    PathOp::Extend(v) => {
                        extend_via(&mut d, v, m.len() + v.len());
                        m.extend(v)
                    }
                    PathOp::ExtendSelf if m.len() < 600 => {
                        let c = d.clone();
                        d.extend(c);
                        let mc = m.clone();
                        m.extend(mc)
                    }
                    PathOp::ExtendSelf => {}
                    PathOp::Parent => match d.parent() {
                        Some(p) => {
                            check_path(&d, &m, "path after taking its parent")?;
                            d = p;
                            ensure!(m.pop().is_some(), "the root has a parent");
                        }
                        None => ensure!(m.is_empty(), "no parent for {:?}", m),
                    },
                    PathOp::Reparse => d = DerivationPath::from_str(&d.to_string()).map_err(|e| format!("own text refused: {}", e))?,
                    PathOp::CloneAnd(i) => {
                        let mut c = d.clone();
                        c.push(ChildNumber(*i));
                        ensure!(c != d, "a longer path equals {:?}", m);
                        let mut mc = m.clone();
                        mc.push(*i);
                        check_path(&c, &mc, "pushed clone")?;
                    }
                    PathOp::Collect => {
                        let v: Vec<u32> = d.clone().into_iter().map(|c| c.0).collect();
                        same!(v, m, "into_iter");
                    }
                    PathOp::Fresh => {
                        d = DerivationPath::default();
                        m.clear()
                    }
                }
                check_path(&d, &m, &format!("after {:?}", op))?;
            }
            Ok(())
        },
    );
    r.sub(
        "long_paths",
        "paths of up to 2^17 steps (every order of magnitude, powers of two and ten): text both ways and the parent; non-trivial = more than 16 steps",
        1_500,
        60_000,
        || (prop_oneof![3 => size(2000), 2 => long_size(1 << 17)], proptest::collection::vec(idx(), 1..12)),
        |(n, p), o| {
            o.nt_if(*n > 16);
            let m: Vec<u32> = (0..*n).map(|i| p[i % p.len()].wrapping_add(i as u32)).collect();
            check_path(&k::path(&m), &m, "long path")
        },
    );
}

fn check_version(v: u32) -> Out {
    let mut pay = [0u8; 78];
    pay[..4].copy_from_slice(&v.to_be_bytes());
    let letters: String = base58::check_encode(&pay).chars().take(4).collect();
    let ok = letters.len() == 4 && letters.bytes().all(|b| b.is_ascii_alphabetic());
    let a = Prefix::try_from(v);
    let b = Prefix::from_bytes(v.to_be_bytes());
    let c = Prefix::try_from(&v.to_be_bytes()[..]);
    ensure!(a == b && b == c, "conversions of {:#010x} disagree: {:?} {:?} {:?}", v, a, b, c);
    match a {
        Ok(p) => {
            ensure!(ok, "version {:#010x} accepted as {:?}, but a key of that version starts with {:?}", v, p.as_str(), letters);
            check_prefix(&p, &letters, v)
        }
        Err(e) => {
            ensure!(!ok, "version {:#010x} ({}) refused: {}", v, letters, e);
            Ok(())
        }
    }
}
fn check_prefix(p: &Prefix, letters: &str, v: u32) -> Out {
    same!(p.as_str(), letters, "letters of {:#010x}", v);
    let r: &str = p.as_ref();
    same!(r, letters, "AsRef of {:#010x}", v);
    same!(p.to_string(), letters, "Display of {:#010x}", v);
    same!(p.version(), v, "version of {}", letters);
    same!(p.to_bytes(), v.to_be_bytes(), "bytes of {}", letters);
    same!(u32::from(*p), v, "u32::from {}", letters);
    same!(u32::from(p), v, "u32::from &{}", letters);
    same!(p.is_private(), &letters[1..] == "prv", "is_private of {}", letters);
    same!(p.is_public(), &letters[1..] == "pub", "is_public of {}", letters);
    Ok(())
}
pub fn p13(r: &mut Run) {
    r.sub(
        "version_blocks",
        "blocks of 256 consecutive version numbers starting anywhere, around the published versions, around byte boundaries and source literals: conversion outcome, letters, classification and all views against the reference Base58 encoding; non-trivial = all",
        12_000,
        1_200_000,
        || prop_oneof![8 => any::<u32>(), 2 => (0usize..8, -40_000i64..40_000).prop_map(|(i, d)| (prefixes()[i].2 as i64 + d) as u32), 1 => (0usize..14, -20_000i64..20_000).prop_map(|(i, d)| (MORE_VERSIONS[i] as i64 + d) as u32), 1 => (0u32..32).prop_map(|b| (1u32 << b).wrapping_sub(128)), 1 => int().prop_map(|v| (v as u32).wrapping_sub(128)), 3 => 0x0100_0000u32..0x0600_0000],
        |s, o| {
            o.nt();
            o.extra = 255;
            for d in 0..256 {
                check_version(s.wrapping_add(d))?;
            }
            Ok(())
        },
    );
    r.sub(
        "named_like",
        "versions solved for so that their letters are a chosen '?prv' or '?pub' (every letter that occurs), and neighbours: as above; non-trivial = all",
        6_000,
        200_000,
        || (proptest::sample::select(base58::ALPHABET.to_vec()), any::<bool>(), any::<u32>(), any::<[u8; 3]>()),
        |(c, prv, pos, rnd), o| {
            // the least/greatest payload starting with these letters: 111 base58 digits
            let rest = if *prv { b"prv" } else { b"pub" };
            let mut t = vec![*c];
            t.extend(rest);
            while t.len() < 111 {
                t.push(base58::ALPHABET[(rnd[t.len() % 3] as usize + t.len() * 7) % 58]);
            }
            match base58::decode(&String::from_utf8(t).unwrap()) {
                Some(d) if d.len() == 82 => {
                    o.nt();
                    let v = u32::from_be_bytes(d[..4].try_into().unwrap());
                    for k in -2i64..3 {
                        check_version((v as i64 + k) as u32)?;
                    }
                    check_version(v.wrapping_add(pos % 512))
                }
                _ => Ok(()),
            }
        },
    );
    r.sub(
        "slices",
        "byte slices of length 0-12, and sampled lengths up to 65536: converted exactly when 4 bytes long and the version converts; non-trivial = length other than 4",
        20_000,
        500_000,
        || prop_oneof![3 => proptest::collection::vec(any::<u8>(), 0..13), 1 => (0usize..8, long_size(1 << 16)).prop_map(|(i, n)| { let mut v = prefixes()[i].2.to_be_bytes().to_vec(); v.resize(n, 0x41); v }), 2 => ((0usize..8), proptest::collection::vec(any::<u8>(), 0..4)).prop_map(|(i, t)| { let mut v = prefixes()[i].2.to_be_bytes().to_vec(); v.extend(t); v }), 1 => ((0usize..8), 0usize..4).prop_map(|(i, n)| prefixes()[i].2.to_be_bytes()[..n].to_vec())].prop_map(B),
        |v, o| {
            o.nt_if(v.0.len() != 4);
            match Prefix::try_from(&v.0[..]) {
                Ok(p) => {
                    same!(v.0.len(), 4, "length of accepted slice {:?}", v.0);
                    same!(p.to_bytes(), v.0[..4], "bytes");
                    check_version(p.version())
                }
                Err(_) => {
                    if v.0.len() == 4 {
                        check_version(u32::from_be_bytes(v.0[..].try_into().unwrap()))?
                    }
                    Ok(())
                }
            }
        },
    );
    r.sub(
        "letters",
        "prefixes assembled from any four ASCII letters and any version, and the eight constants: views, classification by letters only, equality by both parts; non-trivial = all",
        30_000,
        1_000_000,
        || (prop_oneof!["[A-Za-z]{4}", "[A-Za-z](prv|pub|Prv|PUB|prb|puv|pvr|bup)", "(prv|pub)[A-Za-z]"], any::<u32>(), 0usize..8),
        |(s, v, i), o| {
            o.nt();
            let p = Prefix::from_parts_unchecked(s, *v);
            check_prefix(&p, s, *v)?;
            let (q, l, n) = prefixes()[*i];
            check_prefix(&q, l, n)?;
            same!(p == q, s == l && *v == n, "{} {:#x} == {}", s, v, l);
            same!(Prefix::try_from(n), Ok(q), "constant {}", l);
            Ok(())
        },
    );
}
