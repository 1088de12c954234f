//! Inputs whose results have a shape that chance practically never produces: derived keys, chain codes,
//! points, fingerprints, signatures, seeds and checksums that begin or end with a run of zero or one
//! bits. Searched for once (`kmsver rare-table`, inputs are numbered) and kept in rare.txt.
use crate::clash::{meta_of, value};
use crate::refs::bip32::{self, fingerprint, payload, RPrv};
use crate::refs::bip39::{self, Lang};
use crate::refs::{hash, secp};
use proptest::prelude::*;
use std::sync::OnceLock;

/// the parent of the numbered children
pub fn parent() -> RPrv {
    RPrv { key: value(0), meta: meta_of(&value(1)) }
}
/// number to seed of 16 or 64 bytes
pub fn seed16(i: u32) -> Vec<u8> {
    value(i)[..16].to_vec()
}
pub fn seed64(i: u32) -> Vec<u8> {
    [value(i), value(0)].concat()
}
fn w4(b: &[u8]) -> Vec<u8> {
    b[..4].to_vec()
}
type What = (&'static str, u32, fn(u32) -> Vec<Vec<u8>>);
/// name, how many inputs to try (log2), results of an input
const KINDS: [What; 9] = [
    ("master16", 26, |i| bip32::master(&seed16(i)).map(|m| vec![m.key.to_vec(), m.meta.chain.to_vec()]).unwrap_or_default()),
    ("master64", 26, |i| bip32::master(&seed64(i)).map(|m| vec![m.key.to_vec(), m.meta.chain.to_vec()]).unwrap_or_default()),
    ("child", 26, |i| steps(i)),
    ("hardened", 26, |i| steps(i | 1 << 31)),
    ("pubkey", 22, |i| secp::pubkey(&value(i)).map(|p| vec![p[1..].to_vec(), w4(&fingerprint(&p))]).unwrap_or_default()),
    ("pubchild", 22, |i| {
        let t = tweak(i);
        secp::pubkey(&secp::to_be(&secp::add(&t, &secp::from_be(&value(0)), &secp::N))).map(|p| vec![p[1..].to_vec(), w4(&fingerprint(&p))]).unwrap_or_default()
    }),
    ("signature", 21, |i| {
        let Ok(k) = libsecp256k1::SecretKey::parse(&value(0)) else { return vec![] };
        let (s, _) = libsecp256k1::sign(&libsecp256k1::Message::parse(&value(i)), &k);
        let s = s.serialize();
        vec![s[..32].to_vec(), s[32..].to_vec()]
    }),
    ("text", 26, |i| {
        let mut k = [1; 33];
        k[0] = 0;
        vec![w4(&hash::sha256(&hash::sha256(&payload(0x0488ade4, &meta_of(&value(i)), &k))))]
    }),
    ("seed", 18, |i| {
        let s = bip39::seed(&bip39::phrase(&value(i)[..16], Lang::En), Lang::En, "");
        vec![s.to_vec(), s[32..].to_vec()]
    }),
];
fn pre() -> &'static (RPrv, [u8; 33]) {
    static P: OnceLock<(RPrv, [u8; 33])> = OnceLock::new();
    P.get_or_init(|| (parent(), parent().pubkey()))
}
fn il_ir(i: u32) -> [u8; 64] {
    let (p, pk) = pre();
    let mut data = if i >> 31 == 1 { p.key33().to_vec() } else { pk.to_vec() };
    data.extend_from_slice(&i.to_be_bytes());
    hash::hmac_sha512(&p.meta.chain, &data)
}
fn tweak(i: u32) -> secp::U256 {
    secp::reduce(&secp::from_be(il_ir(i)[..32].try_into().unwrap()), &secp::N)
}
fn steps(i: u32) -> Vec<Vec<u8>> {
    let b = il_ir(i);
    let k = secp::add(&tweak(i), &secp::from_be(&pre().0.key), &secp::N);
    vec![b[..32].to_vec(), secp::to_be(&k).to_vec(), b[32..].to_vec()]
}
/// lengths of the runs of zeros and ones at the start and at the end
fn runs(v: &[u8]) -> [u32; 4] {
    let lead = |f: fn(u8) -> u8| {
        let mut n = 0;
        for b in v {
            let z = f(*b).leading_zeros();
            n += z;
            if z < 8 {
                break;
            }
        }
        n
    };
    let tail = |f: fn(u8) -> u8| {
        let mut n = 0;
        for b in v.iter().rev() {
            let z = f(*b).trailing_zeros().min(8);
            n += z;
            if z < 8 {
                break;
            }
        }
        n
    };
    [lead(|b| b), lead(|b| !b), tail(|b| b), tail(|b| !b)]
}
/// search (minutes) and print the table
pub fn search() {
    for (name, log, f) in KINDS {
        let per = (1u32 << log) / 64;
        // per result and run: the best inputs
        type Best = Vec<Vec<(u32, u32)>>;
        let next = std::sync::atomic::AtomicU32::new(0);
        let all: Vec<Best> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8)
                .map(|_| {
                    s.spawn(|| {
                        let mut best: Best = vec![];
                        loop {
                            let t = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            if t >= 64 {
                                return best;
                            }
                            for i in t * per..(t + 1) * per {
                                for (r, v) in f(i).iter().enumerate() {
                                    for (e, n) in runs(v).iter().enumerate() {
                                        let at = r * 4 + e;
                                        while best.len() <= at {
                                            best.push(vec![]);
                                        }
                                        let b = &mut best[at];
                                        if b.len() < 6 || b[5].0 < *n {
                                            b.push((*n, i));
                                            b.sort_by(|x, y| y.cmp(x));
                                            b.truncate(6);
                                        }
                                    }
                                }
                            }
                        }
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let n = all.iter().map(|b| b.len()).max().unwrap_or(0);
        for at in 0..n {
            let mut b: Vec<(u32, u32)> = all.iter().filter_map(|x| x.get(at)).flatten().copied().collect();
            b.sort_by(|x, y| y.cmp(x));
            for (bits, i) in b.iter().take(6) {
                println!("{},{},{},{},{}", name, at / 4, at % 4, bits, i);
            }
        }
    }
}
/// the numbers of one kind
pub fn of(name: &str) -> Vec<u32> {
    static T: OnceLock<Vec<(&'static str, u32)>> = OnceLock::new();
    let t = T.get_or_init(|| {
        let mut v = vec![];
        for l in include_str!("rare.txt").lines() {
            let f: Vec<&'static str> = l.split(',').collect();
            let n = |k: usize| f[k].parse::<u32>().expect("number");
            let kind = KINDS.iter().find(|x| x.0 == f[0]).expect("kind");
            let got = kind.2(n(4));
            assert!(runs(&got[n(1) as usize])[n(2) as usize] >= n(3), "rare.txt is wrong: {}", l);
            v.push((f[0], n(4)));
        }
        v
    });
    t.iter().filter(|x| x.0 == name).map(|x| x.1).collect()
}
pub fn pick(name: &str) -> BoxedStrategy<u32> {
    let v = of(name);
    if v.is_empty() {
        return Just(0).boxed();
    }
    proptest::sample::select(v).boxed()
}
