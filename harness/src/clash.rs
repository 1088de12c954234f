//! Pairs of different values that agree on a short or weak digest. Code that recognises a secret by
//! such a digest (a 4-byte fingerprint, a checksum, a 32-bit hash, a sum) takes one for the other.
//! The 32-bit coincidences were searched for once (`kmsver clash-table`) and are kept in clash.txt.
use crate::gen::B32;
use crate::refs::bip32::{fingerprint, payload, Meta};
use crate::refs::bip39::{self, Lang};
use crate::refs::{hash, secp};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;

/// the numbered values the table is about
pub fn value(i: u32) -> [u8; 32] {
    hash::sha256(format!("kms clash {}", i).as_bytes())
}
pub fn meta_of(v: &[u8; 32]) -> Meta {
    Meta { depth: 1, fp: [1, 2, 3, 4], child: 7, chain: *v }
}
fn w4(b: &[u8]) -> u32 {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}
fn fnv1a(b: &[u8]) -> u32 {
    b.iter().fold(0x811c9dc5u32, |h, x| (h ^ *x as u32).wrapping_mul(0x01000193))
}
fn fnv1(b: &[u8]) -> u32 {
    b.iter().fold(0x811c9dc5u32, |h, x| h.wrapping_mul(0x01000193) ^ *x as u32)
}
fn poly(b: &[u8], m: u32, s: u32) -> u32 {
    b.iter().fold(s, |h, x| h.wrapping_mul(m).wrapping_add(*x as u32))
}
fn crc(b: &[u8]) -> u32 {
    !b.iter().fold(!0u32, |mut h, x| {
        h ^= *x as u32;
        for _ in 0..8 {
            h = (h >> 1) ^ (0xedb88320 & (h & 1).wrapping_neg());
        }
        h
    })
}
fn sip<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn std_hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn dbl(b: &[u8]) -> [u8; 32] {
    hash::sha256(&hash::sha256(b))
}
type Tag = (&'static str, fn(&[u8; 32]) -> u32);
/// digests of 32 bits
const TAGS: [Tag; 22] = [
    ("fingerprint", |v| secp::pubkey(v).map(|p| w4(&fingerprint(&p))).unwrap_or_else(|| w4(v))),
    ("pubkey head", |v| secp::pubkey(v).map(|p| w4(&p[1..])).unwrap_or_else(|| w4(v))),
    ("pubkey tail", |v| secp::pubkey(v).map(|p| w4(&p[29..])).unwrap_or_else(|| w4(v))),
    ("checksum of text", |v| w4(&dbl(&payload(0x0488ade4, &meta_of(v), &{ let mut k = [1; 33]; k[0] = 0; k })))),
    ("fnv1a", |v| fnv1a(v)),
    ("fnv1", |v| fnv1(v)),
    ("31", |v| poly(v, 31, 0)),
    ("33", |v| poly(v, 33, 5381)),
    ("65599", |v| poly(v, 65599, 0)),
    ("crc", |v| crc(v)),
    ("sha256", |v| w4(&hash::sha256(v))),
    ("sha256 tail", |v| w4(&hash::sha256(v)[28..])),
    ("sha256d", |v| w4(&dbl(v))),
    ("sha512", |v| w4(&hash::sha512(v))),
    ("hash160", |v| w4(&hash::hash160(v))),
    ("ripemd160", |v| w4(&hash::ripemd160(v))),
    ("std of array", |v| std_hash(v) as u32),
    ("std of slice", |v| std_hash(&v[..]) as u32),
    ("std high", |v| (std_hash(v) >> 32) as u32),
    ("sip24", |v| sip(v) as u32),
    ("phrase std", |v| std_hash(&*bip39::phrase(&v[..16], Lang::En)) as u32),
    ("phrase fnv1a", |v| fnv1a(bip39::phrase(&v[..16], Lang::En).as_bytes())),
];
/// search (minutes) and print the table
pub fn search() {
    for (name, f) in TAGS {
        let n: u32 = 1 << 18;
        let per = n / 8;
        let mut all: Vec<(u32, u32)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8).map(|t| s.spawn(move || (t * per..(t + 1) * per).map(|i| (f(&value(i)), i)).collect::<Vec<_>>())).collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        all.sort();
        for w in all.windows(2) {
            if w[0].0 == w[1].0 {
                println!("{},{},{}", name, w[0].1, w[1].1);
            }
        }
    }
}
pub fn table() -> &'static Vec<(&'static str, u32, u32)> {
    static T: OnceLock<Vec<(&'static str, u32, u32)>> = OnceLock::new();
    T.get_or_init(|| {
        let v: Vec<(&'static str, u32, u32)> = include_str!("clash.txt")
            .lines()
            .map(|l| {
                let mut f = l.split(',');
                let n = f.next().expect("name");
                let mut num = || f.next().and_then(|x| x.parse().ok()).expect("number");
                (n, num(), num())
            })
            .collect();
        for (n, i, j) in &v {
            let f = TAGS.iter().find(|t| t.0 == *n).expect("tag").1;
            assert!(i != j && f(&value(*i)) == f(&value(*j)), "clash.txt is wrong: {} {} {}", n, i, j);
        }
        v
    })
}

/// A second value with the same digest as a given one, for digests that are easily met.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Clash {
    /// same bytes in another order
    Perm(u16, u16),
    Reverse,
    Rotate(u8),
    /// two blocks of 2, 4, 8 or 16 bytes exchanged
    Blocks(u8, u8, u8),
    /// +1 here, -m at the next byte: sums with multiplier m
    Poly(u8, u8),
    /// a bit here, and one s places higher in the next byte: shift and xor
    Shift(u8, u8, u8),
    /// the same bits changed in bytes a distance apart: xor of words
    Xor(u8, u8, u8),
    /// moved from one byte to another a distance apart: sum of words
    Sum(u8, u8, u8),
    /// the first n bytes kept
    Head(u8, B32),
    /// the last n bytes kept
    Tail(u8, B32),
    /// the first n and the last m bytes kept
    Ends(u8, u8, B32),
    /// every (2, 3, 4, 8 or 16)th byte kept
    Sparse(u8, u8, B32),
    /// low or high half of each byte kept
    Nibble(bool, B32),
    /// every byte's top bit dropped
    Ascii(u8),
    /// something else
    New(B32),
}
pub fn clash() -> BoxedStrategy<Clash> {
    let v = crate::gen::b32;
    let u = any::<u8>;
    prop_oneof![
        2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Clash::Perm(a, b)),
        1 => Just(Clash::Reverse),
        1 => u().prop_map(Clash::Rotate),
        3 => (u(), u(), u()).prop_map(|(a, b, c)| Clash::Blocks(a, b, c)),
        3 => (u(), prop_oneof![3 => proptest::sample::select(vec![31u8, 33, 37, 131, 2, 3, 5, 7, 11, 13, 17, 19, 251, 16, 32, 64, 128, 26, 10, 58, 65]), 1 => u()]).prop_map(|(a, b)| Clash::Poly(a, b)),
        4 => (u(), u(), prop_oneof![2 => Just(1u8), 2 => Just(5), 3 => 1u8..8]).prop_map(|(a, b, c)| Clash::Shift(a, b, c)),
        3 => (u(), u(), u()).prop_map(|(a, b, c)| Clash::Xor(a, b, c)),
        3 => (u(), u(), u()).prop_map(|(a, b, c)| Clash::Sum(a, b, c)),
        3 => (u(), v()).prop_map(|(a, b)| Clash::Head(a, b)),
        3 => (u(), v()).prop_map(|(a, b)| Clash::Tail(a, b)),
        3 => (u(), u(), v()).prop_map(|(a, b, c)| Clash::Ends(a, b, c)),
        2 => (u(), u(), v()).prop_map(|(a, b, c)| Clash::Sparse(a, b, c)),
        1 => (any::<bool>(), v()).prop_map(|(a, b)| Clash::Nibble(a, b)),
        1 => u().prop_map(Clash::Ascii),
        1 => v().prop_map(Clash::New),
    ]
    .boxed()
}
impl Clash {
    pub fn apply(&self, b: &[u8]) -> Vec<u8> {
        let mut v = b.to_vec();
        let n = v.len();
        if n < 2 {
            return v;
        }
        let fill = |x: &B32, i: usize| x.0[i % 32].wrapping_add((i / 32) as u8);
        match self {
            Clash::Perm(a, b) => v.swap(*a as usize % n, *b as usize % n),
            Clash::Reverse => v.reverse(),
            Clash::Rotate(k) => v.rotate_left(*k as usize % n),
            Clash::Blocks(w, a, b) => {
                let w = [2usize, 4, 8, 16][*w as usize % 4].min(n / 2);
                let (a, b) = (*a as usize % (n / w), *b as usize % (n / w));
                for k in 0..w {
                    v.swap(a * w + k, b * w + k)
                }
            }
            Clash::Poly(i, m) => {
                // the neighbour to the right loses m for one more here (or the other way round)
                for k in 0..n - 1 {
                    let i = (*i as usize + k) % (n - 1);
                    if v[i] < 255 && v[i + 1] >= *m {
                        v[i] += 1;
                        v[i + 1] -= m;
                        break;
                    }
                    if v[i] > 0 && v[i + 1] as u16 + *m as u16 <= 255 {
                        v[i] -= 1;
                        v[i + 1] += m;
                        break;
                    }
                }
            }
            Clash::Shift(i, j, s) => {
                let i = *i as usize % (n - 1);
                let s = (*s % 8).max(1);
                let j = *j % (8 - s);
                v[i] ^= 1 << j;
                v[i + 1] ^= 1 << (j + s);
            }
            Clash::Xor(i, d, m) => {
                let d = [1usize, 2, 4, 8, 16][*d as usize % 5].min(n - 1);
                let i = *i as usize % (n - d);
                v[i] ^= m | 1;
                v[i + d] ^= m | 1;
            }
            Clash::Sum(i, d, m) => {
                let d = [1usize, 2, 4, 8, 16][*d as usize % 5].min(n - 1);
                let i = *i as usize % (n - d);
                let m = (*m).min(v[i + d]).min(255 - v[i]);
                v[i] += m;
                v[i + d] -= m;
            }
            Clash::Head(k, x) => (*k as usize % n..n).for_each(|i| v[i] = fill(x, i)),
            Clash::Tail(k, x) => (0..n - *k as usize % n).for_each(|i| v[i] = fill(x, i)),
            Clash::Ends(a, b, x) => (*a as usize % n..n - *b as usize % n).for_each(|i| v[i] = fill(x, i)),
            Clash::Sparse(d, p, x) => {
                let d = [2usize, 3, 4, 8, 16][*d as usize % 5];
                (0..n).filter(|i| i % d != *p as usize % d).for_each(|i| v[i] = fill(x, i))
            }
            Clash::Nibble(lo, x) => (0..n).for_each(|i| v[i] = if *lo { v[i] & 15 | fill(x, i) & 0xf0 } else { v[i] & 0xf0 | fill(x, i) & 15 }),
            Clash::Ascii(i) => v[*i as usize % n] ^= 0x80,
            Clash::New(x) => (0..n).for_each(|i| v[i] = fill(x, i)),
        }
        v
    }
}
/// Two related values of 32 bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pair {
    /// an entry of the table
    Found(u8, u8),
    Related(B32, Vec<Clash>),
}
impl Pair {
    pub fn get(&self) -> ([u8; 32], [u8; 32], &'static str) {
        match self {
            Pair::Found(d, i) => {
                // the first digest, the fingerprint, more often
                let name = TAGS[(*d as usize % (TAGS.len() + 4)).saturating_sub(4)].0;
                let t: Vec<_> = table().iter().filter(|x| x.0 == name).collect();
                match t.get(*i as usize % t.len().max(1)) {
                    Some((n, a, b)) => (value(*a), value(*b), n),
                    None => (value(0), value(1), name),
                }
            }
            Pair::Related(a, c) => {
                let mut v = a.0.to_vec();
                for x in c {
                    v = x.apply(&v);
                }
                (a.0, v.try_into().unwrap_or(a.0), "related")
            }
        }
    }
}
pub fn pair() -> BoxedStrategy<Pair> {
    prop_oneof![1 => (any::<u8>(), any::<u8>()).prop_map(|(d, i)| Pair::Found(d, i)), 3 => (prop_oneof![3 => crate::gen::arr::<32>().boxed(), 1 => crate::gen::b32()], proptest::collection::vec(clash(), 1..3)).prop_map(|(a, c)| Pair::Related(a, c))].boxed()
}
