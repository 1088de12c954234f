//! Case data types and generators shared by the checks.
use crate::dict::dict;
use crate::refs::bip32::{Meta, RPrv, RPub};
use crate::refs::bip39::{self, Lang};
use crate::refs::{hex, nfkd, secp, unhex};
use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// Bytes, shown as hex in replay files.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct B(pub Vec<u8>);
impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<B, D::Error> {
        let s = String::deserialize(d)?;
        Ok(B(unhex(&s)))
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct A<const N: usize>(pub [u8; N]);
impl<const N: usize> std::fmt::Debug for A<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&hex(&self.0))
    }
}
impl<const N: usize> Serialize for A<N> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de, const N: usize> Deserialize<'de> for A<N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<A<N>, D::Error> {
        let s = String::deserialize(d)?;
        unhex(&s).try_into().map(A).map_err(|_| serde::de::Error::custom("length"))
    }
}
pub type B32 = A<32>;

/// An extended private key, field by field.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Key {
    pub key: B32,
    pub chain: B32,
    pub depth: u8,
    pub fp: A<4>,
    pub child: u32,
}
impl Key {
    pub fn r(&self) -> RPrv {
        RPrv { key: self.key.0, meta: Meta { depth: self.depth, fp: self.fp.0, child: self.child, chain: self.chain.0 } }
    }
    pub fn from_r(r: &RPrv) -> Key {
        Key { key: A(r.key), chain: A(r.meta.chain), depth: r.meta.depth, fp: A(r.meta.fp), child: r.meta.child }
    }
    /// restore the invariants a generated or mutated key must keep
    pub fn fix(mut self) -> Key {
        self.key = fix_scalar(self.key);
        if self.depth == 0 {
            self.fp = A([0; 4]);
            self.child = 0;
        }
        self
    }
}
/// An extended public key whose point need not have a known private key.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct PKey {
    pub key: A<33>,
    pub chain: B32,
    pub depth: u8,
    pub fp: A<4>,
    pub child: u32,
}
impl PKey {
    pub fn r(&self) -> RPub {
        RPub { key: self.key.0, meta: Meta { depth: self.depth, fp: self.fp.0, child: self.child, chain: self.chain.0 } }
    }
}

pub fn fix_scalar(a: B32) -> B32 {
    let k = secp::reduce(&secp::from_be(&a.0), &secp::N);
    if secp::is_zero(&k) {
        let mut o = [0; 32];
        o[31] = 1;
        return A(o);
    }
    A(secp::to_be(&k))
}
fn off(base: &secp::U256, d: i32) -> B32 {
    let one = [d.unsigned_abs() as u64, 0, 0, 0];
    // plain 256-bit wrap-around arithmetic
    let mut b = secp::to_be(base);
    let mut carry: i64 = if d < 0 { -(one[0] as i64) } else { one[0] as i64 };
    for i in (0..32).rev() {
        carry += b[i] as i64;
        b[i] = carry as u8;
        carry >>= 8;
    }
    A(b)
}
fn be(v: u64) -> B32 {
    let mut o = [0; 32];
    o[24..].copy_from_slice(&v.to_be_bytes());
    A(o)
}
pub fn half_n() -> secp::U256 {
    let n = secp::N;
    let mut r = [0u64; 4];
    for i in 0..4 {
        r[i] = n[i] >> 1 | if i < 3 { n[i + 1] << 63 } else { 0 };
    }
    r
}

pub fn arr<const N: usize>() -> impl Strategy<Value = A<N>> + Clone {
    proptest::collection::vec(any::<u8>(), N).prop_map(|v| A(v.try_into().unwrap()))
}
/// 32 bytes, biased to the shapes that matter for scalars, digests and chain codes.
pub fn b32() -> BoxedStrategy<B32> {
    let nb = dict().bytes.len();
    prop_oneof![
        8 => arr::<32>(),
        1 => (0u64..600).prop_map(be),
        1 => (-300i32..300).prop_map(|d| off(&secp::N, d)),
        1 => (-3i32..600).prop_map(|d| off(&secp::P, d)),
        1 => (-3i32..3).prop_map(|d| off(&half_n(), d)),
        1 => (-40i32..40).prop_map(|d| off(&[0; 4], d)),
        2 => (arr::<32>(), 1usize..32).prop_map(|(a, k)| { let mut a = a; for x in &mut a.0[..k] { *x = 0 } a }),
        1 => (arr::<32>(), 1usize..32).prop_map(|(a, k)| { let mut a = a; for x in &mut a.0[32 - k..] { *x = 0 } a }),
        1 => (arr::<32>(), 1usize..32).prop_map(|(a, k)| { let mut a = a; for x in &mut a.0[..k] { *x = 0xff } a }),
        1 => (0usize..256).prop_map(|b| { let mut o = [0u8; 32]; o[b / 8] = 0x80 >> (b % 8); A(o) }),
        1 => (0usize..256).prop_map(|b| { let mut o = [0xffu8; 32]; o[b / 8] ^= 0x80 >> (b % 8); A(o) }),
        1 => any::<u8>().prop_map(|b| A([b; 32])),
        1 => (arr::<32>(), 0..nb, 0usize..32).prop_map(|(a, d, p)| { let mut a = a; for (i, x) in dict().bytes[d].iter().enumerate() { a.0[(p + i) % 32] = *x } a }),
        1 => (arr::<32>(), int(), 0usize..4, any::<bool>()).prop_map(|(a, d, p, le)| { let mut a = a; let w = if le { d.to_le_bytes() } else { d.to_be_bytes() }; a.0[8 * p..8 * p + 8].copy_from_slice(&w); a }),
    ]
    .boxed()
}
pub fn scalar() -> BoxedStrategy<B32> {
    // keys whose public key or fingerprint begins or ends with a run of zeros or ones, too
    prop_oneof![24 => b32(), 1 => crate::rare::pick("pubkey").prop_map(|i| A(crate::clash::value(i)))].prop_map(fix_scalar).boxed()
}
/// u64 from the source dictionary, possibly off by one
pub fn int() -> impl Strategy<Value = u64> + Clone {
    (0..dict().ints.len(), 0u8..8).prop_map(|(i, d)| {
        let v = dict().ints[i];
        match d {
            0 | 1 => v.wrapping_add(1),
            2 => v.wrapping_sub(1),
            3 => v.wrapping_mul(2),
            _ => v,
        }
    })
}
/// Child index, all 32 bits.
pub fn idx() -> BoxedStrategy<u32> {
    const H: u32 = 1 << 31;
    prop_oneof![
        6 => any::<u32>(),
        3 => 0u32..64,
        3 => (0u32..64).prop_map(|i| i | H),
        2 => (0u32..8).prop_map(|k| H - 1 - k),
        2 => (0u32..8).prop_map(|k| H + k),
        2 => (0u32..8).prop_map(|k| u32::MAX - k),
        2 => (0u32..32, -2i64..3).prop_map(|(b, d)| ((1i64 << b) + d) as u32),
        2 => (0u32..31, -2i64..3).prop_map(|(b, d)| (((1i64 << b) + d) as u32) | H),
        1 => (any::<u8>(), 0u32..4).prop_map(|(b, s)| (b as u32) << (8 * s)),
        2 => (int(), any::<bool>()).prop_map(|(v, h)| if h { v as u32 | H } else { v as u32 }),
        2 => proptest::sample::select(vec![44u32, 49, 84, 86, 60, 118, 145, 196, 300049, 999_999_999, 1_000_000_000]).prop_flat_map(|i| prop_oneof![Just(i), Just(i | H)]),
    ]
    .boxed()
}
pub fn depth() -> BoxedStrategy<u8> {
    prop_oneof![
        4 => any::<u8>(), 3 => 0u8..4, 3 => 252u8..=255, 1 => 126u8..130,
        2 => int().prop_map(|v| v as u8),
    ]
    .boxed()
}
pub fn fp() -> BoxedStrategy<A<4>> {
    prop_oneof![6 => arr::<4>(), 1 => Just(A([0; 4])), 1 => Just(A([0xff; 4])), 1 => (0usize..32).prop_map(|b| A((1u32 << b).to_be_bytes()))].boxed()
}
pub fn key() -> BoxedStrategy<Key> {
    (scalar(), b32(), depth(), fp(), idx()).prop_map(|(key, chain, depth, fp, child)| Key { key, chain, depth, fp, child }.fix()).boxed()
}
/// keys from which at least a few derivation steps are possible
pub fn key_shallow() -> BoxedStrategy<Key> {
    (key(), prop_oneof![3 => 0u8..4, 2 => any::<u8>().prop_map(|d| d.min(240))]).prop_map(|(mut k, d)| { k.depth = d; k.fix() }).boxed()
}
pub fn point() -> BoxedStrategy<A<33>> {
    prop_oneof![
        2 => scalar().prop_map(|k| A(secp::pubkey(&k.0).unwrap())),
        2 => (b32(), any::<bool>()).prop_map(|(x, odd)| {
            let mut x = x;
            for d in 0..200u32 {
                let c = off(&secp::from_be(&x.0), d as i32);
                let mut p = [2 + odd as u8; 33];
                p[1..].copy_from_slice(&c.0);
                if secp::decompress(&p).is_some() { return A(p) }
                if d == 100 { x = A([7; 32]) }
            }
            A(secp::pubkey(&be(1).0).unwrap())
        }),
    ].boxed()
}
pub fn pkey() -> BoxedStrategy<PKey> {
    (point(), key()).prop_map(|(p, k)| PKey { key: p, chain: k.chain, depth: k.depth, fp: k.fp, child: k.child }).boxed()
}

/// How a key differs from another one.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mutation {
    Same,
    KeyBit(u8),
    KeyNeg,
    KeyNew(B32),
    ChainBit(u8),
    ChainNew(B32),
    Depth(u8),
    FpBit(u8),
    ChildBit(u8),
    /// swap private key and chain code (where that is a key)
    Swap,
    /// values that agree with the old ones on some weak digest
    KeyClash(crate::clash::Clash),
    ChainClash(crate::clash::Clash),
}
impl Mutation {
    pub fn apply(&self, k: &Key) -> Key {
        let mut k = k.clone();
        match self {
            Mutation::Same => {}
            Mutation::KeyBit(b) => k.key.0[*b as usize / 8] ^= 0x80 >> (b % 8),
            Mutation::KeyNeg => k.key = A(secp::to_be(&secp::neg(&secp::from_be(&k.key.0), &secp::N))),
            Mutation::KeyNew(n) => k.key = *n,
            Mutation::ChainBit(b) => k.chain.0[*b as usize / 8] ^= 0x80 >> (b % 8),
            Mutation::ChainNew(n) => k.chain = *n,
            Mutation::Depth(d) => k.depth = *d,
            Mutation::FpBit(b) => k.fp.0[*b as usize % 32 / 8] ^= 0x80 >> (b % 8),
            Mutation::ChildBit(b) => k.child ^= 1 << (b % 32),
            Mutation::Swap => std::mem::swap(&mut k.key, &mut k.chain),
            Mutation::KeyClash(c) => k.key = A(c.apply(&k.key.0).try_into().unwrap_or(k.key.0)),
            Mutation::ChainClash(c) => k.chain = A(c.apply(&k.chain.0).try_into().unwrap_or(k.chain.0)),
        }
        k.fix()
    }
}
pub fn mutation() -> BoxedStrategy<Mutation> {
    prop_oneof![
        1 => Just(Mutation::Same),
        3 => any::<u8>().prop_map(Mutation::KeyBit),
        1 => Just(Mutation::KeyNeg),
        1 => scalar().prop_map(Mutation::KeyNew),
        3 => any::<u8>().prop_map(Mutation::ChainBit),
        1 => b32().prop_map(Mutation::ChainNew),
        2 => depth().prop_map(Mutation::Depth),
        2 => (0u8..32).prop_map(Mutation::FpBit),
        2 => (0u8..32).prop_map(Mutation::ChildBit),
        1 => Just(Mutation::Swap),
        2 => crate::clash::clash().prop_map(Mutation::KeyClash),
        1 => crate::clash::clash().prop_map(Mutation::ChainClash),
    ].boxed()
}

pub fn path(max: usize) -> BoxedStrategy<Vec<u32>> {
    prop_oneof![4 => proptest::collection::vec(idx(), 0..=max), 1 => (idx(), 1..=max).prop_map(|(i, n)| vec![i; n])].boxed()
}
pub fn seed_ok() -> BoxedStrategy<B> {
    prop_oneof![
        24 => (proptest::sample::select(vec![16usize, 32, 64, 128]), bytes_pat(128)).prop_map(|(n, v)| B(v[..n].to_vec())),
        1 => prop_oneof![crate::rare::pick("master16").prop_map(crate::rare::seed16), crate::rare::pick("master64").prop_map(crate::rare::seed64)].prop_map(B),
    ]
    .boxed()
}
/// exactly n bytes with structure
pub fn bytes_pat(n: usize) -> BoxedStrategy<Vec<u8>> {
    let nb = dict().bytes.len();
    prop_oneof![
        8 => proptest::collection::vec(any::<u8>(), n),
        1 => any::<u8>().prop_map(move |b| vec![b; n]),
        1 => (proptest::collection::vec(any::<u8>(), n), 0..n).prop_map(|(mut v, k)| { for x in &mut v[..k] { *x = 0 } v }),
        1 => (proptest::collection::vec(any::<u8>(), n), 0..n).prop_map(|(mut v, k)| { for x in &mut v[k..] { *x = 0 } v }),
        1 => (0..n, any::<u8>()).prop_map(move |(k, b)| { let mut v = vec![0; n]; v[k] = b; v }),
        1 => (0..n, any::<u8>()).prop_map(move |(k, b)| { let mut v = vec![0xff; n]; v[k] = b; v }),
        1 => (proptest::collection::vec(any::<u8>(), n), 0..nb, 0..n).prop_map(move |(mut v, d, p)| { for (i, x) in dict().bytes[d].iter().enumerate() { v[(p + i) % n] = *x } v }),
        1 => proptest::sample::select(vec![0u8, 0x7f, 0x80, 0xff, 1, 0xaa]).prop_flat_map(move |b| (Just(b), 0..=n)).prop_map(move |(b, k)| { let mut v = vec![b; n]; for x in &mut v[k..] { *x = !b } v }),
    ].boxed()
}
pub fn lang() -> impl Strategy<Value = Lang> + Clone {
    prop_oneof![3 => Just(Lang::En), 2 => Just(Lang::Zh)]
}
/// entropy of a valid size
pub fn entropy() -> BoxedStrategy<B> {
    (proptest::sample::select(vec![16usize, 20, 24, 28, 32]), prop_oneof![
        5 => bytes_pat(32),
        // from word indices, to make chosen words repeat
        1 => proptest::collection::vec(prop_oneof![Just(0u16), Just(2047), 0u16..2048, Just(1024)], 1..4).prop_map(|w| {
            let mut bits = Vec::new();
            for i in 0..24 { for b in (0..11).rev() { bits.push(w[i % w.len()] >> b & 1) } }
            bits[..256].chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | *b as u8)).collect()
        }),
    ]).prop_map(|(n, v)| B(v[..n].to_vec())).boxed()
}

/// characters of several Unicode classes that matter to normalisation
pub fn uchar() -> BoxedStrategy<char> {
    let t = nfkd::tables();
    let (nd, nc) = (t.decomposable.len(), t.combining.len());
    prop_oneof![
        6 => (0x20u32..0x7f).prop_map(|c| char::from_u32(c).unwrap()),
        1 => (0u32..0x20).prop_map(|c| char::from_u32(c).unwrap()),
        3 => (0..nd).prop_map(|i| nfkd::tables().decomposable[i]),
        3 => (0..nc).prop_map(|i| nfkd::tables().combining[i]),
        1 => (0xAC00u32..0xD7A4).prop_map(|c| char::from_u32(c).unwrap()),
        1 => (0x1100u32..0x11ff).prop_map(|c| char::from_u32(c).unwrap()),
        1 => (0x4E00u32..0x9FA5).prop_map(|c| char::from_u32(c).unwrap()),
        1 => (0xC0u32..0x250).prop_map(|c| char::from_u32(c).unwrap()),
        1 => (0x1F300u32..0x1F650).prop_map(|c| char::from_u32(c).unwrap()),
        1 => (0x3040u32..0x30ff).prop_filter_map("kana", |c| char::from_u32(c).filter(|c| !matches!(*c as u32, 0x3040 | 0x3097 | 0x3098))),
        1 => proptest::sample::select(WS.to_vec()),
        1 => proptest::sample::select(vec!['\u{200b}', '\u{200d}', '\u{feff}', '\u{fe0f}', '\0', '\u{7f}', '\u{10ffff}', '\u{34f}', '\u{180e}', '\'', '"', '\\', '/', '%', '\u{e000}']),
    ].boxed()
}
/// every code point with the Unicode White_Space property
pub const WS: [char; 25] = [
    '\t', '\n', '\u{b}', '\u{c}', '\r', ' ', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}',
    '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];
pub fn ustring(max: usize) -> BoxedStrategy<String> {
    proptest::collection::vec(uchar(), 0..=max).prop_map(|v| v.into_iter().collect()).boxed()
}
pub fn size(max: usize) -> BoxedStrategy<usize> {
    let s: Vec<usize> = dict().sizes.iter().copied().filter(|x| *x <= max).collect();
    let e: Vec<usize> = [15usize, 16, 17, 31, 32, 33, 47, 48, 55, 56, 63, 64, 65, 100, 101, 103, 104, 110, 111, 112, 113, 119, 120, 121, 127, 128, 129, 135, 136, 255, 256, 257, 500, 512, 1000, 1024].iter().copied().filter(|x| *x <= max).collect();
    prop_oneof![3 => 0..=max, 2 => proptest::sample::select(s), 2 => proptest::sample::select(e), 3 => 0..=max.min(24)].boxed()
}
/// Sizes spread over every order of magnitude up to `max`: log-uniform, powers of two and ten and their
/// neighbours, sizes named in the source.
pub fn long_size(max: usize) -> BoxedStrategy<usize> {
    let s: Vec<usize> = dict().sizes.iter().copied().filter(|x| *x <= max).collect();
    let top = usize::BITS - max.leading_zeros();
    prop_oneof![
        4 => (0..top, any::<u32>()).prop_map(move |(b, r)| ((1usize << b) + (r as usize & ((1 << b) - 1))).min(max)),
        3 => (0..top, -3i64..4).prop_map(move |(b, d)| (((1i64 << b) + d).max(0) as usize).min(max)),
        1 => (0u32..6, 1i64..10, -2i64..3).prop_map(move |(t, m, d)| ((m * 10i64.pow(t) + d).max(0) as usize).min(max)),
        2 => proptest::sample::select(s),
    ].boxed()
}
/// A long text: a unit repeated up to a byte length, with single characters replaced near given places
/// (counted from the end), so that two texts can differ anywhere.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    pub unit: String,
    pub bytes: usize,
    pub marks: Vec<(u32, char)>,
}
impl Long {
    pub fn text(&self) -> String {
        let u: Vec<char> = if self.unit.is_empty() { vec!['x'] } else { self.unit.chars().collect() };
        let mut v = vec![];
        let (mut n, mut i) = (0, 0);
        while n < self.bytes {
            v.push(u[i % u.len()]);
            n += u[i % u.len()].len_utf8();
            i += 1;
        }
        for (p, c) in &self.marks {
            if !v.is_empty() {
                let q = v.len() - 1 - *p as usize % v.len();
                v[q] = *c;
            }
        }
        v.into_iter().collect()
    }
}
pub fn long(max: usize, unit: BoxedStrategy<String>) -> BoxedStrategy<Long> {
    (long_size(max), unit, proptest::collection::vec((prop_oneof![0u32..4, any::<u32>()], uchar()), 0..3))
        .prop_map(|(bytes, unit, marks)| Long { unit, bytes, marks })
        .boxed()
}
pub fn password() -> BoxedStrategy<String> {
    prop_oneof![
        1 => Just(String::new()),
        4 => ustring(12),
        3 => proptest::collection::vec(0x20u8..0x7f, 0..24).prop_map(|v| String::from_utf8(v).unwrap()),
        // long ASCII of chosen byte length
        3 => (size(1030), proptest::collection::vec(0x21u8..0x7f, 1..9)).prop_map(|(n, p)| (0..n).map(|i| p[i % p.len()] as char).collect()),
        2 => (size(300), ustring(8)).prop_map(|(n, p)| { let v: Vec<char> = p.chars().collect(); if v.is_empty() { return String::new() } (0..n).map(|i| v[i % v.len()]).collect() }),
        // long random text: no periodicity
        1 => ustring(200),
        // combining sequences on one base, in any order
        2 => (uchar(), proptest::collection::vec((0..nfkd::tables().combining.len()).prop_map(|i| nfkd::tables().combining[i]), 0..12), uchar()).prop_map(|(a, c, b)| { let mut s = a.to_string(); s.extend(c); s.push(b); s }),
        // surrounded by whitespace or controls
        2 => (ustring(6), proptest::sample::select(WS.to_vec()), 0u8..4).prop_map(|(p, w, k)| match k { 0 => format!("{}{}", w, p), 1 => format!("{}{}", p, w), 2 => format!("{}{}{}", w, p, w), _ => w.to_string() }),
        1 => (0..dict().strs.len(), ustring(3)).prop_map(|(i, t)| format!("{}{}", dict().strs[i], t)),
        1 => (0..dict().strs.len()).prop_map(|i| dict().strs[i].clone()),
    ].boxed()
}

/// NFKD-equivalent spellings of pieces of list words: (spelling, canonical piece)
pub struct Alt {
    pub en: std::collections::HashMap<String, Vec<char>>,
    pub zh: std::collections::HashMap<String, Vec<char>>,
}
pub fn alts() -> &'static Alt {
    static T: std::sync::OnceLock<Alt> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut a = Alt { en: Default::default(), zh: Default::default() };
        for c in &nfkd::tables().decomposable {
            let d: String = nfkd::tables().dec[c].iter().collect();
            if d.bytes().all(|b| b.is_ascii_lowercase()) {
                a.en.entry(d).or_insert_with(Vec::new).push(*c);
            } else if bip39::index(Lang::Zh, &d).is_some() {
                a.zh.entry(d).or_insert_with(Vec::new).push(*c);
            }
        }
        a
    })
}
/// Respell a canonical word: `choices` picks a substitution at each position.
pub fn respell(word: &str, l: Lang, choices: &[u16]) -> String {
    let a = match l {
        Lang::En => &alts().en,
        Lang::Zh => &alts().zh,
    };
    let cs: Vec<char> = word.chars().collect();
    let mut out = String::new();
    let (mut i, mut n) = (0, 0);
    while i < cs.len() {
        let ch = choices.get(n).copied().unwrap_or(0);
        n += 1;
        let mut done = false;
        if ch > 0 {
            // longest pieces first for odd choices
            let lens: Vec<usize> = if ch % 2 == 1 { vec![3, 2, 1] } else { vec![1, 2, 3] };
            for len in lens {
                if i + len <= cs.len() {
                    let piece: String = cs[i..i + len].iter().collect();
                    if let Some(v) = a.get(&piece) {
                        out.push(v[ch as usize / 2 % v.len()]);
                        i += len;
                        done = true;
                        break;
                    }
                }
            }
        }
        if !done {
            out.push(cs[i]);
            i += 1;
        }
    }
    out
}
