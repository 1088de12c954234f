//! P20: results depend only on arguments. Every case is a history (optionally with concurrent phases) that
//! is executed in a process of its own, so that what it leaves behind in the library cannot reach another case.
use crate::engine::{guarded, Out, Ran, Run};
use crate::gen::{self, Key, Mutation, A, B, B32};
use crate::k::{self, Kind};
use crate::refs::bip32::{self, Fail, Parsed, RPrv, RPub};
use crate::refs::bip39::{self, Lang};
use crate::refs::{hash, hex, nfkd, secp, unhex};
use kms::bip32::{ChildNumber, DerivationPath, Error, Prefix, PrivateKey, PublicKey, XPrv, XPub};
use kms::bip39::{Language, Mnemonic, MnemonicType, Seed};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::Write;
use std::process::{Command, Stdio};

#[path = "c_effect.rs"]
pub mod effect;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Style {
    Canon,
    Spaced(u8),
    OtherLang,
    Swap(u8, u8),
    DropLast,
    Unknown(u8),
    Word(u8, u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Src {
    Pool(u16),
    Base { b: u8, len: u8, flip: Option<u16> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Create { b: u8, size: u8, lang: Lang, flip: Option<u8> },
    Fresh { size: u8, lang: Lang },
    Recover { m: u16, style: Style },
    Validate { m: u16, style: Style },
    Stretch { m: u16, pw: u8, change: u8 },
    Root { src: Src, path: Vec<u32> },
    Child { k: u16, i: u32 },
    PChild { k: u16, i: u32 },
    Path { k: u16, path: Vec<u32> },
    PPath { k: u16, path: Vec<u32> },
    /// many children of consecutive indices, then the same ones in reverse
    Fan { k: u16, i: u32, n: u8 },
    Neuter { k: u16 },
    Twist { k: u16, m: Mutation },
    PTwist { k: u16, m: Mutation },
    Text { k: u16, pf: u8 },
    PText { k: u16, pf: u8 },
    Parse { k: u16, damage: u16 },
    PParse { k: u16, damage: u16 },
    Eq { a: u16, b: u16 },
    Sign { k: u16, d: u8, flip: Option<u8> },
    Detect { m: u16 },
    Words { lang: Lang, i: u16 },
    PathText { path: Vec<u32> },
    Version { v: u32 },
    Ripemd { n: u8 },
    Tweak { k: u16, d: u8 },
    PTweak { k: u16, d: u8 },
    Bad { what: u8 },
    Renew { k: u16 },
    Repeat { back: u8, n: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ents: Vec<B32>,
    seeds: Vec<B>,
    pws: Vec<String>,
    digests: Vec<B32>,
    pre: Vec<Op>,
    /// one list per thread; a number says: the list of an earlier thread, rotated
    threads: Vec<Vec<Op>>,
    same: bool,
    rounds: u8,
    post: Vec<Op>,
}

/// A call with all its arguments; objects are named by their place in the pool.
#[derive(Clone, Debug, PartialEq)]
enum Call {
    FromEntropy(Vec<u8>, Lang),
    Fresh(usize, Lang),
    FromPhrase(String, Lang),
    Validate(String, Lang),
    Stretch(usize, String),
    Root(Option<usize>, Vec<u8>, Vec<u32>),
    Child(usize, u32),
    PChild(usize, u32),
    Path(usize, Vec<u32>),
    PPath(usize, Vec<u32>),
    Neuter(usize),
    Make(RPrv),
    PMake(RPub),
    Text(usize, usize),
    PText(usize, usize),
    Parse(String),
    PParse(String),
    Eq(usize, usize),
    Sign(usize, Vec<u8>),
    Detect(String),
    Words(Lang, usize),
    PathText(Vec<u32>),
    Version(u32),
    Ripemd(Vec<u8>),
    Tweak([u8; 32], [u8; 32]),
    PTweak([u8; 33], [u8; 32]),
    Bad(u8),
    Renew(usize),
}
#[derive(Clone, Debug, PartialEq)]
enum Val {
    M(Vec<u8>, Lang),
    S(Vec<u8>),
    K(RPrv),
    P(RPub),
    Text(String),
    Bool(bool),
    /// allowed kinds of refusal
    No39(Vec<Kind>),
    No32(Vec<Error>),
    NoAny,
    /// to be judged by the book of signatures
    Sig([u8; 32], Vec<u8>, Vec<u8>),
    Free,
}
const PREFIXES: [(Prefix, u32); 4] = [(Prefix::XPRV, 0x0488ADE4), (Prefix::TPRV, 0x04358394), (Prefix::YPRV, 0x049D7878), (Prefix::ZPRV, 0x04b2430c)];
const PPREFIXES: [(Prefix, u32); 4] = [(Prefix::XPUB, 0x0488B21E), (Prefix::TPUB, 0x043587CF), (Prefix::YPUB, 0x049d7cb2), (Prefix::ZPUB, 0x04b24746)];

/// the model: reference values only
#[derive(Default)]
struct Model {
    m: Vec<(Vec<u8>, Lang)>,
    s: Vec<Vec<u8>>,
    k: Vec<RPrv>,
    p: Vec<RPub>,
    calls: Vec<Call>,
    seeds: HashMap<(String, Lang, String), Vec<u8>>,
}
fn at(i: u16, len: usize) -> Option<usize> {
    // recent objects are the likeliest
    (len > 0).then(|| len - 1 - i as usize % len)
}
fn fails(v: Result<RPrv, Fail>, at_limit: bool) -> Val {
    match v {
        Ok(k) => Val::K(k),
        Err(f) => Val::No32(fail32(f, at_limit)),
    }
}
fn fail32(f: Fail, both: bool) -> Vec<Error> {
    match (f, both) {
        (_, true) => vec![Error::Depth, Error::ChildNumber],
        (Fail::Depth, _) => vec![Error::Depth],
        (Fail::Hardened, _) => vec![Error::ChildNumber],
        (Fail::Crypto, _) => vec![Error::Crypto],
    }
}
fn styled(ph: &str, l: Lang, s: &Style) -> (String, Lang) {
    let mut w: Vec<String> = ph.split(' ').map(|x| x.to_string()).collect();
    let n = w.len();
    let mut lang = l;
    match s {
        Style::Canon | Style::Spaced(_) => {}
        Style::OtherLang => lang = if l == Lang::En { Lang::Zh } else { Lang::En },
        Style::Swap(a, b) => w.swap(*a as usize % n, *b as usize % n),
        Style::DropLast => {
            w.pop();
        }
        Style::Unknown(i) => w[*i as usize % n] = "notaword".into(),
        Style::Word(i, d) => {
            let i = *i as usize % n;
            let x = bip39::index(l, &w[i]).unwrap_or(0);
            w[i] = bip39::words(l)[(x + *d as usize) % 2048].to_string();
        }
    }
    (w.join(" "), lang)
}
fn verdict(text: &str, l: Lang) -> Val {
    match bip39::decode(text, l) {
        Ok(e) => Val::M(e, l),
        Err(f) => {
            let mut v = vec![];
            if f.bad_word {
                v.push(Kind::Word);
            }
            if let Some(n) = f.bad_count {
                v.push(Kind::Count(n));
            }
            if f.bad_checksum {
                v.push(Kind::Checksum);
            }
            Val::No39(v)
        }
    }
}
fn damaged(t: &str, d: u16) -> String {
    let mut b: Vec<u8> = t.bytes().collect();
    match d {
        0..=999 => {}
        1000..=1999 => {
            let i = d as usize % b.len();
            b[i] = if b[i] == b'5' { b'6' } else { b'5' };
        }
        2000..=2099 => {
            b.pop();
        }
        2100..=2199 => b.push(b'1'),
        2200..=2299 => {
            let i = d as usize % (b.len() - 1);
            b.swap(i, i + 1)
        }
        _ => b.clear(),
    }
    String::from_utf8(b).unwrap_or_default()
}

/// tweaks at which the addition goes wrong or is a doubling
fn special(d: u8, key: &[u8; 32]) -> Option<[u8; 32]> {
    Some(match d {
        0..=2 => return None,
        3 | 4 => secp::to_be(&secp::neg(&secp::from_be(key), &secp::N)),
        5 => secp::to_be(&secp::N),
        6 => [0xff; 32],
        _ => *key,
    })
}
impl Model {
    /// The concrete calls an operation stands for, at this point of the history.
    fn resolve(&self, c: &Case, op: &Op) -> Vec<Call> {
        let km = |i: u16| at(i, self.k.len());
        let pm = |i: u16| at(i, self.p.len());
        let mm = |i: u16| at(i, self.m.len());
        let ent = |b: u8, size: u8, flip: &Option<u8>| {
            let mut e = c.ents[b as usize % c.ents.len()].0.to_vec();
            e.truncate([16, 20, 24, 28, 32][size as usize % 5]);
            if let Some(f) = flip {
                let n = e.len();
                e[*f as usize / 8 % n] ^= 0x80 >> (f % 8);
            }
            e
        };
        let phrase = |m: u16, s: &Style| {
            mm(m).map(|i| {
                let (e, l) = &self.m[i];
                styled(&bip39::phrase(e, *l), *l, s)
            })
        };
        let digest = |d: u8| c.digests[d as usize % c.digests.len()].0;
        let one = |o: Option<Call>| o.into_iter().collect::<Vec<_>>();
        match op {
            Op::Create { b, size, lang, flip } => vec![Call::FromEntropy(ent(*b, *size, flip), *lang)],
            Op::Fresh { size, lang } => vec![Call::Fresh([16, 20, 24, 28, 32][*size as usize % 5], *lang)],
            Op::Recover { m, style } => one(phrase(*m, style).map(|(p, l)| match style {
                Style::Spaced(n) => Call::FromPhrase(format!("\t{}\n", p.replace(' ', &gen::WS[*n as usize % gen::WS.len()].to_string())), l),
                _ => Call::FromPhrase(p, l),
            })),
            Op::Validate { m, style } => one(phrase(*m, style).map(|(p, l)| Call::Validate(p, l))),
            Op::Stretch { m, pw, change } => one(mm(*m).map(|i| {
                let mut p = c.pws[*pw as usize % c.pws.len()].clone();
                match change {
                    0 => p.push(' '),
                    1 => p = p.to_uppercase(),
                    2 => {
                        p.pop();
                    }
                    3 => p.insert(0, 'x'),
                    4 => p = nfkd::nfkd(&p),
                    5 => p.push('\0'),
                    _ => {}
                }
                Call::Stretch(i, p)
            })),
            Op::Root { src, path } => match src {
                Src::Pool(i) => one(at(*i, self.s.len()).map(|i| Call::Root(Some(i), self.s[i].clone(), path.clone()))),
                Src::Base { b, len, flip } => {
                    let full = &c.seeds[*b as usize % c.seeds.len()].0;
                    let mut s: Vec<u8> = full.iter().cycle().take([16, 32, 64, 128, 15, 65][*len as usize % 6]).copied().collect();
                    if let Some(f) = flip {
                        let n = s.len();
                        s[*f as usize / 8 % n] ^= 0x80 >> (f % 8);
                    }
                    vec![Call::Root(None, s, path.clone())]
                }
            },
            Op::Child { k, i } => one(km(*k).map(|x| Call::Child(x, *i))),
            Op::PChild { k, i } => one(pm(*k).map(|x| Call::PChild(x, *i))),
            Op::Path { k, path } => one(km(*k).map(|x| Call::Path(x, path.clone()))),
            Op::PPath { k, path } => one(pm(*k).map(|x| Call::PPath(x, path.clone()))),
            Op::Fan { k, i, n } => one(km(*k).map(|x| x as u32 as usize).map(|x| Call::Child(x, *i)))
                .into_iter()
                .flat_map(|cl| {
                    let Call::Child(x, i) = cl else { return vec![] };
                    let up: Vec<Call> = (0..*n as u32).map(|j| Call::Child(x, i.wrapping_add(j))).collect();
                    let down = up.iter().rev().cloned().collect::<Vec<_>>();
                    [up, down].concat()
                })
                .collect(),
            Op::Neuter { k } => one(km(*k).map(Call::Neuter)),
            Op::Twist { k, m } => one(km(*k).map(|x| Call::Make(m.apply(&Key::from_r(&self.k[x])).r()))),
            Op::PTwist { k, m } => one(pm(*k).map(|x| {
                let r = &self.p[x];
                let mut t = Key { key: A([1; 32]), chain: A(r.meta.chain), depth: r.meta.depth, fp: A(r.meta.fp), child: r.meta.child };
                t = m.apply(&t);
                let mut key = r.key;
                match m {
                    Mutation::KeyNeg | Mutation::KeyBit(_) => key[0] ^= 1,
                    Mutation::KeyNew(n) => key = secp::pubkey(&gen::fix_scalar(*n).0).unwrap_or(key),
                    _ => {}
                }
                let meta = if matches!(m, Mutation::Swap) { r.meta.clone() } else { t.r().meta };
                Call::PMake(RPub { key, meta })
            })),
            Op::Text { k, pf } => one(km(*k).map(|x| Call::Text(x, *pf as usize % 4))),
            Op::PText { k, pf } => one(pm(*k).map(|x| Call::PText(x, *pf as usize % 4))),
            Op::Parse { k, damage } => {
                let t = if *damage % 10 == 9 { pm(*k).map(|x| self.p[x].text(PPREFIXES[*damage as usize % 4].1)) } else { km(*k).map(|x| self.k[x].text(PREFIXES[*damage as usize % 4].1)) };
                one(t.map(|t| Call::Parse(damaged(&t, *damage))))
            }
            Op::PParse { k, damage } => {
                let t = if *damage % 10 == 9 { km(*k).map(|x| self.k[x].text(PREFIXES[*damage as usize % 4].1)) } else { pm(*k).map(|x| self.p[x].text(PPREFIXES[*damage as usize % 4].1)) };
                one(t.map(|t| Call::PParse(damaged(&t, *damage))))
            }
            Op::Eq { a, b } => one(km(*a).zip(km(*b)).map(|(a, b)| Call::Eq(a, b))),
            Op::Sign { k, d, flip } => one(km(*k).map(|x| {
                let mut g = digest(*d).to_vec();
                if let Some(f) = flip {
                    g[*f as usize / 8] ^= 0x80 >> (f % 8);
                }
                Call::Sign(x, g)
            })),
            Op::Detect { m } => one(phrase(*m, &Style::Canon).map(|(p, _)| Call::Detect(p))),
            Op::Words { lang, i } => vec![Call::Words(*lang, *i as usize % 2048)],
            Op::PathText { path } => vec![Call::PathText(path.clone())],
            Op::Version { v } => vec![Call::Version(*v)],
            Op::Ripemd { n } => vec![Call::Ripemd((0..*n).map(|i| digest(i)[i as usize % 32]).collect())],
            Op::Tweak { k, d } => one(km(*k).map(|x| Call::Tweak(self.k[x].key, special(*d, &self.k[x].key).unwrap_or_else(|| digest(*d))))),
            Op::PTweak { k, d } => one(pm(*k).map(|x| {
                // the private key, when there is one in this history
                let own = || self.k.iter().rev().take(4).map(|k| k.key).find(|k| secp::compress(&secp::gmul(&secp::from_be(k))) == Some(self.p[x].key));
                let t = if *d < 3 { None } else { special(*d, &own().unwrap_or([1; 32])) };
                Call::PTweak(self.p[x].key, t.unwrap_or_else(|| digest(*d)))
            })),
            Op::Bad { what } => vec![Call::Bad(*what)],
            Op::Renew { k } => one(km(*k).map(Call::Renew)),
            Op::Repeat { back, n } => {
                let Some(i) = at(*back as u16, self.calls.len()) else { return vec![] };
                let cl = self.calls[i].clone();
                let n = (*n).min(weight(&cl));
                vec![cl; n as usize]
            }
        }
    }
    fn want(&mut self, c: &Call) -> Val {
        match c {
            Call::FromEntropy(e, l) => Val::M(e.clone(), *l),
            Call::Fresh(..) => Val::Free,
            Call::FromPhrase(t, l) => verdict(&t.split(|c: char| gen::WS.contains(&c)).filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" "), *l),
            Call::Validate(t, l) => match verdict(t, *l) {
                Val::M(..) => Val::Bool(true),
                v => v,
            },
            Call::Stretch(m, p) => {
                let (e, l) = &self.m[*m];
                let ph = bip39::phrase(e, *l);
                Val::S(self.seeds.entry((ph.clone(), *l, p.clone())).or_insert_with(|| bip39::seed(&ph, *l, p).to_vec()).clone())
            }
            Call::Root(_, s, p) => {
                if ![16, 32, 64, 128].contains(&s.len()) {
                    return Val::No32(vec![Error::SeedLength]);
                }
                match bip32::master(s) {
                    Some(r) => fails(r.path(p), false),
                    None => Val::No32(vec![Error::Crypto]),
                }
            }
            Call::Child(k, i) => fails(self.k[*k].child(*i), false),
            Call::Path(k, p) => fails(self.k[*k].path(p), false),
            Call::PChild(k, i) => self.pres(*k, &[*i]),
            Call::PPath(k, p) => self.pres(*k, p),
            Call::Neuter(k) => Val::P(self.k[*k].neuter()),
            Call::Make(r) => Val::K(r.clone()),
            Call::PMake(r) => Val::P(r.clone()),
            Call::Text(k, f) => Val::Text(self.k[*k].text(PREFIXES[*f].1)),
            Call::PText(k, f) => Val::Text(self.p[*k].text(PPREFIXES[*f].1)),
            Call::Parse(t) => match bip32::parse(t) {
                Some(Parsed::Prv(_, r)) => Val::K(r),
                _ => Val::NoAny,
            },
            Call::PParse(t) => match bip32::parse(t) {
                Some(Parsed::Pub(_, r)) => Val::P(r),
                _ => Val::NoAny,
            },
            Call::Eq(a, b) => Val::Bool(self.k[*a] == self.k[*b]),
            Call::Sign(k, d) => Val::Sig(self.k[*k].key, d.clone(), vec![]),
            Call::Detect(t) => {
                let w = t.split(' ').next().unwrap_or("");
                Val::Text(format!("{:?}", if bip39::index(Lang::En, w).is_some() { Language::English } else { Language::ChineseSimplified }))
            }
            Call::Words(l, i) => {
                let w = bip39::words(*l)[*i];
                let p: String = w.chars().take(2).collect();
                let all: Vec<&str> = bip39::words(*l).iter().copied().filter(|x| x.starts_with(&p)).collect();
                Val::Text(format!("{} {:?}", i, all))
            }
            Call::PathText(p) => Val::Text(format!("{} {:?}", k::path_text(p), p)),
            Call::Version(v) => {
                let t = crate::refs::base58::check_encode(&bip32::payload(*v, &bip32::Meta { depth: 1, fp: [1; 4], child: 1, chain: [1; 32] }, &[2; 33]));
                if t.as_bytes()[..4].iter().all(|c| c.is_ascii_alphabetic()) {
                    Val::Text(format!("{} {}", &t[..4], v))
                } else {
                    Val::NoAny
                }
            }
            Call::Ripemd(b) => Val::Text(hex(&hash::ripemd160(b))),
            Call::Tweak(key, t) => match secp::valid_scalar(t) {
                None => Val::NoAny,
                Some(x) => {
                    let s = secp::add(&x, &secp::from_be(key), &secp::N);
                    if secp::is_zero(&s) {
                        Val::NoAny
                    } else {
                        Val::S(secp::to_be(&s).to_vec())
                    }
                }
            },
            Call::PTweak(p, t) => match secp::valid_scalar(t).and_then(|x| secp::compress(&secp::padd_gmul(&secp::decompress(p), &x))) {
                None => Val::NoAny,
                Some(q) => Val::S(q.to_vec()),
            },
            Call::Bad(_) => Val::NoAny,
            Call::Renew(k) => Val::K(self.k[*k].clone()),
        }
    }
    fn pres(&self, k: usize, p: &[u32]) -> Val {
        let mut r = self.p[k].clone();
        for i in p {
            match r.child(*i) {
                Ok(x) => r = x,
                Err(f) => return Val::No32(fail32(f, r.meta.depth == 255 && *i >> 31 == 1)),
            }
        }
        Val::P(r)
    }
    fn push(&mut self, c: &Call, v: &Val) {
        match v {
            Val::M(e, l) => self.m.push((e.clone(), *l)),
            Val::S(s) if matches!(c, Call::Stretch(..)) => self.s.push(s.clone()),
            Val::K(r) => {
                if let Call::Renew(_) = c {
                    return;
                }
                self.k.push(r.clone())
            }
            Val::P(r) => self.p.push(r.clone()),
            _ => {}
        }
    }
    /// the calls of a list of operations with what each must give
    fn plan(&mut self, c: &Case, ops: &[Op]) -> Vec<(Call, Val)> {
        let mut v = vec![];
        for op in ops {
            for call in self.resolve(c, op) {
                let w = self.want(&call);
                self.push(&call, &w);
                self.calls.push(call.clone());
                v.push((call, w));
            }
        }
        v
    }
}
/// how often a call may be repeated
fn weight(c: &Call) -> u32 {
    match c {
        Call::Stretch(..) => 40,
        Call::Sign(..) | Call::Root(..) | Call::Path(..) | Call::PPath(..) => 800,
        Call::Child(..) | Call::PChild(..) | Call::Neuter(_) | Call::Tweak(..) | Call::PTweak(..) | Call::PMake(_) | Call::PParse(_) => 1500,
        Call::Fresh(..) | Call::FromEntropy(..) | Call::FromPhrase(..) | Call::Text(..) | Call::PText(..) | Call::Parse(_) | Call::Renew(_) => 3000,
        _ => 70_000,
    }
}

#[derive(Default)]
struct Live {
    m: Vec<Mnemonic>,
    s: Vec<Seed>,
    k: Vec<XPrv>,
    p: Vec<XPub>,
}
fn see_m(m: &Mnemonic, want: Option<(&[u8], Lang)>) -> Result<(), String> {
    let l = if m.language() == Language::English { Lang::En } else { Lang::Zh };
    let e = m.entropy().to_vec();
    if let Some((we, wl)) = want {
        ensure!(e == we && l == wl, "mnemonic holds {} {:?}, expected {} {:?}", hex(&e), l, hex(we), wl);
    }
    let ph = bip39::phrase(&e, l);
    ensure!(m.phrase() == ph, "mnemonic of {} reads {:?}, expected {:?}", hex(&e), m.phrase(), ph);
    Ok(())
}
fn e32<T>(r: Result<T, Error>, want: &Val, what: &str) -> Result<Option<T>, String> {
    match (r, want) {
        (Ok(x), Val::No32(_) | Val::NoAny) => {
            drop(x);
            Err(format!("{} succeeded, expected {:?}", what, want))
        }
        (Ok(x), _) => Ok(Some(x)),
        (Err(e), Val::No32(v)) if v.contains(&e) => Ok(None),
        (Err(_), Val::NoAny) => Ok(None),
        (Err(e), _) => Err(format!("{} gave error {:?}, expected {:?}", what, e, want)),
    }
}
fn e39<T>(r: Result<T, anyhow::Error>, want: &Val) -> Result<Option<T>, String> {
    match (r, want) {
        (Ok(_), Val::No39(_)) => Err(format!("succeeded, expected {:?}", want)),
        (Ok(x), _) => Ok(Some(x)),
        (Err(e), Val::No39(v)) if v.contains(&k::kind(&e)) => Ok(None),
        (Err(e), _) => Err(format!("gave {:?}, expected {:?}", k::kind(&e), want)),
    }
}
type Sigs = Vec<([u8; 32], Vec<u8>, Vec<u8>)>;

/// Make the call on live values and judge its result. `keep`: add the value it makes to the pool.
fn exec(c: &Call, w: &Val, l: &mut Live, sigs: &mut Sigs, keep: bool) -> Out {
    let bad = |g: String| Err(format!("got {}, expected {:?}", g, w));
    match c {
        Call::FromEntropy(e, la) => {
            let m = k::mnemonic(e, *la)?;
            see_m(&m, Some((e, *la)))?;
            if keep {
                l.m.push(m)
            }
        }
        Call::Fresh(n, la) => {
            let t = MnemonicType::for_key_size(n * 8).map_err(|e| e.to_string())?;
            let m = Mnemonic::new(t, k::lang(*la));
            ensure!(m.entropy().len() == *n && m.language() == k::lang(*la), "a fresh mnemonic has {} bytes", m.entropy().len());
            see_m(&m, None)?;
        }
        Call::FromPhrase(t, la) => {
            if let Some(m) = e39(Mnemonic::from_phrase(t, k::lang(*la)), w)? {
                let Val::M(e, wl) = w else { return bad("a mnemonic".into()) };
                see_m(&m, Some((e, *wl)))?;
                if keep {
                    l.m.push(m)
                }
            }
        }
        Call::Validate(t, la) => {
            e39(Mnemonic::validate(t, k::lang(*la)), w)?;
        }
        Call::Stretch(m, p) => {
            let s = Seed::new(&l.m[*m], p);
            let Val::S(v) = w else { return bad("a seed".into()) };
            ensure!(s.as_bytes() == v, "seed {}, expected {}", hex(s.as_bytes()), hex(v));
            if keep {
                l.s.push(s)
            }
        }
        Call::Root(i, s, p) => {
            let r = match i {
                Some(i) if p.is_empty() => XPrv::new(&l.s[*i]),
                Some(i) => XPrv::new_from_path(&l.s[*i], &k::path(p)),
                None if p.is_empty() => XPrv::new(s),
                None => XPrv::new_from_path(s, &k::path(p)),
            };
            keep_k(e32(r, w, "root")?, w, l, keep)?
        }
        Call::Child(i, n) => {
            let r = l.k[*i].derive_child(ChildNumber(*n));
            keep_k(e32(r, w, "child")?, w, l, keep)?
        }
        Call::Path(i, p) => {
            let r = l.k[*i].clone().derive_from_path(&k::path(p));
            keep_k(e32(r, w, "path")?, w, l, keep)?
        }
        Call::PChild(i, n) => {
            let r = l.p[*i].derive_child(ChildNumber(*n));
            keep_p(e32(r, w, "public child")?, w, l, keep)?
        }
        Call::PPath(i, p) => {
            let r = l.p[*i].clone().derive_from_path(&k::path(p));
            keep_p(e32(r, w, "public path")?, w, l, keep)?
        }
        Call::Neuter(i) => {
            let r = l.k[*i].public_key();
            keep_p(Some(r), w, l, keep)?
        }
        Call::Make(r) => keep_k(Some(k::xprv_r(r)?), w, l, keep)?,
        Call::PMake(r) => keep_p(Some(k::xpub_r(r)?), w, l, keep)?,
        Call::Text(i, f) => {
            let t = l.k[*i].to_string(PREFIXES[*f].0);
            ensure!(*w == Val::Text(t.to_string()), "text {:?}, expected {:?}", *t, w)
        }
        Call::PText(i, f) => {
            let t = l.p[*i].to_string(PPREFIXES[*f].0);
            ensure!(*w == Val::Text(t.clone()), "text {:?}, expected {:?}", t, w)
        }
        Call::Parse(t) => {
            let r = t.parse::<XPrv>();
            keep_k(e32(r, w, "parsing")?, w, l, keep)?
        }
        Call::PParse(t) => {
            let r = t.parse::<XPub>();
            keep_p(e32(r, w, "parsing")?, w, l, keep)?
        }
        Call::Eq(a, b) => {
            let g = l.k[*a] == l.k[*b];
            ensure!(*w == Val::Bool(g), "== says {}, expected {:?}", g, w)
        }
        Call::Sign(i, d) => match kms::ecdsa_sign(l.k[*i].private_key(), d) {
            Ok((s, r)) => {
                let mut v = s.to_vec();
                v.push(r);
                let Val::Sig(key, _, _) = w else { return bad("a signature".into()) };
                sigs.push((*key, d.clone(), v))
            }
            Err(_) => return bad("a refusal".into()),
        },
        Call::Detect(t) => {
            let g = Language::from_phrase(t).map(|x| format!("{:?}", x)).unwrap_or_default();
            ensure!(*w == Val::Text(g.clone()), "language {}, expected {:?}", g, w)
        }
        Call::Words(la, i) => {
            let lg = k::lang(*la);
            let word = lg.wordlist().get_word((*i as u16).into());
            let p: String = word.chars().take(2).collect();
            let back = lg.wordmap().get_bits(word).ok().map(|b| lg.wordlist().get_word(b)).and_then(|w| bip39::index(*la, w)).unwrap_or(9999);
            let g = format!("{} {:?}", back, lg.wordlist().get_words_by_prefix(&p));
            ensure!(*w == Val::Text(g.clone()), "words {}, expected {:?}", g, w)
        }
        Call::PathText(p) => {
            let d = k::path(p);
            let t = d.to_string();
            let b: Vec<u32> = match t.parse::<DerivationPath>() {
                Ok(x) => x.iter().map(|c| c.0).collect(),
                Err(e) => return bad(format!("{:?} for {:?}", e, t)),
            };
            let g = format!("{} {:?}", t, b);
            ensure!(*w == Val::Text(g.clone()), "path {}, expected {:?}", g, w)
        }
        Call::Version(v) => {
            if let Some(p) = e32(Prefix::try_from(*v), w, "version")? {
                let g = format!("{} {}", p.as_str(), p.version());
                ensure!(*w == Val::Text(g.clone()), "prefix {}, expected {:?}", g, w)
            }
        }
        Call::Ripemd(b) => {
            let g = kms::crypto::ripemd(b);
            ensure!(*w == Val::Text(g.clone()), "ripemd {}, expected {:?}", g, w)
        }
        Call::Tweak(key, t) => {
            let sk = <libsecp256k1::SecretKey as PrivateKey>::from_bytes(key).map_err(|e| format!("valid key refused: {:?}", e))?;
            if let Some(x) = e32(PrivateKey::derive_child(&sk, *t), w, "tweak")? {
                let g = PrivateKey::to_bytes(&x).to_vec();
                ensure!(*w == Val::S(g.clone()), "tweaked key {}, expected {:?}", hex(&g), w)
            }
        }
        Call::PTweak(key, t) => {
            let pk = <libsecp256k1::PublicKey as PublicKey>::from_bytes(*key).map_err(|e| format!("valid key refused: {:?}", e))?;
            if let Some(x) = e32(PublicKey::derive_child(&pk, *t), w, "tweak")? {
                let g = PublicKey::to_bytes(&x).to_vec();
                ensure!(*w == Val::S(g.clone()), "tweaked key {}, expected {:?}", hex(&g), w)
            }
        }
        Call::Bad(n) => {
            // calls that must be refused; what they leave behind must not matter
            let one = match libsecp256k1::SecretKey::parse(&[1; 32]) {
                Ok(s) => s,
                Err(_) => return Ok(()),
            };
            let ok = match n % 12 {
                0 => kms::ecdsa_sign(&one, &[3; 31]).is_ok(),
                1 => PrivateKey::derive_child(&one, [0xff; 32]).is_ok(),
                2 => <libsecp256k1::SecretKey as PrivateKey>::from_bytes(&[0; 32]).is_ok(),
                3 => <libsecp256k1::PublicKey as PublicKey>::from_bytes([2; 33]).is_ok() && secp::compress(&secp::decompress(&[2; 33])).is_none(),
                4 => Mnemonic::from_entropy(&[1; 17], Language::English).is_ok(),
                5 => "m/2147483648".parse::<DerivationPath>().is_ok(),
                6 => "0''".parse::<ChildNumber>().is_ok(),
                7 => "xprv".parse::<XPrv>().is_ok(),
                8 => Mnemonic::from_phrase("abandon ability able about zzz", Language::English).is_ok(),
                9 => Mnemonic::validate("", Language::ChineseSimplified).is_ok(),
                10 => XPrv::new([0u8; 20]).is_ok(),
                _ => Prefix::try_from(0u32).is_ok(),
            };
            ensure!(!ok, "refused call number {} was accepted", n % 12)
        }
        Call::Renew(i) => {
            let x = l.k[*i].clone();
            let Val::K(r) = w else { return bad("a key".into()) };
            k::cmp_prv(&x, r, "clone")?;
            l.k[*i] = x;
        }
    }
    Ok(())
}
fn keep_k(x: Option<XPrv>, w: &Val, l: &mut Live, keep: bool) -> Out {
    let Some(x) = x else { return Ok(()) };
    let Val::K(r) = w else { return Err(format!("got {:?}, expected {:?}", k::see_prv(&x), w)) };
    k::cmp_prv(&x, r, "private key")?;
    if keep {
        l.k.push(x)
    }
    Ok(())
}
fn keep_p(x: Option<XPub>, w: &Val, l: &mut Live, keep: bool) -> Out {
    let Some(x) = x else { return Ok(()) };
    let Val::P(r) = w else { return Err(format!("got {:?}, expected {:?}", k::see_pub(&x), w)) };
    k::cmp_pub(&x, r, "public key")?;
    if keep {
        l.p.push(x)
    }
    Ok(())
}
fn brief(c: &Call) -> String {
    format!("{:?}", c).chars().take(160).collect()
}
fn run_all(plan: &[(Call, Val)], l: &mut Live, sigs: &mut Sigs, at: &str) -> Out {
    for (i, (c, w)) in plan.iter().enumerate() {
        exec(c, w, l, sigs, true).map_err(|m| format!("{} call {} {}: {}", at, i, brief(c), m))?;
    }
    Ok(())
}
/// Every value made so far still is what it was.
fn recheck(m: &Model, l: &Live) -> Out {
    for (a, b) in l.m.iter().zip(&m.m) {
        see_m(a, Some((&b.0, b.1))).map_err(|e| format!("at the end: {}", e))?;
    }
    for (a, b) in l.s.iter().zip(&m.s) {
        ensure!(a.as_bytes() == b, "at the end: seed reads {}, expected {}", hex(a.as_bytes()), hex(b));
    }
    for (a, b) in l.k.iter().zip(&m.k) {
        k::cmp_prv(a, b, "at the end")?;
    }
    for (a, b) in l.p.iter().zip(&m.p) {
        k::cmp_pub(a, b, "at the end")?;
    }
    Ok(())
}
fn judge_sigs(sigs: &Sigs, book: &mut HashMap<([u8; 32], Vec<u8>), Vec<u8>>) -> Out {
    for (key, d, s) in sigs {
        if let Some(b) = book.get(&(*key, d.clone())) {
            ensure!(b == s, "signing {} with {} gave {} and {}", hex(d), hex(key), hex(b), hex(s));
            continue;
        }
        let z: [u8; 32] = d.clone().try_into().map_err(|_| "digest length".to_string())?;
        let (r, sv) = (secp::from_be(s[..32].try_into().unwrap()), secp::from_be(s[32..64].try_into().unwrap()));
        let q = secp::decompress(&secp::pubkey(key).ok_or("reference key")?);
        ensure!(secp::ecdsa_verify(&q, &z, &r, &sv) && !secp::is_high(&sv), "signature {} by {} on {} is wrong", hex(s), hex(key), hex(d));
        ensure!(secp::ecdsa_recover(&z, &r, &sv, s[64]) == q, "recovery id of {} by {} on {} is wrong", hex(s), hex(key), hex(d));
        book.insert((*key, d.clone()), s.clone());
    }
    Ok(())
}

fn run_case(c: &Case) -> Result<(u64, Sigs), String> {
    run_case_with(c, &mut |_| {})
}
/// `last` sees the values made before they are dropped
fn run_case_with(c: &Case, last: &mut dyn FnMut(&Live)) -> Result<(u64, Sigs), String> {
    let mut model = Model::default();
    let pre = model.plan(c, &c.pre);
    // concurrent phase, planned before anything of the library runs
    let lists: Vec<Vec<(Call, Val)>> = if c.threads.is_empty() {
        vec![]
    } else {
        (0..c.threads.len())
            .map(|t| {
                let ops = if c.same { &c.threads[0] } else { &c.threads[t] };
                let mut m = Model { seeds: model.seeds.clone(), ..Model::default() };
                let p = m.plan(c, ops);
                model.seeds = m.seeds;
                p
            })
            .collect()
    };
    let mut live = Live::default();
    let mut sigs: Sigs = vec![];
    let mut n = pre.len() as u64;
    run_all(&pre, &mut live, &mut sigs, "before the threads,")?;
    if !lists.is_empty() {
        let bar = std::sync::Barrier::new(lists.len());
        let rounds = c.rounds.max(1) as usize;
        let res: Vec<Result<Sigs, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = lists
                .iter()
                .enumerate()
                .map(|(t, p)| {
                    let bar = &bar;
                    s.spawn(move || {
                        let mut sg: Sigs = vec![];
                        let mut out = Ok(());
                        for r in 0..rounds {
                            bar.wait();
                            if out.is_ok() {
                                let mut l = Live::default();
                                out = match guarded(|| {
                                    run_all(p, &mut l, &mut sg, &format!("thread {} round {},", t, r))?;
                                    // the same calls again, in reverse
                                    for (c, w) in p.iter().rev() {
                                        exec(c, w, &mut l, &mut sg, false).map_err(|m| format!("thread {} round {}, repeated {}: {}", t, r, brief(c), m))?;
                                    }
                                    Ok(())
                                }) {
                                    Ran::Ok => Ok(()),
                                    Ran::Fail(m) | Ran::Harness(m) => Err(m),
                                };
                            }
                        }
                        out.map(|_| sg)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread died".into()))).collect()
        });
        n += 2 * rounds as u64 * lists.iter().map(|l| l.len() as u64).sum::<u64>();
        for r in res {
            sigs.extend(r?);
        }
    }
    let post = model.plan(c, &c.post);
    n += post.len() as u64;
    run_all(&post, &mut live, &mut sigs, "after,")?;
    recheck(&model, &live)?;
    // the whole history again, backwards, on the values that are there
    let mut seen: Vec<&Call> = vec![];
    for (cl, w) in pre.iter().chain(&post).rev() {
        if seen.last() == Some(&cl) {
            continue;
        }
        seen.push(cl);
        exec(cl, w, &mut live, &mut sigs, false).map_err(|m| format!("repeated at the end, {}: {}", brief(cl), m))?;
        n += 1;
    }
    recheck(&model, &live)?;
    last(&live);
    let mut book = HashMap::new();
    judge_sigs(&sigs, &mut book)?;
    let mut all: Sigs = book.into_iter().map(|((k, d), s)| (k, d, s)).collect();
    all.sort();
    Ok((n, all))
}

/// helper process: runs one case given on stdin
pub fn helper() -> i32 {
    let c: Case = match serde_json::from_reader(std::io::stdin()) {
        Ok(c) => c,
        Err(e) => {
            println!("HARNESS {}", e);
            return 3;
        }
    };
    crate::engine::install_hook();
    let mut res = None;
    match guarded(|| {
        res = Some(run_case(&c)?);
        Ok(())
    }) {
        Ran::Ok => {
            let (n, sigs) = res.unwrap_or_default();
            for (k, d, s) in sigs {
                println!("SIG {} {} {}", hex(&k), hex(&d), hex(&s));
            }
            println!("OK {}", n)
        }
        Ran::Fail(m) => println!("BAD {}", m.replace('\n', " ")),
        Ran::Harness(m) => println!("HARNESS {}", m),
    }
    0
}
/// helper process: one signature per line of stdin, nothing else
pub fn sign_helper() -> i32 {
    let mut s = String::new();
    let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut s);
    for line in s.lines() {
        let f: Vec<&str> = line.split(' ').collect();
        let sk = libsecp256k1::SecretKey::parse_slice(&unhex(f[0]));
        match sk.map(|k| kms::ecdsa_sign(&k, &unhex(f[1]))) {
            Ok(Ok((g, r))) => println!("{}{:02x}", hex(&g), r),
            _ => println!("-"),
        }
    }
    0
}
fn talk(cmd: &str, input: String) -> Result<(String, std::process::ExitStatus), String> {
    let exe = std::env::current_exe().expect("own path");
    let mut ch = Command::new(exe).arg(cmd).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("start helper");
    let mut i = ch.stdin.take().expect("stdin");
    let w = std::thread::spawn(move || {
        let _ = i.write_all(input.as_bytes());
    });
    let o = ch.wait_with_output().expect("helper");
    let _ = w.join();
    Ok((String::from_utf8_lossy(&o.stdout).to_string(), o.status))
}
fn judge(c: &Case, obs: &mut crate::engine::Obs) -> Out {
    let (out, st) = talk("state-run", serde_json::to_string(c).unwrap())?;
    let last = out.lines().last().unwrap_or("");
    if let Some(m) = last.strip_prefix("BAD ") {
        return Err(m.to_string());
    }
    if let Some(m) = last.strip_prefix("HARNESS ") {
        panic!("{}", m);
    }
    let Some(n) = last.strip_prefix("OK ") else {
        return Err(format!("the process running the history ended early ({:?})", st));
    };
    obs.extra = n.parse::<u64>().unwrap_or(0).saturating_sub(1);
    let sigs: Vec<Vec<&str>> = out.lines().filter_map(|l| l.strip_prefix("SIG ")).map(|l| l.split(' ').collect()).collect();
    if !sigs.is_empty() {
        obs.label("signatures repeated alone");
        let req: String = sigs.iter().rev().map(|s| format!("{} {}\n", s[0], s[1])).collect();
        let (o, _) = talk("state-sign", req)?;
        for (s, g) in sigs.iter().rev().zip(o.lines()) {
            ensure!(s[2] == g, "signing {} with {} gave {} in the history and {} alone", s[1], s[0], s[2], g);
        }
    }
    Ok(())
}

fn style() -> BoxedStrategy<Style> {
    prop_oneof![
        4 => Just(Style::Canon),
        2 => any::<u8>().prop_map(Style::Spaced),
        1 => Just(Style::OtherLang),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Style::Swap(a, b)),
        1 => Just(Style::DropLast),
        1 => any::<u8>().prop_map(Style::Unknown),
        2 => (any::<u8>(), prop_oneof![Just(1u16), Just(256), any::<u16>()]).prop_map(|(a, b)| Style::Word(a, b)),
    ]
    .boxed()
}
fn src() -> BoxedStrategy<Src> {
    prop_oneof![
        2 => (0u16..6).prop_map(Src::Pool),
        3 => (0u8..3, prop_oneof![4 => 0u8..4, 1 => 0u8..6], proptest::option::weighted(0.3, any::<u16>())).prop_map(|(b, len, flip)| Src::Base { b, len, flip }),
    ]
    .boxed()
}
/// indices of which the same few come back often
fn few() -> BoxedStrategy<u32> {
    prop_oneof![4 => 0u32..3, 3 => (0u32..3).prop_map(|i| i | 1 << 31), 2 => gen::idx()].boxed()
}
fn fpath() -> BoxedStrategy<Vec<u32>> {
    prop_oneof![1 => Just(vec![]), 5 => proptest::collection::vec(few(), 1..5)].boxed()
}
fn sel() -> BoxedStrategy<u16> {
    prop_oneof![3 => 0u16..3, 2 => 0u16..10, 1 => any::<u16>()].boxed()
}
fn op(soak: bool) -> BoxedStrategy<Op> {
    let reps: BoxedStrategy<u32> = if soak { prop_oneof![1 => 200u32..1100, 2 => 1000u32..5000, 1 => 60_000u32..70_000].boxed() } else { (1u32..6).boxed() };
    let fan: BoxedStrategy<u8> = if soak { prop_oneof![3u8..20, 60u8..=255].boxed() } else { (2u8..12).boxed() };
    let rw = if soak { 30 } else { 8 };
    prop_oneof![
        rw => (prop_oneof![3 => 0u8..4, 1 => any::<u8>()], reps).prop_map(|(back, n)| Op::Repeat { back, n }),
        8 => (0u8..3, 0u8..5, gen::lang(), proptest::option::weighted(0.3, any::<u8>())).prop_map(|(b, size, lang, flip)| Op::Create { b, size, lang, flip }),
        2 => (0u8..5, gen::lang()).prop_map(|(size, lang)| Op::Fresh { size, lang }),
        5 => (sel(), style()).prop_map(|(m, style)| Op::Recover { m, style }),
        3 => (sel(), style()).prop_map(|(m, style)| Op::Validate { m, style }),
        6 => (sel(), 0u8..3, 0u8..16).prop_map(|(m, pw, change)| Op::Stretch { m, pw, change }),
        10 => (src(), fpath()).prop_map(|(src, path)| Op::Root { src, path }),
        14 => (sel(), few()).prop_map(|(k, i)| Op::Child { k, i }),
        10 => (sel(), few()).prop_map(|(k, i)| Op::PChild { k, i }),
        4 => (sel(), fpath()).prop_map(|(k, path)| Op::Path { k, path }),
        3 => (sel(), fpath()).prop_map(|(k, path)| Op::PPath { k, path }),
        2 => (sel(), few(), fan).prop_map(|(k, i, n)| Op::Fan { k, i, n }),
        8 => sel().prop_map(|k| Op::Neuter { k }),
        10 => (sel(), gen::mutation()).prop_map(|(k, m)| Op::Twist { k, m }),
        5 => (sel(), gen::mutation()).prop_map(|(k, m)| Op::PTwist { k, m }),
        3 => (sel(), any::<u8>()).prop_map(|(k, pf)| Op::Text { k, pf }),
        3 => (sel(), any::<u8>()).prop_map(|(k, pf)| Op::PText { k, pf }),
        4 => (sel(), 0u16..2400).prop_map(|(k, damage)| Op::Parse { k, damage }),
        4 => (sel(), 0u16..2400).prop_map(|(k, damage)| Op::PParse { k, damage }),
        3 => (sel(), sel()).prop_map(|(a, b)| Op::Eq { a, b }),
        6 => (sel(), 0u8..3, proptest::option::weighted(0.3, any::<u8>())).prop_map(|(k, d, flip)| Op::Sign { k, d, flip }),
        1 => sel().prop_map(|m| Op::Detect { m }),
        1 => (gen::lang(), any::<u16>()).prop_map(|(lang, i)| Op::Words { lang, i }),
        2 => fpath().prop_map(|path| Op::PathText { path }),
        1 => prop_oneof![Just(0x0488ade4u32), Just(0x0488b21e), any::<u32>()].prop_map(|v| Op::Version { v }),
        1 => (0u8..130).prop_map(|n| Op::Ripemd { n }),
        2 => (sel(), 0u8..8).prop_map(|(k, d)| Op::Tweak { k, d }),
        2 => (sel(), 0u8..8).prop_map(|(k, d)| Op::PTweak { k, d }),
        4 => any::<u8>().prop_map(|what| Op::Bad { what }),
        2 => sel().prop_map(|k| Op::Renew { k }),
    ]
    .boxed()
}
fn base() -> BoxedStrategy<Case> {
    (
        proptest::collection::vec(gen::b32(), 1..3),
        proptest::collection::vec(gen::bytes_pat(128).prop_map(B), 1..3),
        proptest::collection::vec(prop_oneof![gen::password(), gen::ustring(6)], 1..3),
        proptest::collection::vec(gen::b32(), 1..3),
    )
        .prop_map(|(ents, seeds, pws, digests)| Case { ents, seeds, pws, digests, pre: vec![], threads: vec![], same: false, rounds: 0, post: vec![] })
        .boxed()
}
/// something to work with at the start of a history
fn start() -> BoxedStrategy<Vec<Op>> {
    (gen::lang(), any::<bool>(), any::<bool>())
        .prop_map(|(lang, a, b)| {
            let mut v = vec![];
            if a {
                v.push(Op::Create { b: 0, size: 0, lang, flip: None });
            }
            if b || !a {
                v.push(Op::Root { src: Src::Base { b: 0, len: 2, flip: None }, path: vec![] });
                v.push(Op::Neuter { k: 0 });
            }
            v
        })
        .boxed()
}
fn ops(n: std::ops::Range<usize>, soak: bool) -> BoxedStrategy<Vec<Op>> {
    (start(), proptest::collection::vec(op(soak), n)).prop_map(|(mut s, o)| { s.extend(o); s }).boxed()
}

/// What is asked with either of two values.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Ask {
    SignKey,
    SignDigest,
    Entropy(u8),
    Phrase(u8),
    Password,
    StretchPhrase(u8),
    Seed(u8),
    SeedPath(u8),
    ChildKey,
    ChildChain,
    PathKey,
    PathChain,
    PChildChain,
    PChildKey,
    PPathKey,
    PPathChain,
    Neuter,
    Text,
    Parse,
    PParse,
    TweakKey,
    Tweak,
    PTweakKey,
    PTweak,
    Equal,
    Ripemd,
}
fn ask() -> BoxedStrategy<Ask> {
    use Ask::*;
    prop_oneof![
        3 => Just(SignKey), 3 => Just(SignDigest), 2 => (0u8..5).prop_map(Entropy), 2 => (0u8..5).prop_map(Phrase), 1 => Just(Password), 1 => (0u8..5).prop_map(StretchPhrase),
        3 => (0u8..4).prop_map(Seed), 2 => (0u8..4).prop_map(SeedPath), 3 => Just(ChildKey), 3 => Just(ChildChain), 2 => Just(PathKey), 2 => Just(PathChain), 2 => Just(PChildChain), 2 => Just(PChildKey),
        2 => Just(PPathKey), 2 => Just(PPathChain), 3 => Just(Neuter), 2 => Just(Text), 2 => Just(Parse), 2 => Just(PParse), 2 => Just(TweakKey), 2 => Just(Tweak), 2 => Just(PTweakKey), 2 => Just(PTweak),
        2 => Just(Equal), 2 => Just(Ripemd),
    ]
    .boxed()
}
/// Ask with the first, the second, both again: the answers are each one's own.
fn clashes(a: Ask, v: [[u8; 32]; 2], key: &gen::Key, lang: Lang, p: &[u32], i: u32) -> Out {
    use Ask::*;
    let mut book = HashMap::new();
    let size = |n: u8| [16usize, 20, 24, 28, 32][n as usize % 5];
    let path = if p.is_empty() { vec![i] } else { p.to_vec() };
    let ppath: Vec<u32> = path.iter().map(|x| x & 0x7fff_ffff).collect();
    let text7 = |v: &[u8; 32]| v.iter().map(|b| char::from(32 + b % 95)).collect::<String>();
    let mut memo: Vec<Option<Vec<u8>>> = vec![None, None];
    // whose turn it is
    for (turn, who) in [0usize, 1, 0, 1, 1, 0].into_iter().enumerate() {
        let x = &v[who];
        let own = |k33: bool| -> gen::Key {
            let mut q = key.clone();
            q.depth = q.depth.min(200);
            if k33 {
                q.key = gen::fix_scalar(A(*x));
            } else {
                q.chain = A(*x);
            }
            q.fix()
        };
        let what = format!("turn {} of {:?}", turn, a);
        let one_k = |g: Result<XPrv, kms::bip32::Error>, w: Result<RPrv, Fail>| -> Out {
            match (g, w) {
                (Ok(g), Ok(w)) => k::cmp_prv(&g, &w, &what),
                (Err(_), Err(_)) => Ok(()),
                (g, w) => Err(format!("{}: {}, expected {:?}", what, if g.is_ok() { "a key" } else { "a refusal" }, w.map(|_| ()))),
            }
        };
        let one_p = |g: Result<XPub, kms::bip32::Error>, w: Result<RPub, Fail>| -> Out {
            match (g, w) {
                (Ok(g), Ok(w)) => k::cmp_pub(&g, &w, &what),
                (Err(_), Err(_)) => Ok(()),
                (g, w) => Err(format!("{}: {}, expected {:?}", what, if g.is_ok() { "a key" } else { "a refusal" }, w.map(|_| ()))),
            }
        };
        let seed = |n: u8| -> Vec<u8> {
            let n = [16usize, 32, 64, 128][n as usize % 4];
            // the rest is the same for both; sometimes it comes first
            let mut s: Vec<u8> = x[..n.min(32)].to_vec();
            let rest: Vec<u8> = key.chain.0.iter().cycle().take(n - s.len()).copied().collect();
            if i & 1 == 0 {
                s.extend(rest);
                s
            } else {
                [rest, s].concat()
            }
        };
        match a {
            SignKey | SignDigest => {
                let (kb, d) = if a == SignKey { (own(true).key.0, key.chain.0) } else { (key.key.0, *x) };
                let sk = libsecp256k1::SecretKey::parse(&kb).map_err(|e| format!("{:?}", e))?;
                let (s, rec) = kms::ecdsa_sign(&sk, &d).map_err(|e| format!("{}: not signed: {}", what, e))?;
                let mut sv = s.to_vec();
                sv.push(rec);
                judge_sigs(&vec![(kb, d.to_vec(), sv)], &mut book).map_err(|e| format!("{}: {}", what, e))?;
            }
            Entropy(n) => {
                let m = k::mnemonic(&x[..size(n)], lang)?;
                same!(m.phrase(), bip39::phrase(&x[..size(n)], lang), "{}: phrase", what);
                same!(m.entropy(), &x[..size(n)], "{}: entropy", what);
            }
            Phrase(n) => {
                let ph = bip39::phrase(&x[..size(n)], lang);
                let m = Mnemonic::from_phrase(&ph, k::lang(lang)).map_err(|e| format!("{}: {}", what, e))?;
                same!(m.phrase(), &ph[..], "{}: phrase", what);
                same!(m.entropy(), &x[..size(n)], "{}: entropy", what);
            }
            Password | StretchPhrase(_) => {
                if turn > 3 {
                    break;
                }
                let (e, pw) = if let StretchPhrase(n) = a { (&x[..size(n)], text7(&key.chain.0)) } else { (&key.chain.0[..16], text7(x)) };
                let m = k::mnemonic(e, lang)?;
                let w = memo[who].get_or_insert_with(|| bip39::seed(&bip39::phrase(e, lang), lang, &pw).to_vec()).clone();
                same!(kms::bip39::Seed::new(&m, &pw).as_bytes(), &w[..], "{}: seed", what);
            }
            Seed(n) => {
                let s = seed(n);
                one_k(XPrv::new(&s), crate::refs::bip32::master(&s).ok_or(Fail::Crypto))?
            }
            SeedPath(n) => {
                let s = seed(n);
                one_k(XPrv::new_from_path(&s, &k::path(&path)), crate::refs::bip32::master(&s).ok_or(Fail::Crypto).and_then(|m| m.path(&path)))?
            }
            ChildKey | ChildChain => {
                let q = own(a == ChildKey);
                one_k(k::xprv(&q)?.derive_child(ChildNumber(i)), q.r().child(i))?
            }
            PathKey | PathChain => {
                let q = own(a == PathKey);
                one_k(k::xprv(&q)?.derive_from_path(&k::path(&path)), q.r().path(&path))?
            }
            PChildKey | PChildChain => {
                let q = own(a == PChildKey).r().neuter();
                let i = i & 0x7fff_ffff;
                one_p(k::xpub_r(&q)?.derive_child(ChildNumber(i)), q.child(i))?
            }
            PPathKey | PPathChain => {
                let q = own(a == PPathKey).r().neuter();
                one_p(k::xpub_r(&q)?.derive_from_path(&k::path(&ppath)), q.path(&ppath))?
            }
            Neuter => {
                let q = own(true);
                one_p(Ok(k::xprv(&q)?.public_key()), Ok(q.r().neuter()))?
            }
            Text => {
                let q = own(i & 1 == 0);
                same!(*k::xprv(&q)?.to_string(Prefix::XPRV), q.r().text(0x0488ade4), "{}", what);
                same!(k::xpub_r(&q.r().neuter())?.to_string(Prefix::XPUB), q.r().neuter().text(0x0488b21e), "{}", what);
            }
            Parse => {
                // the layout clash.txt knows, or any
                let q = if i & 1 == 0 { RPrv { key: [1; 32], meta: crate::clash::meta_of(x) } } else { own(i & 2 == 0).r() };
                one_k(q.text(0x0488ade4).parse(), Ok(q))?
            }
            PParse => {
                let q = own(i & 1 == 0).r().neuter();
                one_p(q.text(0x0488b21e).parse(), Ok(q))?
            }
            TweakKey | Tweak => {
                let (kb, t) = if a == TweakKey { (own(true).key.0, key.chain.0) } else { (key.key.0, *x) };
                let sk = <libsecp256k1::SecretKey as PrivateKey>::from_bytes(&kb).map_err(|e| format!("{}: {:?}", what, e))?;
                let w = secp::valid_scalar(&t).map(|t| secp::add(&secp::from_be(&kb), &t, &secp::N)).filter(|s| !secp::is_zero(s)).map(|s| secp::to_be(&s));
                if secp::valid_scalar(&t).is_none() {
                    continue;
                }
                same!(PrivateKey::derive_child(&sk, t).ok().map(|x| PrivateKey::to_bytes(&x)), w, "{}", what);
            }
            PTweakKey | PTweak => {
                let (kb, t) = if a == PTweakKey { (own(true).key.0, key.chain.0) } else { (key.key.0, *x) };
                let (Some(pb), Some(tv)) = (secp::pubkey(&kb), secp::valid_scalar(&t)) else { continue };
                let pk = <libsecp256k1::PublicKey as PublicKey>::from_bytes(pb).map_err(|e| format!("{}: {:?}", what, e))?;
                let w = secp::compress(&secp::padd_gmul(&secp::decompress(&pb), &tv));
                same!(PublicKey::derive_child(&pk, t).ok().map(|x| PublicKey::to_bytes(&x)), w, "{}", what);
            }
            Equal => {
                for f in [true, false] {
                    let (q, mut o) = (own(f), key.clone());
                    o.depth = o.depth.min(200);
                    if f {
                        o.key = gen::fix_scalar(A(v[1 - who]));
                    } else {
                        o.chain = A(v[1 - who]);
                    }
                    let o = o.fix();
                    let w = q.r() == o.r();
                    same!(k::xprv(&q)? == k::xprv(&o)?, w, "{}: equality", what);
                    same!(k::xpub_r(&q.r().neuter())? == k::xpub_r(&o.r().neuter())?, q.r().neuter() == o.r().neuter(), "{}: equality of public keys", what);
                }
            }
            Ripemd => same!(kms::crypto::ripemd(x), hex(&crate::refs::hash::ripemd160(x)), "{}", what),
        }
    }
    Ok(())
}

pub fn p20(r: &mut Run) {
    r.sub(
        "histories",
        "a history of up to 60 operations on a growing pool of mnemonics, seeds and keys, in a process of its own; operands are related (one bit, one field, same prefix, other language, other password), operations repeat and refused calls are interleaved; each result against the reference, all values rechecked at the end, all calls made again backwards, signatures made again alone in a new process; non-trivial = at least 8 operations (every call counts as an evaluation)",
        1_600,
        120_000,
        || (base(), ops(4..60, false)).prop_map(|(mut c, o)| { c.pre = o; c }),
        |c, o| {
            o.nt_if(c.pre.len() >= 8);
            o.label_if(c.pre.iter().any(|x| matches!(x, Op::Stretch { .. })), "stretches");
            o.label_if(c.pre.iter().any(|x| matches!(x, Op::Twist { .. } | Op::PTwist { .. })), "related keys");
            o.label_if(c.pre.iter().any(|x| matches!(x, Op::Bad { .. })), "refused calls");
            judge(c, o)
        },
    );
    r.sub(
        "long",
        "short histories whose calls are repeated hundreds to tens of thousands of times and whose keys get hundreds of children, so that counters, growing stores and evictions come into play; same oracle; non-trivial = at least 200 calls made",
        160,
        20_000,
        || (base(), ops(4..14, true)).prop_map(|(mut c, o)| { c.pre = o; c }),
        |c, o| {
            let r = judge(c, o);
            o.nt_if(o.extra >= 200);
            o.label_if(o.extra >= 5_000, "5000 calls or more");
            r
        },
    );
    r.sub(
        "clashes",
        "two arguments that agree on a short or weak digest (fingerprint, checksum, 32-bit hashes from a table; equal sums, xors, shift-xors, polynomial hashes, halves, ends, every n-th byte, reordered blocks) asked in turn six times in each of 26 places (key, chain code, digest, entropy, phrase, password, seed, text, tweak): each gets its own answer; non-trivial = the two differ",
        20_000,
        2_000_000,
        || (ask(), crate::clash::pair(), gen::key(), gen::lang(), gen::path(3), gen::idx()),
        |(a, p, key, lang, path, i), o| {
            let (x, y, how) = p.get();
            o.nt_if(x != y);
            o.label(if how == "related" { "related by construction" } else { "same 32-bit digest" });
            clashes(*a, [x, y], key, *lang, path, *i)
        },
    );
    r.sub(
        "cold",
        "the very first calls of a process are made by 2-8 threads at once, released together, each with its own list or all with the same one, then everything again backwards; non-trivial = every case",
        400,
        30_000,
        || (base(), any::<bool>(), 2usize..=8, 1u8..3).prop_flat_map(|(c, same, t, rounds)| (Just(c), proptest::collection::vec(ops(1..10, false), t), Just(same), Just(rounds))).prop_map(|(mut c, t, same, rounds)| { c.threads = t; c.same = same; c.rounds = rounds; c }),
        |c, o| {
            o.nt();
            o.label_if(c.same, "same list in all threads");
            judge(c, o)
        },
    );
    r.sub(
        "threads",
        "a sequential prefix, then 2-6 threads working for several rounds on related material, then a sequential rest on the values made before; same oracle for every call of every thread; non-trivial = every case",
        200,
        20_000,
        || (base(), ops(1..10, false), any::<bool>(), 2usize..=6, 2u8..8, ops(1..10, false)).prop_flat_map(|(c, pre, same, t, rounds, post)| (Just((c, pre, same, rounds, post)), proptest::collection::vec(ops(2..16, false), t))).prop_map(|((mut c, pre, same, rounds, post), t)| { c.pre = pre; c.post = post; c.threads = t; c.same = same; c.rounds = rounds; c }),
        |c, o| {
            o.nt();
            o.label_if(c.same, "same list in all threads");
            judge(c, o)
        },
    );
}
