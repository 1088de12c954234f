//! P26: comparing private keys takes the same steps whatever the secrets are.
use crate::engine::{Out, Run};
use crate::gen::{self, Key, A, B32};
use crate::k;
use crate::refs::secp;
use crate::trace;
use kms::bip32::XPrv;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use subtle::ConstantTimeEq;

/// how the second key's secrets relate to the first's
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Rel {
    Same,
    /// agree on the first n bits, then differ
    KeyTail(u16),
    ChainTail(u16),
    KeyBit(u8),
    ChainBit(u8),
    Key(B32),
    Chain(B32),
    Both(B32, B32),
    Neg,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ct {
    base: Key,
    /// another key of which nothing is related
    far: Key,
    rels: Vec<Rel>,
    /// the attributes that are not secret differ too
    attrs: u8,
}
fn tail(b: &[u8; 32], n: u16, fill: &[u8; 32]) -> [u8; 32] {
    let n = n as usize % 256;
    let mut o = *b;
    for i in n..256 {
        let m = 0x80u8 >> (i % 8);
        let bit = if i == n { !b[i / 8] & m } else { fill[i / 8] & m };
        o[i / 8] = o[i / 8] & !m | bit;
    }
    o
}
fn other(c: &Ct, r: &Rel) -> Key {
    let mut o = c.base.clone();
    match r {
        Rel::Same => {}
        Rel::KeyTail(n) => o.key = A(tail(&o.key.0, *n, &c.far.key.0)),
        Rel::ChainTail(n) => o.chain = A(tail(&o.chain.0, *n, &c.far.chain.0)),
        Rel::KeyBit(n) => o.key.0[*n as usize / 8] ^= 0x80 >> (n % 8),
        Rel::ChainBit(n) => o.chain.0[*n as usize / 8] ^= 0x80 >> (n % 8),
        Rel::Key(k) => o.key = *k,
        Rel::Chain(k) => o.chain = *k,
        Rel::Both(k, x) => {
            o.key = *k;
            o.chain = *x;
        }
        Rel::Neg => o.key = A(secp::to_be(&secp::neg(&secp::from_be(&o.key.0), &secp::N))),
    }
    if secp::valid_scalar(&o.key.0).is_none() {
        o.key = gen::fix_scalar(o.key);
    }
    if c.attrs & 1 != 0 {
        o.depth ^= 1;
    }
    if c.attrs & 2 != 0 {
        o.fp.0[0] ^= 1;
        o.fp.0[3] ^= 0x80;
    }
    if c.attrs & 4 != 0 {
        o.child ^= 1 << 31;
    }
    o
}
/// both keys always lie at the same place
struct Pair(Box<[Option<XPrv>; 2]>);
thread_local! {
    static PAIR: RefCell<Pair> = RefCell::new(Pair(Box::new([None, None])));
}
/// None: the keys cannot be had (another property's matter)
#[inline(never)]
fn one(a: &Key, b: &Key, how: u8, out: &mut Vec<u32>) -> Option<(bool, usize)> {
    let (x, y) = (k::xprv(a).ok()?, k::xprv(b).ok()?);
    PAIR.with(|p| {
        let mut p = p.borrow_mut();
        p.0[0] = Some(x);
        p.0[1] = Some(y);
        let (Some(x), Some(y)) = (&p.0[0], &p.0[1]) else { unreachable!() };
        Some(match how % 3 {
            0 => trace::steps(out, || std::hint::black_box(x) == std::hint::black_box(y)),
            1 => trace::steps(out, || std::hint::black_box(x).ct_eq(std::hint::black_box(y)).unwrap_u8() == 1),
            _ => trace::steps(out, || std::hint::black_box(x) != std::hint::black_box(y)),
        })
    })
}
fn test(c: &Ct, o: &mut crate::engine::Obs) -> Out {
    o.nt_if(c.rels.len() >= 2);
    o.extra = 3 * (c.rels.len() as u64 + 1);
    o.label_if(c.attrs != 0, "public attributes differ too");
    let (mut t0, mut t) = (vec![], vec![]);
    for how in 0..3 {
        let what = ["==", "ct_eq", "!="][how as usize];
        // once to have everything in place (lazily bound symbols)
        if one(&c.base, &c.base, how, &mut t0).is_none() {
            return Ok(());
        }
        // reference: an unrelated secret, same public attributes as the others
        let mut f = other(c, &Rel::Same);
        f.key = c.far.key;
        f.chain = c.far.chain;
        let Some((_, n0)) = one(&c.base, &f, how, &mut t0) else { return Ok(()) };
        for r in &c.rels {
            let b = other(c, r);
            let Some((_, n)) = one(&c.base, &b, how, &mut t) else { return Ok(()) };
            if n != n0 || t != t0 {
                let at = t.iter().zip(&t0).take_while(|(a, b)| a == b).count();
                return Err(format!(
                    "{} executes {} instructions for {:?} and {:?} (secrets related by {:?}), but {} for {:?} and {:?}; the ways part after {}",
                    what, n, c.base, b, r, n0, c.base, f, at
                ));
            }
        }
        // and with other secrets on the left
        let mut g = c.base.clone();
        g.key = c.far.key;
        g.chain = c.far.chain;
        let Some((_, n)) = one(&g, &f, how, &mut t) else { return Ok(()) };
        ensure!(n == n0 && t == t0, "{} executes {} instructions for {:?} and {:?}, but {} for {:?} and {:?}", what, n, g, f, n0, c.base, f);
    }
    ensure!(t0.len() > 20, "the trace is empty");
    Ok(())
}
fn rel() -> BoxedStrategy<Rel> {
    prop_oneof![
        2 => Just(Rel::Same),
        4 => (0u16..256).prop_map(Rel::KeyTail),
        2 => proptest::sample::select(vec![8u16, 16, 32, 64, 96, 128, 160, 192, 224, 240, 248, 255]).prop_map(Rel::KeyTail),
        3 => (0u16..256).prop_map(Rel::ChainTail),
        2 => any::<u8>().prop_map(Rel::KeyBit),
        2 => any::<u8>().prop_map(Rel::ChainBit),
        2 => gen::scalar().prop_map(Rel::Key),
        1 => gen::b32().prop_map(Rel::Chain),
        2 => (gen::scalar(), gen::b32()).prop_map(|(a, b)| Rel::Both(a, b)),
        1 => Just(Rel::Neg),
    ]
    .boxed()
}
pub fn p26(r: &mut Run) {
    r.assumptions.push("measured on the optimised build of this harness: the sequence of instruction addresses. Timing differences of single instructions and of memory accesses are not seen".into());
    r.sub(
        "comparison",
        "pairs of extended private keys with the same public attributes whose secrets are equal, agree on a prefix of chosen length, differ in one bit, or are unrelated (edge scalars and chain codes included), at any depth, root keys among them, in the same place in memory; ==, != and ct_eq run one instruction at a time, and the sequence of instructions executed must be the same for all of them; non-trivial = at least two pairs besides the reference",
        1_500,
        200_000,
        || (gen::key(), gen::key(), proptest::collection::vec(rel(), 1..6), prop_oneof![3 => Just(0u8), 1 => 1u8..8], prop_oneof![3 => Just(None), 1 => Just(Some(0u8)), 1 => (0u8..=255).prop_map(Some)]).prop_map(|(mut base, far, rels, mut attrs, depth)| { base.depth = depth.unwrap_or(base.depth); base = base.fix(); if base.depth < 2 { attrs = 0; } Ct { base, far, rels, attrs } }),
        test,
    );
}
