//! P28: values behave as values: orderings agree with equality, clones are equal and independent.
use crate::engine::{Out, Run};
use crate::gen::*;
use crate::k;
use crate::refs::bip39::Lang;
use kms::bip32::{ChildNumber, DerivationPath, Error, ExtendedKey, ExtendedKeyAttrs, ExtendedPublicKey, Prefix, PublicKey};
use kms::bip39::{Mnemonic, Seed};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

/// an orderable public key of the harness: bytes, ordered as bytes
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct OPub([u8; 33]);
impl PublicKey for OPub {
    fn from_bytes(b: [u8; 33]) -> Result<Self, Error> {
        Ok(OPub(b))
    }
    fn to_bytes(&self) -> [u8; 33] {
        self.0
    }
    fn derive_child(&self, _: [u8; 32]) -> Result<Self, Error> {
        Err(Error::Crypto)
    }
}
type OX = ExtendedPublicKey<OPub>;

/// `f[i]` are the fields of `v[i]`: equal fields, and only those, make equal values
fn laws<T: Ord + Clone, F: PartialEq>(v: &[T], f: &[F], what: &str) -> Out {
    let n = v.len();
    for i in 0..n {
        for j in 0..n {
            let (a, b) = (&v[i], &v[j]);
            let eq = f[i] == f[j];
            let c = a.cmp(b);
            same!(a == b, eq, "{} {},{}: ==", what, i, j);
            same!(a != b, !eq, "{} {},{}: !=", what, i, j);
            same!(c == Ordering::Equal, eq, "{} {},{}: cmp says Equal", what, i, j);
            same!(b.cmp(a), c.reverse(), "{} {},{}: cmp the other way round", what, i, j);
            same!(a.partial_cmp(b), Some(c), "{} {},{}: partial_cmp", what, i, j);
            same!((a < b, a <= b, a > b, a >= b), (c.is_lt(), c.is_le(), c.is_gt(), c.is_ge()), "{} {},{}: <, <=, >, >=", what, i, j);
            same!(a.clone().max(b.clone()) == if c.is_gt() { a.clone() } else { b.clone() }, true, "{} {},{}: max", what, i, j);
            same!(a.clone().min(b.clone()) == if c.is_gt() { b.clone() } else { a.clone() }, true, "{} {},{}: min", what, i, j);
            for (l, d) in v.iter().enumerate() {
                if c.is_le() && b.cmp(d).is_le() {
                    same!(a.cmp(d).is_le(), true, "{} {},{},{}: a <= b and b <= c, so a <= c", what, i, j, l);
                }
            }
        }
    }
    let distinct = (0..n).filter(|i| !f[..*i].contains(&f[*i])).count();
    let set: BTreeSet<T> = v.iter().cloned().collect();
    same!(set.len(), distinct, "{}: size of a sorted set of all", what);
    same!(v.iter().all(|x| set.contains(x)), true, "{}: a sorted set finds every member", what);
    let map: BTreeMap<T, usize> = v.iter().cloned().enumerate().map(|(i, x)| (x, i)).collect();
    for i in 0..n {
        let last = (0..n).rev().find(|j| f[*j] == f[i]);
        same!(map.get(&v[i]).copied(), last, "{}: map lookup of {}", what, i);
    }
    let mut s = v.to_vec();
    s.sort();
    same!(s.windows(2).all(|w| w[0] <= w[1]), true, "{}: sorted", what);
    s.dedup();
    same!(s.len(), distinct, "{}: sorted and deduplicated", what);
    same!(v.iter().all(|x| s.binary_search(x).is_ok()), true, "{}: binary search", what);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Group {
    base: Key,
    tag: u8,
    /// for each further member: which earlier one it comes from, how it differs, and what its first key byte is xored with
    more: Vec<(u8, Vec<Mutation>, u8)>,
}
fn group() -> BoxedStrategy<Group> {
    (key(), 2u8..=5, proptest::collection::vec((any::<u8>(), proptest::collection::vec(mutation(), 0..3), prop_oneof![4 => Just(0u8), 2 => Just(1), 1 => (0u8..8).prop_map(|b| 1 << b)]), 1..8)).prop_map(|(base, tag, more)| Group { base, tag, more }).boxed()
}
impl Group {
    /// with the first byte of each key
    fn keys(&self) -> Vec<(Key, u8)> {
        let mut v = vec![(self.base.clone(), self.tag)];
        for (from, ms, x) in &self.more {
            let (k, t) = &v[*from as usize % v.len()];
            let k = ms.iter().fold(k.clone(), |x, m| m.apply(&x));
            v.push((k, t ^ x));
        }
        v
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Edits {
    path: Vec<u32>,
    /// (which of the two, what): a number to push, or a pop through parent()
    edits: Vec<(bool, Option<u32>)>,
}

pub fn p28(r: &mut Run) {
    r.sub(
        "child_numbers",
        "groups of child numbers (random, boundary, one bit or one apart): comparisons, sets, maps and sorting agree with each other, with equality and with the order of the 32-bit values; non-trivial = at least two distinct values",
        60_000,
        3_000_000,
        || (idx(), proptest::collection::vec(prop_oneof![3 => idx().prop_map(|i| (0u8, i)), 2 => (0u32..32).prop_map(|b| (1u8, 1 << b)), 1 => (0u32..3).prop_map(|d| (2u8, d))], 1..9)),
        |(base, more), o| {
            let mut w = vec![*base];
            for (how, x) in more {
                let l = w[w.len() - 1];
                w.push(match how {
                    0 => *x,
                    1 => l ^ x,
                    _ => l.wrapping_add(*x),
                });
            }
            o.nt_if(w.iter().any(|x| x != base));
            let v: Vec<ChildNumber> = w.iter().map(|i| ChildNumber(*i)).collect();
            laws(&v, &w, "child numbers")?;
            for i in 0..v.len() {
                for j in 0..v.len() {
                    same!(v[i].cmp(&v[j]), w[i].cmp(&w[j]), "order of child numbers {} and {}", w[i], w[j]);
                    same!(v[i] < v[j], w[i] < w[j], "order of child numbers {} and {}", w[i], w[j]);
                }
            }
            Ok(())
        },
    );
    r.sub(
        "attributes_and_keys",
        "groups of 2-8 sets of key attributes and extended public keys (over an orderable key type), each differing from an earlier one by 0-2 single-field changes (the parity byte of the key counts as a field): comparisons, sets, maps and sorting agree with each other and with field-wise equality; non-trivial = at least two distinct keys",
        25_000,
        1_500_000,
        group,
        |g, o| {
            let ks = g.keys();
            o.nt_if(ks.iter().any(|x| *x != ks[0]));
            let f: Vec<_> = ks.iter().map(|x| x.0.r().meta).collect();
            let v: Vec<ExtendedKeyAttrs> = f.iter().map(k::attrs).collect();
            laws(&v, &f, "attributes")?;
            let mut v = vec![];
            for (x, tag) in &ks {
                let mut b = [*tag; 33];
                b[1..].copy_from_slice(&x.key.0);
                v.push(OX::try_from(ExtendedKey { prefix: Prefix::XPUB, attrs: k::attrs(&x.r().meta), key_bytes: b }).map_err(|e| format!("extended public key refused: {}", e))?);
            }
            laws(&v, &ks, "extended public keys")
        },
    );
    r.sub(
        "prefixes",
        "groups of key prefixes, named ones and ones found from versions near them: comparisons, sets, maps and sorting agree with each other and with equality of text and version; non-trivial = at least two distinct prefixes",
        40_000,
        2_000_000,
        || proptest::collection::vec((0usize..8, prop_oneof![3 => Just(0i64), 2 => -3i64..=3, 1 => -70000i64..=70000]), 2..9),
        |w, o| {
            use Prefix as P;
            let named = [P::XPRV, P::XPUB, P::TPRV, P::TPUB, P::YPRV, P::YPUB, P::ZPRV, P::ZPUB];
            let mut v = vec![];
            for (n, d) in w {
                let p = named[*n];
                let ver = (u32::from_be_bytes(p.to_bytes()) as i64 + d) as u32;
                if *d == 0 {
                    v.push(p);
                } else if let Ok(p) = P::try_from(ver) {
                    v.push(p);
                }
            }
            let f: Vec<(String, [u8; 4])> = v.iter().map(|p| (p.to_string(), p.to_bytes())).collect();
            o.nt_if(f.iter().any(|x| *x != f[0]));
            laws(&v, &f, "prefixes")
        },
    );
    r.sub(
        "clones",
        "mnemonics, seeds, extended keys, serialised-form keys and their attributes: a clone (by clone and clone_from over another value) has every field of the original, goes on having it after the original is dropped or changed, and leaves the original alone when it is changed or dropped; non-trivial = all",
        6_000,
        300_000,
        || (entropy(), lang(), entropy(), password(), key(), mutation(), any::<bool>()),
        |(e, l, e2, pw, q, m, first), o| {
            o.nt();
            let p = m.apply(q);
            // mnemonics and seeds
            let see = |m: &Mnemonic| (m.phrase().to_string(), m.entropy().to_vec(), m.language());
            let other = if *l == Lang::En { Lang::Zh } else { Lang::En };
            let (a, b) = (k::mnemonic(&e.0, *l)?, k::mnemonic(&e2.0, other)?);
            let want = see(&a);
            let c = a.clone();
            let mut d = b.clone();
            let wantd = see(&d);
            same!(see(&c), want, "clone of a mnemonic");
            d.clone_from(&a);
            same!(see(&d), want, "mnemonic cloned over another");
            same!(see(&b), wantd, "the mnemonic cloned before");
            if e.0.len() == 16 {
                let s = Seed::new(&a, pw);
                let w = s.as_bytes().to_vec();
                let t = s.clone();
                same!(t.as_bytes(), &w[..], "clone of a seed");
                let mut u = Seed::new(&b, "");
                let bare = u.clone();
                u.clone_from(&s);
                same!(u.as_bytes(), &w[..], "seed cloned over another");
                if *first {
                    drop(s);
                    same!(t.as_bytes(), &w[..], "clone of a dropped seed");
                } else {
                    drop(t);
                    same!(s.as_bytes(), &w[..], "seed whose clone was dropped");
                }
                same!(Seed::new(&b, "").as_bytes(), bare.as_bytes(), "a seed's clone after the seed was overwritten");
            }
            if *first {
                drop(a);
                same!(see(&c), want, "clone of a dropped mnemonic");
                same!(c.clone().into_phrase(), want.0, "clone of a dropped mnemonic");
            } else {
                same!(c.into_phrase(), want.0, "clone of a mnemonic");
                same!(see(&a), want, "mnemonic whose clone was consumed");
            }
            // extended keys
            let (x, y) = (k::xprv(q)?, k::xprv(&p)?);
            let (mut u, v) = (y.clone(), x.clone());
            u.clone_from(&x);
            let (px, py) = (x.public_key(), y.public_key());
            let (mut pu, pv) = (py.clone(), px.clone());
            pu.clone_from(&px);
            drop((x, px));
            for c in [&u, &v] {
                k::cmp_prv(c, &q.r(), "clone of a dropped private key")?;
                same!(k::see_pub(&c.public_key()), q.r().neuter(), "public key of a clone");
            }
            for c in [&pu, &pv] {
                k::cmp_pub(c, &q.r().neuter(), "clone of a dropped public key")?;
            }
            k::cmp_prv(&y, &p.r(), "a key whose clone was overwritten")?;
            k::cmp_pub(&py, &p.r().neuter(), "a public key whose clone was overwritten")?;
            // serialised form and attributes
            let fields = |e: &ExtendedKey| (e.prefix.to_bytes(), k::meta(&e.attrs), e.key_bytes);
            let mut s = ExtendedKey { prefix: Prefix::XPRV, attrs: k::attrs(&q.r().meta), key_bytes: q.r().key33() };
            let t = s.clone();
            let (w, text) = (fields(&s), s.to_string());
            same!(fields(&t), w, "clone of a serialised-form key");
            s.prefix = Prefix::ZPRV;
            s.attrs = k::attrs(&p.r().meta);
            s.key_bytes = p.r().key33();
            let w2 = fields(&s);
            same!(fields(&t), w, "clone of a changed key");
            let mut z = t.clone();
            z.attrs.depth ^= 1;
            z.key_bytes[32] ^= 1;
            z.attrs.chain_code[31] ^= 1;
            drop(z);
            same!((fields(&t), t.to_string()), (w, text), "a key whose clone was changed");
            same!(fields(&s), w2, "a key whose clone was changed");
            Ok(())
        },
    );
    r.sub(
        "path_clones",
        "a path and its clone under up to 20 interleaved edits of either (push, extend, parent): each always equals its own list, they are equal exactly when the lists are, and children taken from one do not change with the other; non-trivial = edited",
        30_000,
        1_500_000,
        || (path(12), proptest::collection::vec((any::<bool>(), prop_oneof![3 => idx().prop_map(Some), 1 => Just(None)]), 0..20)).prop_map(|(path, edits)| Edits { path, edits }),
        |c, o| {
            o.nt_if(!c.edits.is_empty());
            let mut p = [k::path(&c.path), DerivationPath::default()];
            p[1] = p[0].clone();
            let mut w = [c.path.clone(), c.path.clone()];
            let list = |p: &DerivationPath| p.iter().map(|c| c.0).collect::<Vec<_>>();
            for (n, (which, e)) in c.edits.iter().enumerate() {
                let i = *which as usize;
                match e {
                    Some(x) if n % 2 == 0 => {
                        p[i].push(ChildNumber(*x));
                        w[i].push(*x);
                    }
                    Some(x) => {
                        p[i].extend([ChildNumber(*x), ChildNumber(!*x)]);
                        w[i].extend([*x, !*x]);
                    }
                    None => {
                        if let Some(q) = p[i].parent() {
                            p[i] = q;
                            w[i].pop();
                        } else {
                            same!(w[i].len(), 0, "length of a path without parent");
                        }
                    }
                }
                for j in 0..2 {
                    same!(list(&p[j]), w[j], "path {} after edit {} of path {}", j, n, i);
                }
                same!(p[0] == p[1], w[0] == w[1], "equality of the two paths");
                same!(p[1] != p[0], w[0] != w[1], "inequality of the two paths");
            }
            let [mut a, b] = p;
            a.clone_from(&b);
            same!(list(&a), w[1], "path cloned over another");
            drop(b);
            same!(list(&a), w[1], "clone of a dropped path");
            Ok(())
        },
    );
}
