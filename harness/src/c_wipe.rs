//! P17: secrets are gone from memory when it is released.
use crate::engine::{Out, Run};
use crate::gen::*;
use crate::k;
use crate::refs::bip39::{self, Lang};
use crate::watch::{Fate, Watch};
use kms::bip32::{ChildNumber, Error, ExtendedKey, ExtendedPrivateKey, Prefix, PrivateKey, PublicKey, XPrv};
use kms::bip39::{Mnemonic, MnemonicType, Seed};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Arc;
use zeroize::Zeroizing;

/// key types whose construction fails or unwinds
struct ErrKey;
struct PanicKey;
struct NoPub;
impl PublicKey for NoPub {
    fn from_bytes(_: [u8; 33]) -> Result<Self, Error> {
        Err(Error::Crypto)
    }
    fn to_bytes(&self) -> [u8; 33] {
        [2; 33]
    }
    fn derive_child(&self, _: [u8; 32]) -> Result<Self, Error> {
        Err(Error::Crypto)
    }
}
macro_rules! odd_key {
    ($t:ident, $e:expr) => {
        impl PrivateKey for $t {
            type PublicKey = NoPub;
            fn from_bytes(_: &[u8; 32]) -> Result<Self, Error> {
                $e
            }
            fn to_bytes(&self) -> [u8; 32] {
                [1; 32]
            }
            fn derive_child(&self, _: [u8; 32]) -> Result<Self, Error> {
                $e
            }
            fn public_key(&self) -> NoPub {
                NoPub
            }
        }
    };
}
odd_key!(ErrKey, Err(Error::Crypto));
odd_key!(PanicKey, resume_unwind(Box::new("key type unwinds")));

#[derive(Clone, Debug, Serialize, Deserialize)]
enum New {
    MEntropy(B, Lang),
    MPhrase(B, Lang),
    MFresh(u8, Lang),
    Seed(B, Lang),
    EkLiteral(Key, u8),
    EkFrom(Key, u8),
    EkParse(Key, u8),
    Text(Key, u8),
    TextChild(Key, u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Drop(u8),
    Clone(u8),
    CloneFrom(u8, u8),
    Assign(u8, u8),
    Swap(u8, u8),
    Unwind(u8),
    Thread(u8),
    ThreadUnwind(u8),
    Shared(u8),
    InVec(u8, u8),
    /// give the value away: into_phrase, String::from, XPrv::new, ...
    Consume(u8, u8),
    Use(u8),
    OptionTake(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    new: Vec<New>,
    ops: Vec<Op>,
}

enum Held {
    M(Box<Mnemonic>),
    S(Box<Seed>),
    E(Box<ExtendedKey>),
    T(Box<Zeroizing<String>>),
}
impl Held {
    fn spans(&self) -> Vec<&[u8]> {
        match self {
            Held::M(m) => vec![m.phrase().as_bytes(), m.entropy()],
            Held::S(s) => vec![s.as_bytes()],
            Held::E(e) => vec![&e.key_bytes[..]],
            Held::T(t) => vec![t.as_bytes()],
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Held::M(_) => "mnemonic",
            Held::S(_) => "seed",
            Held::E(_) => "extended key",
            Held::T(_) => "private key text",
        }
    }
    /// is this stretch inside the boxed value itself (rather than in a buffer it owns)?
    fn inline(&self, p: *const u8) -> bool {
        let (a, n) = match self {
            Held::M(m) => (&**m as *const _ as usize, size_of::<Mnemonic>()),
            Held::S(m) => (&**m as *const _ as usize, size_of::<Seed>()),
            Held::E(m) => (&**m as *const _ as usize, size_of::<ExtendedKey>()),
            Held::T(m) => (&**m as *const _ as usize, size_of::<Zeroizing<String>>()),
        };
        (a..a + n).contains(&(p as usize))
    }
    fn dup(&self) -> Held {
        match self {
            Held::M(m) => Held::M(m.clone()),
            Held::S(m) => Held::S(m.clone()),
            Held::E(m) => Held::E(m.clone()),
            Held::T(m) => Held::T(m.clone()),
        }
    }
}
struct Item {
    held: Held,
    want: Vec<Vec<u8>>,
    watches: Vec<Watch>,
}
impl Item {
    fn new(held: Held) -> Item {
        let want = held.spans().iter().map(|s| s.to_vec()).collect();
        let watches = held.spans().iter().map(|s| Watch::new(s.as_ptr(), s.len())).collect();
        Item { held, want, watches }
    }
    fn usable(&self, when: &str) -> Out {
        let now: Vec<Vec<u8>> = self.held.spans().iter().map(|s| s.to_vec()).collect();
        ensure!(now == self.want, "{}: a live {} no longer holds its value", when, self.held.name());
        for w in &self.watches {
            ensure!(!matches!(w.fate(), Fate::ReleasedClean | Fate::ReleasedDirty), "{}: memory of a live {} was released", when, self.held.name());
        }
        Ok(())
    }
}
fn secret_of(i: usize, name: &str) -> &'static str {
    match (name, i) {
        ("mnemonic", 0) => "phrase",
        ("mnemonic", _) => "entropy",
        _ => "secret",
    }
}
/// all owners are gone
fn judge(ws: &[Watch], name: &str, how: &str) -> Out {
    for (i, w) in ws.iter().enumerate() {
        match w.fate() {
            Fate::ReleasedClean | Fate::Overwritten => {}
            Fate::ReleasedDirty => return Err(format!("{}: the {} of a {} was still in its memory when that was released", how, secret_of(i, name), name)),
            Fate::Live => return Err(format!("{}: the {} of a {} stays in memory that is never released", how, secret_of(i, name), name)),
        }
    }
    Ok(())
}
fn prefix(p: u8) -> Prefix {
    [Prefix::XPRV, Prefix::TPRV, Prefix::YPRV, Prefix::ZPRV, Prefix::XPUB][p as usize % 5]
}
fn make(n: &New) -> Result<Held, String> {
    Ok(match n {
        New::MEntropy(e, l) => Held::M(Box::new(k::mnemonic(&e.0, *l)?)),
        New::MPhrase(e, l) => {
            let p = bip39::phrase(&e.0, *l).replace(' ', "  ");
            Held::M(Box::new(Mnemonic::from_phrase(&p, k::lang(*l)).map_err(|x| format!("valid phrase refused: {}", x))?))
        }
        New::MFresh(t, l) => {
            let t = [MnemonicType::Words12, MnemonicType::Words15, MnemonicType::Words18, MnemonicType::Words21, MnemonicType::Words24][*t as usize % 5];
            Held::M(Box::new(Mnemonic::new(t, k::lang(*l))))
        }
        New::Seed(e, l) => Held::S(Box::new(Seed::new(&k::mnemonic(&e.0, *l)?, "pw"))),
        New::EkLiteral(q, p) => {
            let r = q.r();
            Held::E(Box::new(ExtendedKey { prefix: prefix(*p), attrs: k::attrs(&r.meta), key_bytes: r.key33() }))
        }
        New::EkFrom(q, p) => Held::E(Box::new(k::xprv(q)?.to_extended_key(prefix(*p)))),
        New::EkParse(q, p) => Held::E(Box::new(q.r().text([0x0488ade4, 0x04358394][*p as usize % 2]).parse().map_err(|e| format!("valid key refused: {}", e))?)),
        New::Text(q, p) => Held::T(Box::new(k::xprv(q)?.to_string(prefix(*p)))),
        New::TextChild(q, i) => match k::xprv(q)?.derive_child(ChildNumber(*i)) {
            Ok(c) => Held::T(Box::new(c.to_string(Prefix::XPRV))),
            Err(_) => Held::T(Box::new(k::xprv(q)?.to_string(Prefix::XPRV))),
        },
    })
}

fn run_case(c: &Case) -> Out {
    let mut pool: Vec<Item> = vec![];
    // watches whose owners are gone, with what ended them
    let mut ended: Vec<(Vec<Watch>, &'static str, String)> = vec![];
    for n in &c.new {
        pool.push(Item::new(make(n)?));
    }
    for (step, op) in c.ops.iter().enumerate() {
        if pool.is_empty() {
            break;
        }
        let at = |i: &u8| *i as usize % pool.len();
        let how = format!("step {} {:?}", step, op);
        match op {
            Op::Drop(i) => {
                let it = pool.swap_remove(at(i));
                let name = it.held.name();
                drop(it.held);
                ended.push((it.watches, name, how.clone()));
            }
            Op::Clone(i) => {
                if pool.len() < 10 {
                    let d = pool[at(i)].held.dup();
                    let it = Item::new(d);
                    ensure!(it.want == pool[at(i)].want, "{}: the clone differs from the original", how);
                    pool.push(it);
                }
            }
            Op::CloneFrom(i, j) | Op::Assign(i, j) => {
                let (i, j) = (at(i), at(j));
                if i == j {
                    continue;
                }
                let src = pool[j].held.dup();
                let name = pool[i].held.name();
                let inline: Vec<bool> = pool[i].held.spans().iter().map(|s| pool[i].held.inline(s.as_ptr())).collect();
                // SAFETY of the comparison below: pointers are only compared, never read
                let old: Vec<*const u8> = pool[i].held.spans().iter().map(|s| s.as_ptr()).collect();
                let assign = matches!(op, Op::Assign(..));
                match (&mut pool[i].held, src) {
                    (Held::M(a), Held::M(b)) => if assign { **a = (*b).clone() } else { a.as_mut().clone_from(&b) },
                    (Held::S(a), Held::S(b)) => if assign { **a = (*b).clone() } else { a.as_mut().clone_from(&b) },
                    (Held::E(a), Held::E(b)) => if assign { **a = (*b).clone() } else { a.as_mut().clone_from(&b) },
                    (Held::T(a), Held::T(b)) => if assign { **a = (*b).clone() } else { a.as_mut().clone_from(&b) },
                    _ => continue,
                }
                let new = pool[j].want.clone();
                let now: Vec<*const u8> = pool[i].held.spans().iter().map(|s| s.as_ptr()).collect();
                let mut ws = std::mem::take(&mut pool[i].watches);
                // what is overwritten in place, or reused as it is, is not released: nothing to judge there
                let mut n = 0;
                ws.retain(|w| {
                    n += 1;
                    !(inline[n - 1] || now.contains(&old[n - 1]) && !matches!(w.fate(), Fate::ReleasedDirty))
                });
                ended.push((ws, name, how.clone()));
                let spans = pool[i].held.spans();
                let fresh: Vec<Watch> = spans.iter().map(|s| Watch::new(s.as_ptr(), s.len())).collect();
                pool[i].watches = fresh;
                pool[i].want = new;
            }
            Op::Swap(i, j) => {
                let (i, j) = (at(i), at(j));
                pool.swap(i, j);
            }
            Op::Unwind(i) => {
                let it = pool.swap_remove(at(i));
                let name = it.held.name();
                let held = it.held;
                let r = catch_unwind(AssertUnwindSafe(move || {
                    let h = held;
                    if h.spans().len() < 10 {
                        resume_unwind(Box::new("unwinding past the owner"));
                    }
                    drop(h);
                }));
                ensure!(r.is_err(), "harness: no unwinding");
                ended.push((it.watches, name, how.clone()));
            }
            Op::Thread(i) | Op::ThreadUnwind(i) => {
                let it = pool.swap_remove(at(i));
                let name = it.held.name();
                let held = it.held;
                let unwind = matches!(op, Op::ThreadUnwind(_));
                let _ = std::thread::spawn(move || {
                    let _h = held;
                    if unwind {
                        resume_unwind(Box::new("thread unwinds"));
                    }
                })
                .join();
                ended.push((it.watches, name, how.clone()));
            }
            Op::Shared(i) => {
                let it = pool.swap_remove(at(i));
                let name = it.held.name();
                let a = Arc::new(it.held);
                let b = a.clone();
                let t = std::thread::spawn(move || b.spans().len());
                drop(a);
                let _ = t.join();
                ended.push((it.watches, name, how.clone()));
            }
            Op::InVec(i, n) => {
                let it = pool.swap_remove(at(i));
                let name = it.held.name();
                let mut extra = vec![];
                let mut v = vec![];
                for _ in 0..n % 4 {
                    let d = it.held.dup();
                    extra.extend(d.spans().iter().map(|s| Watch::new(s.as_ptr(), s.len())));
                    v.push(d);
                }
                v.insert(v.len() / 2, it.held);
                v.truncate(v.len() / 2);
                v.clear();
                drop(v);
                let mut ws = it.watches;
                ws.extend(extra);
                ended.push((ws, name, how.clone()));
            }
            Op::OptionTake(i) => {
                let it = pool.swap_remove(at(i));
                let name = it.held.name();
                let mut o = Some(it.held);
                if let Some(h) = o.take() {
                    std::hint::black_box(&h.spans().len());
                }
                ended.push((it.watches, name, how.clone()));
            }
            Op::Use(i) => {
                match &pool[at(i)].held {
                    Held::M(m) => {
                        let _ = (format!("{} {:?} {:x}", m, m, **m), m.as_bytes(), m.language());
                    }
                    Held::S(s) => {
                        let _ = (format!("{:?} {:x}", s, **s), XPrv::new(&**s).map(|x| x.to_bytes()));
                    }
                    Held::E(e) => {
                        let _ = (e.to_string(), XPrv::try_from((**e).clone()).map(|x| x.to_bytes()));
                    }
                    Held::T(t) => {
                        let _ = t.parse::<XPrv>().map(|x| x.to_bytes());
                    }
                }
            }
            Op::Consume(i, v) => {
                let it = pool.swap_remove(at(i));
                let name = it.held.name();
                let inline: Vec<bool> = it.held.spans().iter().map(|s| it.held.inline(s.as_ptr())).collect();
                let old: Vec<*const u8> = it.held.spans().iter().map(|s| s.as_ptr()).collect();
                let mut ws = it.watches;
                let mut keep_text: Option<String> = None;
                match it.held {
                    Held::M(m) => {
                        let s = if v % 2 == 0 { m.into_phrase() } else { String::from(*m) };
                        ensure!(s.as_bytes() == &it.want[0][..], "{}: the phrase handed out is {:?}", how, s);
                        keep_text = Some(s);
                    }
                    Held::S(s) => {
                        let p = k::path(&[1 << 31 | 44, 0, 3][..*v as usize % 4]);
                        let _ = match v / 4 % 7 {
                            0 | 1 => XPrv::new(*s).map(|x| x.to_bytes()),
                            2 | 3 => XPrv::new_from_path(*s, &p).map(|x| x.to_bytes()),
                            4 => ExtendedPrivateKey::<ErrKey>::new(*s).map(|x| x.to_bytes()),
                            5 => ExtendedPrivateKey::<ErrKey>::new_from_path(*s, &p).map(|x| x.to_bytes()),
                            _ => catch_unwind(AssertUnwindSafe(move || ExtendedPrivateKey::<PanicKey>::new_from_path(*s, &p).map(|x| x.to_bytes()))).unwrap_or(Ok([0; 32])),
                        };
                    }
                    Held::E(e) => {
                        // moves the fields onto the stack and leaves the box as it was: nothing to judge
                        let _ = XPrv::try_from(*e).map(|x| x.to_bytes());
                    }
                    Held::T(t) => {
                        let d: &str = &t;
                        let _ = d.parse::<XPrv>().map(|x| x.to_bytes());
                        drop(t);
                    }
                }
                let mut n = 0;
                ws.retain(|_| {
                    n += 1;
                    let handed = keep_text.as_ref().is_some_and(|s| s.as_ptr() == old[n - 1]);
                    !(inline[n - 1] || handed)
                });
                // the phrase that was handed out belongs to the caller now
                judge(&ws, name, &how)?;
                ended.push((ws, name, how.clone()));
            }
        }
        for it in &pool {
            it.usable(&how)?;
        }
        for (ws, name, how) in &ended {
            judge(ws, name, how)?;
        }
    }
    while let Some(it) = pool.pop() {
        let name = it.held.name();
        drop(it.held);
        judge(&it.watches, name, "final drop")?;
        for o in &pool {
            o.usable("final drop of another")?;
        }
    }
    Ok(())
}

fn news(seeds: bool) -> BoxedStrategy<New> {
    let s = if seeds { 3 } else { 0 };
    let mut v: Vec<(u32, BoxedStrategy<New>)> = vec![
        (2, (entropy(), lang()).prop_map(|(e, l)| New::MEntropy(e, l)).boxed()),
        (2, (entropy(), lang()).prop_map(|(e, l)| New::MPhrase(e, l)).boxed()),
        (1, (any::<u8>(), lang()).prop_map(|(e, l)| New::MFresh(e, l)).boxed()),
        (2, (key(), any::<u8>()).prop_map(|(a, b)| New::EkLiteral(a, b)).boxed()),
        (1, (key(), any::<u8>()).prop_map(|(a, b)| New::EkFrom(a, b)).boxed()),
        (1, (key(), any::<u8>()).prop_map(|(a, b)| New::EkParse(a, b)).boxed()),
        (2, (key(), any::<u8>()).prop_map(|(a, b)| New::Text(a, b)).boxed()),
        (1, (key(), idx()).prop_map(|(a, b)| New::TextChild(a, b)).boxed()),
    ];
    if s > 0 {
        v.push((s, (entropy(), lang()).prop_map(|(e, l)| New::Seed(e, l)).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}
fn op(threads: bool) -> BoxedStrategy<Op> {
    let i = any::<u8>;
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (3, i().prop_map(Op::Drop).boxed()),
        (5, i().prop_map(Op::Clone).boxed()),
        (2, (i(), i()).prop_map(|(a, b)| Op::CloneFrom(a, b)).boxed()),
        (2, (i(), i()).prop_map(|(a, b)| Op::Assign(a, b)).boxed()),
        (1, (i(), i()).prop_map(|(a, b)| Op::Swap(a, b)).boxed()),
        (2, i().prop_map(Op::Unwind).boxed()),
        (1, (i(), i()).prop_map(|(a, b)| Op::InVec(a, b)).boxed()),
        (3, (i(), i()).prop_map(|(a, b)| Op::Consume(a, b)).boxed()),
        (2, i().prop_map(Op::Use).boxed()),
        (1, i().prop_map(Op::OptionTake).boxed()),
    ];
    if threads {
        v.push((1, i().prop_map(Op::Thread).boxed()));
        v.push((1, i().prop_map(Op::ThreadUnwind).boxed()));
        v.push((1, i().prop_map(Op::Shared).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}

pub fn p17(r: &mut Run) {
    r.custom(
        "self_test",
        "the watching allocator itself: released secrets are seen as dirty, wiped ones as clean, partly wiped ones as dirty; non-trivial = all",
        |_, _| {
            let mut n = 0;
            for len in [16usize, 33, 64, 200] {
                for keep in [0usize, 1, 3, len / 2, len] {
                    for front in [false, true] {
                        let mut v: Vec<u8> = (0..len).map(|i| (i * 7 + 3) as u8).collect();
                        let w = Watch::new(v.as_ptr(), len);
                        assert_eq!(w.fate(), Fate::Live);
                        for i in 0..len {
                            if !(if front { i < keep } else { i >= len - keep }) {
                                // SAFETY: in bounds
                                unsafe { std::ptr::write_volatile(v.as_mut_ptr().add(i), 0) };
                            }
                        }
                        drop(v);
                        let want = if keep == 0 { Fate::ReleasedClean } else { Fate::ReleasedDirty };
                        if w.fate() != want {
                            return Err(format!("watching allocator: len {} keep {}: {:?}", len, keep, w.fate()));
                        }
                        n += 1;
                    }
                }
            }
            Ok(Ok((n, n, vec![], serde_json::json!({}))))
        },
    );
    r.sub(
        "histories",
        "several mnemonics, extended keys in field form and private-key texts (from every constructor) taken through histories of clone, clone_from, assignment, drop, unwinding, collections and consumption: every secret's memory is looked at when released, and every live value stays intact; non-trivial = some owner ends before the end of the history",
        60_000,
        4_000_000,
        || (proptest::collection::vec(news(false), 1..5), proptest::collection::vec(op(false), 1..14)).prop_map(|(new, ops)| Case { new, ops }),
        |c, o| {
            o.nt_if(c.ops.iter().any(|p| !matches!(p, Op::Clone(_) | Op::Use(_) | Op::Swap(..))));
            run_case(c)
        },
    );
    r.sub(
        "seeds",
        "the same with seeds, including giving them away to key creation that succeeds, fails or unwinds; non-trivial = some owner ends before the end of the history",
        3_000,
        120_000,
        || (proptest::collection::vec(news(true), 0..3), (entropy(), lang()), proptest::collection::vec(op(false), 1..12)).prop_map(|(mut new, (e, l), ops)| { new.push(New::Seed(e, l)); Case { new, ops } }),
        |c, o| {
            o.nt_if(c.ops.iter().any(|p| !matches!(p, Op::Clone(_) | Op::Use(_) | Op::Swap(..))));
            run_case(c)
        },
    );
    r.sub(
        "threads",
        "the same with values moved into threads that end normally or unwind, or shared between threads; non-trivial = a thread took part",
        1_500,
        60_000,
        || (proptest::collection::vec(news(true), 1..4), proptest::collection::vec(op(true), 2..14)).prop_map(|(new, ops)| Case { new, ops }),
        |c, o| {
            o.nt_if(c.ops.iter().any(|p| matches!(p, Op::Thread(_) | Op::ThreadUnwind(_) | Op::Shared(_))));
            run_case(c)
        },
    );

}
