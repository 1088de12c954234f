//! P25: the effort a call takes grows no faster than in proportion to the size of its input.
use crate::engine::{Out, Run};
use crate::gen;
use crate::k;
use crate::refs::bip39::{self, Lang};
use kms::bip32::{ChildNumber, DerivationPath, ExtendedKey, Prefix, PrivateKey, XPrv, XPub};
use kms::bip39::{Language, Mnemonic, MnemonicType, Seed};
use libsecp256k1 as ls;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::hint::black_box;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum What {
    FromPhrase,
    Validate,
    Password,
    PathParse,
    PathShow,
    PathEdit,
    PathParent,
    Derive,
    PDerive,
    Child,
    LangCode,
    LangDetect,
    TypeForPhrase,
    WordBits,
    WordPrefix,
    FromEntropy,
    Root,
    Ripemd,
    Sign,
    PrefixBytes,
}
const ALL: [What; 20] = [
    What::FromPhrase, What::Validate, What::Password, What::PathParse, What::PathShow, What::PathEdit, What::PathParent, What::Derive, What::PDerive, What::Child,
    What::LangCode, What::LangDetect, What::TypeForPhrase, What::WordBits, What::WordPrefix, What::FromEntropy, What::Root, What::Ripemd, What::Sign, What::PrefixBytes,
];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cost {
    what: What,
    head: String,
    unit: String,
    /// a second repeated unit, alternating with the first or after all of it
    #[serde(default)]
    other: Option<(bool, String)>,
    tail: String,
    lang: Lang,
    path: Vec<u32>,
    /// a sixteenth of the greatest number of units
    n: u32,
}
const UP: usize = 16;

fn text(c: &Cost, n: usize) -> String {
    let u = if c.unit.is_empty() { "x" } else { &c.unit };
    let mut s = String::with_capacity(c.head.len() + n * u.len() + c.tail.len());
    s.push_str(&c.head);
    match &c.other {
        Some((true, v)) => {
            for i in 0..n {
                s.push_str(if i % 2 == 0 { u } else { v });
            }
        }
        Some((false, v)) => {
            s.extend((0..n / 2).map(|_| u));
            s.extend((n / 2..n).map(|_| v.as_str()));
        }
        None => s.extend((0..n).map(|_| u)),
    }
    s.push_str(&c.tail);
    s
}
fn cpu() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: plain call
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
fn fixed() -> Option<(Mnemonic, XPrv, XPub)> {
    let m = k::mnemonic(&[7; 16], Lang::En).ok()?;
    let x = XPrv::new([5u8; 64]).ok()?;
    let p = x.public_key();
    Some((m, x, p))
}
/// processor time of this thread for one call on an input of n units, in nanoseconds, and the most heap memory it held
fn run(c: &Cost, n: usize, m: &Mnemonic, x: &XPrv, p: &XPub) -> (u64, usize) {
    let l = k::lang(c.lang);
    let idx: Vec<u32> = c.path.iter().cycle().take(if c.path.is_empty() { 0 } else { n }).copied().collect();
    macro_rules! timed {
        ($e:expr) => {{
            let ((r, d), most) = crate::watch::peak(|| {
                let t = cpu();
                let r = black_box($e);
                (r, cpu() - t)
            });
            drop(r);
            (d, most)
        }};
    }
    let t = text(c, n);
    let s = black_box(t.as_str());
    match c.what {
        What::FromPhrase => timed!(Mnemonic::from_phrase(s, l).is_ok()),
        What::Validate => timed!(Mnemonic::validate(s, l).is_ok()),
        What::Password => timed!(Seed::new(m, s)),
        What::PathParse => {
            let s = if c.path.is_empty() { t.clone() } else { k::path_text(&idx) + &c.tail };
            timed!(s.parse::<DerivationPath>().is_ok())
        }
        What::PathShow => {
            let d = k::path(&idx);
            timed!(d.to_string())
        }
        What::PathEdit => timed!({
            let mut d = DerivationPath::default();
            for i in &idx {
                d.push(ChildNumber(*i));
            }
            d.extend(idx.iter().map(|i| ChildNumber(*i)));
            (d.len(), d.is_empty(), d.iter().count(), d.as_ref().len(), d.clone() == d, d.clone().into_iter().count())
        }),
        What::PathParent => {
            let d = k::path(&idx);
            timed!(d.parent())
        }
        What::Derive => {
            let d = k::path(&idx);
            timed!(x.clone().derive_from_path(&d).is_ok())
        }
        What::PDerive => {
            let d = k::path(&idx);
            timed!(p.clone().derive_from_path(&d).is_ok())
        }
        What::Child => timed!(s.parse::<ChildNumber>().is_ok()),
        What::LangCode => timed!(Language::from_language_code(s).is_some()),
        What::LangDetect => timed!(Language::from_phrase(s).is_some()),
        What::TypeForPhrase => timed!(MnemonicType::for_phrase(s).is_ok()),
        What::WordBits => timed!(l.wordmap().get_bits(s).is_ok()),
        What::WordPrefix => timed!(l.wordlist().get_words_by_prefix(s).len()),
        What::FromEntropy => timed!(Mnemonic::from_entropy(s.as_bytes(), l).is_ok()),
        What::Root => timed!(XPrv::new(s.as_bytes()).is_ok()),
        What::Ripemd => timed!(kms::crypto::ripemd(s.as_bytes())),
        What::Sign => match <ls::SecretKey as PrivateKey>::from_bytes(&[9; 32]) {
            Ok(k) => timed!(kms::ecdsa_sign(&k, s.as_bytes()).is_ok()),
            Err(_) => (0, 0),
        },
        What::PrefixBytes => timed!(Prefix::try_from(s.as_bytes()).is_ok()),
    }
}
static ALONE: std::sync::RwLock<()> = std::sync::RwLock::new(());
/// Proportional effort multiplies by 16, quadratic by 256. The bar is at 110 times, and only for calls
/// that take at least 60 ms; the least of several measurements counts for the large input and the most of
/// several for the small one, taken while no other thread of the harness works (threads of one process hold
/// each other up when they map and unmap memory, which shows in the processor time). Sizes go up by doubling until a call takes that long, so that a call whose
/// effort explodes is stopped while it is still affordable.
fn test(c: &Cost, o: &mut crate::engine::Obs) -> Out {
    let Some((m, x, p)) = fixed() else { return Ok(()) };
    const LONG: u64 = 60_000_000;
    let top = c.n as usize * UP;
    let lock = ALONE.read().unwrap_or_else(|e| e.into_inner());
    let go = |n: usize| -> Result<u64, String> {
        let (t, most) = run(c, n, &m, &x, &p);
        let size = text(c, n).len() + 16 * n;
        ensure!(most <= (4 << 20) + 256 * size, "{:?}: {} units ({} bytes): {} bytes of memory held at once", c.what, n, size, most);
        Ok(t)
    };
    // tables that are made on first use
    run(c, 1, &m, &x, &p);
    let mut large = UP;
    let mut b = go(large)?;
    while b <= LONG && large < top {
        large = (2 * large).min(top);
        b = go(large)?;
        o.extra += 1;
    }
    o.nt_if(text(c, large).len() >= 1 << 15 || !c.path.is_empty());
    o.label(match b {
        0..=999_999 => "under 1 ms",
        1_000_000..=9_999_999 => "1-10 ms",
        10_000_000..=99_999_999 => "10-100 ms",
        _ => "over 100 ms",
    });
    let small = (large / UP).max(1);
    let mut a = go(small)?;
    let slow = |a: u64, b: u64| b > LONG && b > 110 * a.max(1_000);
    drop(lock);
    if !slow(a, b) {
        return Ok(());
    }
    o.label("measured again alone");
    let _lock = ALONE.write().unwrap_or_else(|e| e.into_inner());
    let mut tries = 0;
    a = 0;
    b = u64::MAX;
    while slow(a, b) && tries < 8 {
        a = a.max(run(c, small, &m, &x, &p).0);
        b = b.min(run(c, large, &m, &x, &p).0);
        tries += 1;
    }
    ensure!(!slow(a, b), "{:?}: {} units take {} us, {} units {} us", c.what, small, a / 1000, large, b / 1000);
    Ok(())
}
fn unit() -> BoxedStrategy<String> {
    prop_oneof![
        2 => proptest::sample::select(vec![" ", "x", "0", "/", "/0", "/1'", "'", "m", "abandon ", "abandon", "zoo\t", "的 ", "\u{3000}", "e\u{301}", "\u{301}", "\u{301}\u{316}", "\u{fdfa}", "\u{ac01}", "１", "\u{1d15e}", "\u{958}", "𝅘𝅥𝅮", "ﬃ"]).prop_map(|s| s.to_string()),
        2 => gen::ustring(3),
        1 => gen::ustring(12),
        1 => (0usize..2048, gen::lang()).prop_map(|(i, l)| format!("{} ", bip39::words(l)[i])),
        1 => (0..crate::dict::dict().strs.len()).prop_map(|i| crate::dict::dict().strs[i].chars().take(12).collect()),
    ]
    .boxed()
}
pub fn p25(r: &mut Run) {
    let _ = ExtendedKey::BYTE_SIZE;
    r.assumptions.push("judged by processor time with a wide margin (proportional growth multiplies by 16, the bar is 110); Base58 decoding, quadratic by nature, is not included; growth that stays below 60 ms at the sizes used is not seen".into());
    r.sub(
        "growth",
        "for each kind of call that takes input of unbounded size: processor time and memory on inputs of one or two repeated units, doubled in number up to 320,000 (a few million characters) or until a call takes 60 ms; then the last is compared with one a sixteenth as long, and a growth beyond 110 times in repeated measurements is a violation, as is holding more than 4 MiB plus 256 bytes of heap per byte of input (and 4 KiB per path step) at any size; non-trivial = the large input has at least 32 KiB or is a path",
        700,
        60_000,
        || {
            let n = prop_oneof![2 => 200u32..6_000, 1 => 6_000u32..20_000, 1 => proptest::sample::select(vec![1024u32, 4096, 8192, 16384])];
            (proptest::sample::select(ALL.to_vec()), prop_oneof![3 => Just(String::new()), 1 => gen::ustring(4), 1 => Just("m".to_string())], (unit(), prop_oneof![2 => Just(None), 1 => (any::<bool>(), unit()).prop_map(Some)]), prop_oneof![2 => Just(String::new()), 1 => gen::ustring(3)], gen::lang(), prop_oneof![1 => Just(vec![]), 3 => proptest::collection::vec(gen::idx(), 1..5)], n)
                .prop_map(|(what, head, (unit, other), tail, lang, mut path, n)| {
                    if matches!(what, What::PathShow | What::PathEdit | What::PathParent | What::Derive | What::PDerive) && path.is_empty() {
                        path.push(0);
                    }
                    if !matches!(what, What::PathParse | What::PathShow | What::PathEdit | What::PathParent | What::Derive | What::PDerive) {
                        path.clear();
                    }
                    Cost { what, head, unit, other, tail, lang, path, n }
                })
        },
        test,
    );
}
