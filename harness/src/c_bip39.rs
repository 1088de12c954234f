//! P01-P04, P19: mnemonics, seeds, word lists.
use crate::engine::{Obs, Out, Run};
use crate::gen::*;
use crate::k;
use crate::refs::bip39::{self, Faults, Lang};
use crate::refs::nfkd;
use kms::bip39::{Language, Mnemonic, MnemonicType, Seed};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

fn hexs(b: &[u8], upper: bool) -> String {
    b.iter().map(|x| if upper { format!("{:02X}", x) } else { format!("{:02x}", x) }).collect()
}

/// All views of a mnemonic against the reference.
pub fn views(m: &Mnemonic, e: &[u8], l: Lang, what: &str) -> Out {
    let ph = bip39::phrase(e, l);
    same!(m.phrase(), ph, "{}: phrase", what);
    same!(m.entropy(), e, "{}: entropy", what);
    same!(m.language(), k::lang(l), "{}: language", what);
    same!(m.to_string(), ph, "{}: Display", what);
    let r: &str = m.as_ref();
    same!(r, ph, "{}: AsRef<str>", what);
    same!(format!("{:x}", m), hexs(e, false), "{}: {{:x}}", what);
    same!(format!("{:X}", m), hexs(e, true), "{}: {{:X}}", what);
    same!(format!("{:#x}", m), format!("0x{}", hexs(e, false)), "{}: {{:#x}}", what);
    same!(format!("{:#X}", m), format!("0x{}", hexs(e, true)), "{}: {{:#X}}", what);
    same!(m.as_bytes(), bip39::phrase_bytes(&ph, l), "{}: as_bytes", what);
    Ok(())
}

pub fn p01(r: &mut Run) {
    r.sub(
        "codec",
        "entropy of each valid size (random, boundary patterns, repeated word indices, source literals) x language: phrase, reparse and all views against the reference codec; every case is non-trivial (a full encode and decode), distinct by value",
        120_000,
        6_000_000,
        || (entropy(), lang(), any::<bool>()),
        |(e, l, cl), o| {
            o.nt();
            o.label(match e.0.len() { 16 => "12w", 20 => "15w", 24 => "18w", 28 => "21w", _ => "24w" });
            let m = k::mnemonic(&e.0, *l)?;
            views(&m, &e.0, *l, "from_entropy")?;
            let ph = bip39::phrase(&e.0, *l);
            let m2 = Mnemonic::from_phrase(&ph, k::lang(*l)).map_err(|x| format!("canonical phrase refused: {} ({})", x, ph))?;
            views(&m2, &e.0, *l, "from_phrase")?;
            if *cl {
                let c = m.clone();
                views(&c, &e.0, *l, "clone")?;
                same!(String::from(c), ph, "String::from");
                views(&m, &e.0, *l, "original after the clone was consumed")?;
            }
            same!(m.into_phrase(), ph, "into_phrase");
            same!(m2.into_phrase(), ph, "into_phrase of a parsed mnemonic");
            Ok(())
        },
    );
    r.sub(
        "lengths",
        "byte strings of any length 0..=1100, sampled lengths up to 131072 and source-derived sizes x language: accepted exactly for 16/20/24/28/32 bytes, otherwise InvalidKeysize(bits); non-trivial = an invalid length",
        20_000,
        400_000,
        || (prop_oneof![4 => 0usize..80, 4 => size(1100), 4 => 0usize..1101, 1 => long_size(1 << 17), 4 => proptest::sample::select(vec![272usize, 276, 280, 284, 288, 528, 544, 8208, 8224, 65552, 65568])], any::<u8>(), lang()),
        |(n, fill, l), o| {
            let e: Vec<u8> = (0..*n).map(|i| fill.wrapping_add(i as u8)).collect();
            let got = Mnemonic::from_entropy(&e, k::lang(*l));
            if [16, 20, 24, 28, 32].contains(n) {
                match got {
                    Ok(m) => views(&m, &e, *l, "from_entropy"),
                    Err(x) => Err(format!("{} bytes of entropy refused: {}", n, x)),
                }
            } else {
                o.nt();
                match got {
                    Ok(m) => Err(format!("{} bytes of entropy accepted as {:?}", n, m.phrase())),
                    Err(x) => {
                        same!(k::kind(&x), k::Kind::Keysize(n * 8), "error for {} bytes", n);
                        Ok(())
                    }
                }
            }
        },
    );
    r.sub(
        "sizes",
        "word counts and key sizes 0..=4096 and arbitrary usize: MnemonicType accepts exactly the five BIP39 sizes, with consistent bit counts; non-trivial = all (distinct value)",
        8_000,
        200_000,
        || prop_oneof![0usize..300, 0usize..4097, any::<usize>(), int().prop_map(|v| v as usize)],
        |n, o| {
            o.nt();
            let chk = |t: &MnemonicType, w: usize| -> Out {
                same!(t.word_count(), w, "word_count");
                same!(t.entropy_bits(), w / 3 * 32, "entropy_bits");
                same!(t.checksum_bits() as usize, w / 3, "checksum_bits");
                same!(t.total_bits(), w * 11, "total_bits");
                Ok(())
            };
            match MnemonicType::for_word_count(*n) {
                Ok(t) => {
                    ensure!([12, 15, 18, 21, 24].contains(n), "for_word_count({}) accepted", n);
                    chk(&t, *n)?;
                }
                Err(e) => {
                    ensure!(![12, 15, 18, 21, 24].contains(n), "for_word_count({}) refused", n);
                    same!(k::kind(&e), k::Kind::Count(*n), "for_word_count({})", n);
                }
            }
            match MnemonicType::for_key_size(*n) {
                Ok(t) => {
                    ensure!([128, 160, 192, 224, 256].contains(n), "for_key_size({}) accepted", n);
                    chk(&t, *n / 32 * 3)?;
                }
                Err(e) => {
                    ensure!(![128, 160, 192, 224, 256].contains(n), "for_key_size({}) refused", n);
                    same!(k::kind(&e), k::Kind::Keysize(*n), "for_key_size({})", n);
                }
            }
            if *n < 2000 && *n > 0 {
                let p = vec!["w"; *n].join(" ");
                match MnemonicType::for_phrase(&p) {
                    Ok(t) => chk(&t, *n)?,
                    Err(e) => {
                        ensure!(![12, 15, 18, 21, 24].contains(n), "for_phrase of {} words refused", n);
                        same!(k::kind(&e), k::Kind::Count(*n), "for_phrase of {} words", n);
                    }
                }
            }
            Ok(())
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Replace(u16, u16),
    Swap(u16, u16),
    Delete(u16),
    Insert(u16, u16),
    Dup(u16),
    Reverse,
    Rotate(u16),
    /// misspell: word, char position, new letter
    Letter(u16, u8, u8),
    DropChar(u16, u8),
    AddChar(u16, u8, u8),
    Upper(u16, bool),
    OtherLang(u16, u16),
    /// replace a word by its first `n` characters
    Short(u16, u8),
    /// glue two neighbouring words together
    Glue(u16),
    /// flip one of the last (checksum) bits
    LastBits(u8),
    Text(u16, String),
    /// a character that is not whitespace but is easily mistaken for it or not seen (see ODD):
    /// between two words instead of the space, or inside or at an end of a word
    OddSep(u16, u8),
    OddIn(u16, u8, u8),
    /// between all words; or as a word of its own
    OddAll(u8),
    OddWord(u16, u8),
    /// the letter at this place by one that looks alike
    Homoglyph(u16, u8),
}
/// Invisible, zero-width, control and separator-like characters that do not have the property
/// White_Space and that NFKD leaves alone: none of them separates words, and none is ignored.
pub const ODD: &[char] = &[
    '\u{200B}', '\u{FEFF}', '\u{2060}', '\u{180E}', '\u{200C}', '\u{200D}', '\u{AD}', '\u{0}', '\u{1C}', '\u{1D}', '\u{1E}', '\u{1F}', '\u{7F}', '\u{8}', '\u{1B}', '\u{34F}', '\u{61C}', '\u{200E}',
    '\u{200F}', '\u{2061}', '\u{2062}', '\u{2063}', '\u{2064}', '\u{202A}', '\u{202C}', '\u{2066}', '\u{2069}', '\u{FE0F}', '\u{FE00}', '\u{E0001}', '\u{E0020}', '\u{FFFD}', '\u{2800}', '\u{1160}', '\u{115F}',
    '\u{16FE4}', '\u{86}', '\u{9F}', ',', ';', '.', '-', '_', '|', '/', '\\', '+', ':', '\'', '"', '(', ')', '·', '、', '。', '\u{2581}', '\u{2423}', '\u{2010}', '\u{2014}', '0', '9', '#', '&', '%', '\u{301}', '\u{327}',
];
pub fn edit() -> BoxedStrategy<Edit> {
    let w = || any::<u16>();
    prop_oneof![
        4 => (w(), 0u16..2048).prop_map(|(a, b)| Edit::Replace(a, b)),
        3 => (w(), w()).prop_map(|(a, b)| Edit::Swap(a, b)),
        2 => w().prop_map(Edit::Delete),
        2 => (w(), 0u16..2048).prop_map(|(a, b)| Edit::Insert(a, b)),
        1 => w().prop_map(Edit::Dup),
        1 => Just(Edit::Reverse),
        1 => w().prop_map(Edit::Rotate),
        2 => (w(), any::<u8>(), 0u8..26).prop_map(|(a, b, c)| Edit::Letter(a, b, c)),
        2 => (w(), any::<u8>()).prop_map(|(a, b)| Edit::DropChar(a, b)),
        1 => (w(), any::<u8>(), 0u8..26).prop_map(|(a, b, c)| Edit::AddChar(a, b, c)),
        1 => (w(), any::<bool>()).prop_map(|(a, b)| Edit::Upper(a, b)),
        1 => (w(), 0u16..2048).prop_map(|(a, b)| Edit::OtherLang(a, b)),
        1 => (w(), 1u8..5).prop_map(|(a, b)| Edit::Short(a, b)),
        1 => w().prop_map(Edit::Glue),
        5 => any::<u8>().prop_map(Edit::LastBits),
        1 => (w(), prop_oneof!["[a-z]{0,9}", "[A-Za-z0-9'.,-]{1,6}", "[一-龥]{1,3}"]).prop_map(|(a, b)| Edit::Text(a, b)),
        2 => (w(), any::<u8>()).prop_map(|(a, b)| Edit::OddSep(a, b)),
        1 => (w(), prop_oneof![Just(0u8), Just(255u8), any::<u8>()], any::<u8>()).prop_map(|(a, b, c)| Edit::OddIn(a, b, c)),
        1 => any::<u8>().prop_map(Edit::OddAll),
        1 => (w(), any::<u8>()).prop_map(|(a, b)| Edit::OddWord(a, b)),
        1 => (w(), any::<u8>()).prop_map(|(a, b)| Edit::Homoglyph(a, b)),
    ]
    .boxed()
}
pub fn apply_edits(e: &[u8], l: Lang, edits: &[Edit]) -> Vec<String> {
    let mut w: Vec<String> = bip39::phrase(e, l).split(' ').map(String::from).collect();
    let other = if l == Lang::En { Lang::Zh } else { Lang::En };
    for ed in edits {
        if w.is_empty() {
            break;
        }
        let n = w.len();
        let at = |i: &u16| *i as usize % n;
        let list = |i: &u16| bip39::words(l)[*i as usize % 2048].to_string();
        match ed {
            Edit::Replace(i, j) => w[at(i)] = list(j),
            Edit::Swap(i, j) => w.swap(at(i), at(j)),
            Edit::Delete(i) => {
                w.remove(at(i));
            }
            Edit::Insert(i, j) => w.insert(at(i), list(j)),
            Edit::Dup(i) => {
                let x = w[at(i)].clone();
                w.insert(at(i), x)
            }
            Edit::Reverse => w.reverse(),
            Edit::Rotate(i) => w.rotate_left(at(i)),
            Edit::Letter(i, p, c) => {
                let mut cs: Vec<char> = w[at(i)].chars().collect();
                if !cs.is_empty() {
                    let q = *p as usize % cs.len();
                    cs[q] = (b'a' + c) as char;
                }
                w[at(i)] = cs.into_iter().collect();
            }
            Edit::DropChar(i, p) => {
                let mut cs: Vec<char> = w[at(i)].chars().collect();
                if cs.len() > 1 {
                    let q = *p as usize % cs.len();
                    cs.remove(q);
                }
                w[at(i)] = cs.into_iter().collect();
            }
            Edit::AddChar(i, p, c) => {
                let mut cs: Vec<char> = w[at(i)].chars().collect();
                let q = *p as usize % (cs.len() + 1);
                cs.insert(q, (b'a' + c) as char);
                w[at(i)] = cs.into_iter().collect();
            }
            Edit::Upper(i, all) => {
                let s = &w[at(i)];
                w[at(i)] = if *all {
                    s.to_uppercase()
                } else {
                    let mut c = s.chars();
                    c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
                }
            }
            Edit::OtherLang(i, j) => w[at(i)] = bip39::words(other)[*j as usize % 2048].to_string(),
            Edit::Short(i, k) => w[at(i)] = w[at(i)].chars().take(*k as usize).collect(),
            Edit::Glue(i) => {
                let i = at(i);
                if i + 1 < n {
                    let x = w.remove(i + 1);
                    w[i] += &x;
                }
            }
            Edit::LastBits(m) => {
                if let Some(ix) = bip39::index(l, &w[n - 1]) {
                    w[n - 1] = bip39::words(l)[ix ^ *m as usize].to_string();
                }
            }
            Edit::Text(i, t) => {
                if !t.is_empty() {
                    w[at(i)] = t.clone()
                }
            }
            Edit::OddSep(i, c) => {
                let i = at(i);
                let c = ODD[*c as usize % ODD.len()];
                if i + 1 < n {
                    let x = w.remove(i + 1);
                    w[i].push(c);
                    w[i] += &x;
                } else {
                    w[i].push(c);
                }
            }
            Edit::OddIn(i, p, c) => {
                let mut cs: Vec<char> = w[at(i)].chars().collect();
                let q = if *p == 255 { cs.len() } else { *p as usize % (cs.len() + 1) };
                cs.insert(q, ODD[*c as usize % ODD.len()]);
                w[at(i)] = cs.into_iter().collect();
            }
            Edit::OddAll(c) => w = vec![w.join(&ODD[*c as usize % ODD.len()].to_string())],
            Edit::OddWord(i, c) => w.insert(at(i), ODD[*c as usize % ODD.len()].to_string()),
            Edit::Homoglyph(i, p) => {
                let mut cs: Vec<char> = w[at(i)].chars().collect();
                let q = *p as usize % cs.len().max(1);
                if let Some(c) = cs.get_mut(q) {
                    *c = match *c {
                        'a' => '\u{430}',
                        'c' => '\u{441}',
                        'd' => '\u{501}',
                        'e' => '\u{435}',
                        'i' => '\u{131}',
                        'j' => '\u{458}',
                        'l' => '1',
                        'o' => '\u{43E}',
                        'p' => '\u{440}',
                        's' => '\u{455}',
                        'u' => '\u{3C5}',
                        'x' => '\u{445}',
                        'y' => '\u{443}',
                        _ => '\u{237}',
                    }
                }
                w[at(i)] = cs.into_iter().collect();
            }
        }
    }
    w
}
fn fault_ok(kind: k::Kind, f: &Faults) -> bool {
    match kind {
        k::Kind::Word => f.bad_word,
        k::Kind::Count(n) => f.bad_count == Some(n),
        k::Kind::Checksum => f.bad_checksum,
        _ => false,
    }
}
/// from_phrase and validate on a phrase in canonical spelling, against the reference verdict.
pub fn verdict(p: &str, l: Lang, o: &mut Obs) -> Out {
    let v = bip39::decode(p, l);
    match (&v, Mnemonic::from_phrase(p, k::lang(l))) {
        (Ok(e), Ok(m)) => {
            o.label("accepted");
            same!(m.entropy(), &e[..], "entropy of {:?}", p);
            same!(m.phrase(), p, "phrase");
            same!(m.language(), k::lang(l), "language");
        }
        (Ok(_), Err(x)) => return Err(format!("valid phrase refused ({}): {:?}", x, p)),
        (Err(f), Ok(_)) => return Err(format!("invalid phrase accepted ({:?}): {:?}", f, p)),
        (Err(f), Err(x)) => {
            o.label(if f.bad_word { "bad word" } else if f.bad_count.is_some() { "bad count" } else { "bad checksum" });
            ensure!(fault_ok(k::kind(&x), f), "wrong kind of error {:?} ({}) for {:?}, which has {:?}", k::kind(&x), x, p, f);
        }
    }
    match (&v, Mnemonic::validate(p, k::lang(l))) {
        (Ok(_), Ok(())) => {}
        (Ok(_), Err(x)) => return Err(format!("validate refused a valid phrase ({}): {:?}", x, p)),
        (Err(f), Ok(())) => return Err(format!("validate accepted an invalid phrase ({:?}): {:?}", f, p)),
        (Err(f), Err(x)) => ensure!(fault_ok(k::kind(&x), f), "validate: wrong kind of error {:?} for {:?}, which has {:?}", k::kind(&x), p, f),
    }
    Ok(())
}
pub fn counts() -> BoxedStrategy<usize> {
    prop_oneof![4 => proptest::sample::select(vec![12usize, 15, 18, 21, 24]), 3 => 1usize..40, 1 => proptest::sample::select(vec![27usize, 30, 33, 36, 48, 96, 128, 192, 255, 256, 257, 256 + 12, 256 + 24, 512 + 15, 4096 + 12]), 1 => size(600).prop_map(|n| n.max(1))].boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spell {
    pub e: B,
    pub l: Lang,
    /// whitespace before each word and at the end: indices into WS
    pub ws: Vec<Vec<u8>>,
    /// per word substitution choices (0 = leave)
    pub alt: Vec<Vec<u16>>,
}
impl Spell {
    pub fn text(&self) -> String {
        let ph = bip39::phrase(&self.e.0, self.l);
        let mut out = String::new();
        let ws = |i: usize| -> String { self.ws.get(i).map(|v| v.iter().map(|c| WS[*c as usize % 25]).collect()).unwrap_or_default() };
        let n = ph.split(' ').count();
        for (i, w) in ph.split(' ').enumerate() {
            let s = ws(i);
            if i > 0 && s.is_empty() {
                out.push(' ')
            } else {
                out += &s
            }
            out += &respell(w, self.l, self.alt.get(i).map(|v| &v[..]).unwrap_or(&[]));
        }
        out + &ws(n)
    }
}
pub fn spell() -> BoxedStrategy<Spell> {
    let wsv = || proptest::collection::vec(prop_oneof![4 => proptest::collection::vec(0u8..25, 0..2), 1 => proptest::collection::vec(0u8..25, 0..5), 3 => Just(vec![])], 0..=25);
    let altv = || prop_oneof![1 => Just(vec![]), 3 => proptest::collection::vec(prop_oneof![Just(vec![]), proptest::collection::vec(prop_oneof![2 => Just(0u16), 1 => 0u16..200], 0..9)], 0..=24)];
    (entropy(), lang(), wsv(), altv()).prop_map(|(e, l, ws, alt)| Spell { e, l, ws, alt }).boxed()
}

pub fn p02(r: &mut Run) {
    r.sub(
        "edited",
        "a valid phrase with 0-3 edits (replace, swap, delete, insert, duplicate, rotate, misspell, case, other language, truncate word, glue, checksum bits, invisible, control and separator-like characters between, inside or beside words, look-alike letters): verdict and error class of from_phrase and validate against the reference; non-trivial = at least one edit",
        150_000,
        8_000_000,
        || (entropy(), lang(), proptest::collection::vec(edit(), 0..4)),
        |(e, l, ed), o| {
            o.nt_if(!ed.is_empty());
            verdict(&apply_edits(&e.0, *l, ed).join(" "), *l, o)
        },
    );
    r.sub(
        "words",
        "sequences of list words of any count (standard, near-standard, wrapping multiples, up to several hundred): verdict against the reference (about 1/16..1/256 of standard-count ones are valid); non-trivial = all",
        60_000,
        3_000_000,
        || (counts(), proptest::collection::vec(prop_oneof![8 => 0u16..2048, 1 => Just(0), 1 => Just(2047)], 1..30), lang()),
        |(n, w, l), o| {
            o.nt();
            let p: Vec<&str> = (0..*n).map(|i| bip39::words(*l)[w[i % w.len()] as usize]).collect();
            verdict(&p.join(" "), *l, o)
        },
    );
    r.sub(
        "many_words",
        "up to 70000 list words (every order of magnitude, standard counts plus multiples of 256 and 65536, sizes named in the source), many with a valid phrase at the start or end: verdict against the reference; non-trivial = more than 24 words",
        1_500,
        40_000,
        || (entropy(), lang(), prop_oneof![2 => long_size(70_000), 1 => (proptest::sample::select(vec![12usize, 15, 18, 21, 24]), 1usize..274, any::<bool>()).prop_map(|(c, k, big)| if big { 65536 + c } else { c + 256 * k })], any::<bool>(), 0usize..2048),
        |(e, l, n, end, w), o| {
            let n = (*n).max(1);
            o.nt_if(n > 24);
            let ph = bip39::phrase(&e.0, *l);
            let mut v: Vec<&str> = ph.split(' ').collect();
            let word = bip39::words(*l)[*w];
            while v.len() < n {
                v.push(word);
            }
            v.truncate(n);
            if *end {
                v.reverse();
                let k = ph.split(' ').count().min(n);
                v[n - k..].reverse();
            }
            verdict(&v.join(" "), *l, o)
        },
    );
    r.sub(
        "last_word",
        "all but the last word fixed, every one of the 2048 last words tried: exactly the reference's set is accepted (exhaustive per case); non-trivial = all",
        800,
        60_000,
        || (entropy(), lang()),
        |(e, l), o| {
            o.nt();
            o.extra = 2047;
            let ph = bip39::phrase(&e.0, *l);
            let stem = &ph[..ph.rfind(' ').unwrap() + 1];
            let mut q = Obs::default();
            for w in bip39::words(*l) {
                verdict(&format!("{}{}", stem, w), *l, &mut q)?;
            }
            Ok(())
        },
    );
    r.sub(
        "any_spelling",
        "edited phrases respelled with other whitespace and NFKD-equivalents, and free text: whatever validate accepts from_phrase accepts with the same entropy, and every accepted mnemonic's phrase is valid and carries exactly its own entropy; non-trivial = text differs from canonical",
        60_000,
        3_000_000,
        || (spell(), proptest::collection::vec(edit(), 0..2), prop_oneof![6 => Just(String::new()), 1 => ustring(20)], any::<bool>()),
        |(s, ed, extra, pre), o| {
            let mut s2 = s.clone();
            let mut t = if ed.is_empty() {
                s2.text()
            } else {
                // respell the edited words
                let w = apply_edits(&s.e.0, s.l, ed);
                let mut out = String::new();
                for (i, x) in w.iter().enumerate() {
                    let g: String = s2.ws.get(i).map(|v| v.iter().map(|c| WS[*c as usize % 25]).collect()).unwrap_or_default();
                    out += if i > 0 && g.is_empty() { " " } else { &g };
                    out += &respell(x, s.l, s2.alt.get(i).map(|v| &v[..]).unwrap_or(&[]));
                }
                out
            };
            s2.ws.clear();
            if !extra.is_empty() {
                t = if *pre { format!("{}{}", extra, t) } else { format!("{}{}", t, extra) };
            }
            o.nt_if(t != bip39::phrase(&s.e.0, s.l));
            for l in bip39::LANGS {
                let f = Mnemonic::from_phrase(&t, k::lang(l));
                let v = Mnemonic::validate(&t, k::lang(l));
                if let Ok(m) = &f {
                    o.label("from_phrase accepts");
                    same!(bip39::decode(m.phrase(), l).ok().as_deref(), Some(m.entropy()), "accepted mnemonic's phrase {:?} against its entropy", m.phrase());
                }
                if v.is_ok() {
                    o.label("validate accepts");
                    ensure!(f.is_ok(), "validate accepts but from_phrase refuses {:?}", t);
                }
            }
            Ok(())
        },
    );
}

pub fn p03(r: &mut Run) {
    r.sub(
        "respelled",
        "a valid phrase rewritten with any Unicode whitespace between and around words and NFKD-equivalent characters: same canonical phrase, entropy, language; non-trivial = the text differs from the canonical phrase",
        120_000,
        6_000_000,
        spell,
        |s, o| {
            let t = s.text();
            let ph = bip39::phrase(&s.e.0, s.l);
            o.nt_if(t != ph);
            o.label_if(s.alt.iter().any(|v| v.iter().any(|x| *x > 0)) && t.chars().any(|c| nfkd::tables().dec.contains_key(&c)), "respelled characters");
            o.label_if(t.starts_with(|c: char| c.is_whitespace()), "leading whitespace");
            let m = Mnemonic::from_phrase(&t, k::lang(s.l)).map_err(|x| format!("respelled valid phrase refused ({}): {:?}", x, t))?;
            views(&m, &s.e.0, s.l, "respelled phrase")
        },
    );
    r.sub(
        "long_whitespace",
        "a valid phrase with whitespace runs of up to 2^17 characters before, between or after its words: same mnemonic; non-trivial = more than 256 characters of whitespace",
        1_500,
        40_000,
        || (entropy(), lang(), long_size(1 << 17), 0usize..26, 0usize..26, proptest::collection::vec(0u8..25, 1..4)),
        |(e, l, n, at, at2, ws), o| {
            o.nt_if(*n > 256);
            let run: String = (0..*n).map(|i| WS[ws[i % ws.len()] as usize % 25]).collect();
            let ph = bip39::phrase(&e.0, *l);
            let c = ph.split(' ').count();
            let mut t = String::new();
            for (i, w) in ph.split(' ').enumerate() {
                if i > 0 {
                    t.push(' ');
                }
                if i == at % (c + 1) || i == at2 % (c + 1) {
                    t += &run;
                }
                t += w;
            }
            if at % (c + 1) == c {
                t += &run;
            }
            let m = Mnemonic::from_phrase(&t, k::lang(*l)).map_err(|x| format!("valid phrase with a run of {} whitespace characters refused: {}", n, x))?;
            views(&m, &e.0, *l, "phrase with long whitespace")
        },
    );
    r.sub(
        "each_whitespace",
        "every White_Space character used throughout, 1-3 at a time and around the phrase; non-trivial = all",
        4_000,
        100_000,
        || (entropy(), lang(), 0usize..25, 1usize..4, any::<[bool; 2]>()),
        |(e, l, w, n, around), o| {
            o.nt();
            let ws: String = std::iter::repeat(WS[*w]).take(*n).collect();
            let mut t = bip39::phrase(&e.0, *l).replace(' ', &ws);
            if around[0] {
                t = format!("{}{}", ws, t)
            }
            if around[1] {
                t += &ws
            }
            let m = Mnemonic::from_phrase(&t, k::lang(*l)).map_err(|x| format!("phrase with U+{:04X} between words refused: {}", WS[*w] as u32, x))?;
            views(&m, &e.0, *l, "rewhitespaced phrase")
        },
    );
    r.sub(
        "each_equivalent",
        "every character whose NFKD is a piece of a list word, substituted in a phrase containing that piece; non-trivial = all",
        12_000,
        300_000,
        || (any::<u32>(), entropy(), any::<u8>()),
        |(pick, e, pos), o| {
            let a = alts();
            let mut all: Vec<(&String, char, Lang)> = vec![];
            for (l, m) in [(Lang::En, &a.en), (Lang::Zh, &a.zh)] {
                for (p, v) in m {
                    all.extend(v.iter().map(|c| (p, *c, l)));
                }
            }
            all.sort();
            let (piece, c, l) = all[*pick as usize % all.len()];
            let cand: Vec<usize> = bip39::words(l).iter().enumerate().filter(|(_, w)| w.contains(piece.as_str())).map(|x| x.0).collect();
            if cand.is_empty() {
                return Ok(());
            }
            o.nt();
            // put a word holding the piece in the phrase (never as the checksum word)
            let word = bip39::words(l)[cand[*pos as usize % cand.len()]];
            let mut w: Vec<String> = bip39::phrase(&e.0, l).split(' ').map(String::from).collect();
            let n = w.len();
            w[*pos as usize % (n - 1)] = word.to_string();
            let mut fixed = None;
            for last in bip39::words(l) {
                w[n - 1] = last.to_string();
                if let Ok(en) = bip39::decode(&w.join(" "), l) {
                    fixed = Some(en);
                    break;
                }
            }
            let en = fixed.ok_or("no checksum word")?;
            let ph = w.join(" ");
            let t = ph.replace(piece.as_str(), &c.to_string());
            let m = Mnemonic::from_phrase(&t, k::lang(l)).map_err(|x| format!("phrase with U+{:04X} for {:?} refused: {}", c as u32, piece, x))?;
            views(&m, &en, l, "respelled phrase")
        },
    );
    r.sub(
        "seed",
        "respelled phrase x password: the seed equals the seed of the canonical phrase (reference PBKDF2); non-trivial = the text differs from the canonical phrase",
        4_000,
        120_000,
        || (spell(), password()),
        |(s, pw), o| {
            let t = s.text();
            let ph = bip39::phrase(&s.e.0, s.l);
            o.nt_if(t != ph);
            let m = Mnemonic::from_phrase(&t, k::lang(s.l)).map_err(|x| format!("respelled valid phrase refused ({}): {:?}", x, t))?;
            same!(Seed::new(&m, pw).as_bytes(), &bip39::seed(&ph, s.l, pw)[..], "seed of {:?}", t);
            Ok(())
        },
    );
}

pub fn p04(r: &mut Run) {
    r.sub(
        "rare",
        "mnemonics from a table whose seed, or its second half, begins or ends with a long run of zero or one bits: seed and its hexadecimal forms against the reference; non-trivial = all",
        200,
        1_000,
        || crate::rare::pick("seed").boxed(),
        |i, o| {
            o.nt();
            let e = &crate::clash::value(*i)[..16];
            let want = bip39::seed(&bip39::phrase(e, Lang::En), Lang::En, "");
            let s = Seed::new(&k::mnemonic(e, Lang::En)?, "");
            same!(s.as_bytes(), &want[..], "seed");
            same!(format!("{:x}", s), hexs(&want, false), "{{:x}}");
            same!(format!("{:#X}", s), format!("0x{}", hexs(&want, true)), "{{:#X}}");
            Ok(())
        },
    );
    r.sub(
        "seed",
        "valid mnemonic (from entropy or phrase) x Unicode password (empty, ASCII, whitespace-edged, combining runs, Hangul, compatibility characters, sizes around hash block boundaries): seed and all its views against reference NFKD + PBKDF2; non-trivial = non-empty password",
        14_000,
        600_000,
        || (entropy(), lang(), password(), any::<bool>()),
        |(e, l, pw, via), o| {
            o.nt_if(!pw.is_empty());
            o.label_if(nfkd::nfkd(pw) != *pw, "password not in NFKD");
            o.label_if(pw.len() > 119, "salt longer than one block");
            o.label_if(e.0.len() >= 28, "21-24 words");
            let ph = bip39::phrase(&e.0, *l);
            let m = if *via { k::mnemonic(&e.0, *l)? } else { Mnemonic::from_phrase(&ph, k::lang(*l)).map_err(|x| format!("canonical phrase refused: {}", x))? };
            same!(m.as_bytes(), bip39::phrase_bytes(&ph, *l), "Mnemonic::as_bytes");
            let s = Seed::new(&m, pw);
            let want = bip39::seed(&ph, *l, pw);
            same!(s.as_bytes(), &want[..], "seed for password {:?}", pw);
            same!(AsRef::<[u8]>::as_ref(&s), &want[..], "AsRef");
            same!(format!("{:x}", s), hexs(&want, false), "{{:x}}");
            same!(format!("{:X}", s), hexs(&want, true), "{{:X}}");
            same!(format!("{:#x}", s), format!("0x{}", hexs(&want, false)), "{{:#x}}");
            same!(format!("{:#X}", s), format!("0x{}", hexs(&want, true)), "{{:#X}}");
            same!(format!("{:?}", s), format!("0x{}", hexs(&want, true)), "{{:?}}");
            let c = s.clone();
            same!(c.as_bytes(), &want[..], "clone");
            same!(m.phrase(), ph, "the mnemonic after stretching");
            Ok(())
        },
    );
    r.sub(
        "equivalent",
        "a password respelled (single characters replaced by an NFKD-equivalent one, combining marks of different classes reordered): both give the reference seed; non-trivial = the spellings differ",
        3_000,
        120_000,
        || (entropy(), lang(), ustring(8), proptest::collection::vec(any::<u16>(), 8)),
        |(e, l, pw, ch), o| {
            // canonical form and a decomposed/recomposed respelling of it
            let canon = nfkd::nfkd(pw);
            let mut re = String::new();
            for (i, c) in canon.chars().enumerate() {
                let v = single_inverse(c);
                let k = ch[i % ch.len()] as usize;
                if !v.is_empty() && k % 3 != 0 {
                    re.push(v[k / 3 % v.len()])
                } else {
                    re.push(c)
                }
            }
            if nfkd::nfkd(&re) != canon {
                return Ok(()); // the replacement interacts with a neighbouring combining mark
            }
            o.nt_if(re != *pw || canon != *pw);
            let m = k::mnemonic(&e.0, *l)?;
            let want = bip39::seed(&bip39::phrase(&e.0, *l), *l, &canon);
            for p in [pw, &canon, &re] {
                same!(Seed::new(&m, p).as_bytes(), &want[..], "seed for password {:?} (equivalent to {:?})", p, canon);
            }
            Ok(())
        },
    );
    p04_long(r);
}
fn p04_long(r: &mut Run) {
    r.sub(
        "long_passwords",
        "passwords of up to 2^18 bytes (every order of magnitude, powers of two and ten, sizes named in the source) with single characters changed anywhere, many at the very end: seed against the reference, and a password changed in one place gives another seed; non-trivial = more than 1024 bytes",
        1_500,
        40_000,
        || (entropy(), lang(), long(1 << 18, prop_oneof![3 => "[!-~]{1,9}".boxed(), 1 => ustring(6)].boxed()), prop_oneof![0u32..3, any::<u32>()], proptest::char::range('0', 'z')),
        |(e, l, pw, at, c), o| {
            let t = pw.text();
            o.nt_if(t.len() > 1024);
            o.label(match t.len() { 0..=1023 => "< 1 KiB", 1024..=16383 => "1-16 KiB", _ => ">= 16 KiB" });
            let m = k::mnemonic(&e.0, *l)?;
            let ph = bip39::phrase(&e.0, *l);
            let a = Seed::new(&m, &t);
            same!(a.as_bytes(), &bip39::seed(&ph, *l, &t)[..], "seed for a password of {} bytes", t.len());
            let mut w = pw.clone();
            w.marks.push((*at, *c));
            let u = w.text();
            let b = Seed::new(&m, &u);
            same!(b.as_bytes(), &bip39::seed(&ph, *l, &u)[..], "seed for the changed password of {} bytes", u.len());
            ensure!((nfkd::nfkd(&t) == nfkd::nfkd(&u)) == (a.as_bytes() == b.as_bytes()), "two passwords of {} bytes, different near {} from the end, give one seed", t.len(), at);
            Ok(())
        },
    );
}
/// characters whose NFKD is exactly the one character c
fn single_inverse(c: char) -> &'static [char] {
    use std::collections::HashMap;
    static T: std::sync::OnceLock<HashMap<char, Vec<char>>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut m: HashMap<char, Vec<char>> = HashMap::new();
        for c in &nfkd::tables().decomposable {
            let d = &nfkd::tables().dec[c];
            if d.len() == 1 {
                m.entry(d[0]).or_default().push(*c)
            }
        }
        m
    })
    .get(&c)
    .map(|v| &v[..])
    .unwrap_or(&[])
}

fn word_index(l: Lang, w: &str) -> Option<u16> {
    k::lang(l).wordmap().get_bits(w).ok().map(|b| b.into())
}
pub fn p19(r: &mut Run) {
    r.custom("tables", "every index 0..=2047 of both languages: index-to-word, word-to-index, prefix of each length of each word, no word of one list in the other (exhaustive); non-trivial = all", |_, _| {
        let mut n = 0u64;
        for l in bip39::LANGS {
            let wl = k::lang(l).wordlist();
            for (i, w) in bip39::words(l).iter().enumerate() {
                let c = json!({"lang": format!("{:?}", l), "index": i, "word": w});
                if wl.get_word((i as u16).into()) != *w {
                    return Ok(Err((c, format!("word {} is {:?}, expected {:?}", i, wl.get_word((i as u16).into()), w))));
                }
                if word_index(l, w) != Some(i as u16) {
                    return Ok(Err((c, format!("index of {:?} is {:?}, expected {}", w, word_index(l, w), i))));
                }
                let other = if l == Lang::En { Lang::Zh } else { Lang::En };
                if word_index(other, w).is_some() {
                    return Ok(Err((c, format!("{:?} is in both lists", w))));
                }
                for (p, ch) in w.char_indices() {
                    let pre = &w[..p + ch.len_utf8()];
                    let want: Vec<&str> = bip39::words(l).iter().copied().filter(|x| x.starts_with(pre)).collect();
                    if wl.get_words_by_prefix(pre) != &want[..] {
                        return Ok(Err((c, format!("words starting with {:?}: got {:?}, expected {:?}", pre, wl.get_words_by_prefix(pre), want))));
                    }
                    n += 1;
                }
                n += 2;
            }
            if wl.get_words_by_prefix("") != bip39::words(l) {
                return Ok(Err((json!({"lang": format!("{:?}", l)}), "the empty prefix does not give the whole list".into())));
            }
        }
        Ok(Ok((n, n, vec![json!({"lang": "En", "index": 0, "word": "abandon"})], json!({}))))
    });
    let text = || {
        prop_oneof![
            3 => (0usize..2048, lang(), proptest::collection::vec(any::<u16>(), 0..4)).prop_map(|(i, l, ed)| {
                let mut cs: Vec<char> = bip39::words(l)[i].chars().collect();
                for e in ed {
                    let p = (e >> 8) as usize % (cs.len() + 1);
                    match e % 5 {
                        0 => cs.insert(p, (b'a' + (e >> 3) as u8 % 26) as char),
                        1 if p < cs.len() => { cs.remove(p); }
                        2 if p < cs.len() => cs[p] = (b'a' + (e >> 3) as u8 % 26) as char,
                        3 if p < cs.len() => cs[p] = cs[p].to_ascii_uppercase(),
                        _ => cs.truncate(p),
                    }
                }
                cs.into_iter().collect::<String>()
            }),
            1 => (0usize..2048, lang(), 0usize..25).prop_map(|(i, l, w)| format!("{}{}", bip39::words(l)[i], WS[w])),
            1 => (0usize..2048, lang(), proptest::collection::vec(1u16..300, 1..9)).prop_map(|(i, l, ch)| respell(bip39::words(l)[i], l, &ch)),
            1 => "[a-z]{0,4}", 1 => "[一-龥]{1,2}", 1 => ustring(5),
            1 => (0usize..2048, lang(), long_size(600), any::<bool>()).prop_map(|(i, l, n, rep)| { let w = bip39::words(l)[i]; if rep { w.repeat(1 + n / w.len()) } else { format!("{}{}", w, "a".repeat(n)) } }),
            1 => (0usize..2048, 0usize..2048).prop_map(|(a, b)| format!("{}{}", bip39::words(Lang::Zh)[a], bip39::words(Lang::Zh)[b])),
            1 => (0..crate::dict::dict().strs.len()).prop_map(|i| crate::dict::dict().strs[i].clone()),
        ]
    };
    r.sub(
        "lookup",
        "texts near list words (edited, truncated, cased, respelled, glued) and free text: known exactly if in the reference list, at its index; prefix search equals the filtered reference list; non-trivial = not a list word",
        100_000,
        4_000_000,
        text,
        |t, o| {
            o.nt_if(LANG_NONE(t));
            for l in bip39::LANGS {
                let want = bip39::index(l, t).map(|i| i as u16);
                same!(word_index(l, t), want, "index of {:?} in {:?}", t, l);
                let wantp: Vec<&str> = bip39::words(l).iter().copied().filter(|x| x.starts_with(t.as_str())).collect();
                o.label_if(!wantp.is_empty(), "prefix with matches");
                same!(k::lang(l).wordlist().get_words_by_prefix(t), &wantp[..], "words of {:?} starting with {:?}", l, t);
            }
            Ok(())
        },
    );
    r.sub(
        "codes",
        "language codes: en and zh-cn in every case pattern, near misses, other languages' codes, free text; non-trivial = not exactly en/zh-cn",
        20_000,
        600_000,
        || {
            let case = |s: &'static str| proptest::collection::vec(any::<bool>(), s.len()).prop_map(move |v| s.chars().zip(v).map(|(c, u)| if u { c.to_ascii_uppercase() } else { c }).collect::<String>());
            prop_oneof![
                3 => case("en"), 3 => case("zh-cn"),
                2 => prop_oneof![case("fr"), case("it"), case("ja"), case("ko"), case("es"), case("zh-tw"), case("e"), case("zh"), case("cn"), case("eng"), case("english"), case("en-us"), case("zhcn"), case("zh_cn"), case("zh-cnn"), case("zh--cn")],
                1 => (prop_oneof![case("en"), case("zh-cn")], any::<u16>()).prop_map(|(s, e)| { let mut c: Vec<char> = s.chars().collect(); let p = (e >> 8) as usize % (c.len() + 1); let x = ((e & 0x7f) as u8) as char; if e & 0x80 == 0 || p == c.len() { c.insert(p, x) } else { c[p] = x } c.into_iter().collect() }),
                1 => ustring(4), 1 => (0..crate::dict::dict().strs.len()).prop_map(|i| crate::dict::dict().strs[i].clone()),
            ]
        },
        |t, o| {
            o.nt_if(t != "en" && t != "zh-cn");
            // a script-based spelling of the same language ("zh-hans") is left open
            let low = t.to_ascii_lowercase();
            if low == "zh-hans" || low == "zh-hans-cn" {
                return Ok(());
            }
            let want = match &low[..] {
                "en" => Some(Language::English),
                "zh-cn" => Some(Language::ChineseSimplified),
                _ => None,
            };
            same!(Language::from_language_code(t), want, "from_language_code({:?})", t);
            Ok(())
        },
    );
    r.sub(
        "detect",
        "valid phrases of both languages, canonical or with other whitespace: detection gives the language they were made in; non-trivial = all",
        60_000,
        2_000_000,
        || spell().prop_map(|mut s| { s.alt.clear(); s }),
        |s, o| {
            o.nt();
            let want = Some(k::lang(s.l));
            same!(Language::from_phrase(&bip39::phrase(&s.e.0, s.l)), want, "detected language of a canonical phrase");
            same!(Language::from_phrase(&s.text()), want, "detected language of {:?}", s.text());
            Ok(())
        },
    );
}
#[allow(non_snake_case)]
fn LANG_NONE(t: &str) -> bool {
    bip39::LANGS.iter().all(|l| bip39::index(*l, t).is_none())
}
