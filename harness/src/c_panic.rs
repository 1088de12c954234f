//! P15: nothing a signature admits makes the library panic.
use crate::c_bip32::{char_edit, char_edits, CharEdit};
use crate::dict::dict;
use crate::engine::Run;
use crate::gen::*;
use crate::k;
use crate::refs::bip39::{self, Lang};
use crate::refs::{base58, secp};
use kms::bip32::{ChildNumber, DerivationPath, ExtendedKey, ExtendedKeyAttrs, Prefix, PrivateKey, PublicKey, XPrv, XPub};
use kms::bip39::{Language, Mnemonic, MnemonicType, Seed};
use libsecp256k1 as ls;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::str::FromStr;
use subtle::ConstantTimeEq;

/// Every text entry point.
pub fn feed_text(t: &str) {
    for l in [Language::English, Language::ChineseSimplified] {
        let _ = Mnemonic::validate(t, l).map_err(|e| format!("{} {:?}", e, e));
        if let Ok(m) = Mnemonic::from_phrase(t, l) {
            let _ = (m.as_bytes(), format!("{} {:?} {:x} {:#X}", m, m, m, m), m.language(), m.entropy().len());
            let c = m.clone();
            let _ = Language::from_phrase(m.phrase());
            let _ = m.into_phrase();
            let _ = String::from(c);
        }
        let _ = l.wordlist().get_words_by_prefix(t).len();
        let _ = l.wordmap().get_bits(t).map(u16::from).map_err(|e| format!("{} {:?}", e, e));
    }
    let _ = Language::from_language_code(t);
    let _ = Language::from_phrase(t);
    let _ = MnemonicType::for_phrase(t).map(|t| (t.word_count(), t.to_string())).map_err(|e| format!("{} {:?}", e, e));
    // Base58 decoding may legitimately take quadratic time, so the key parsers get a bounded piece
    let b58 = if t.len() > 1 << 15 { t.chars().take(1 << 14).collect() } else { t.to_string() };
    let b58 = &b58[..];
    if let Ok(e) = ExtendedKey::from_str(b58) {
        use_ek(e);
    }
    if let Ok(x) = XPrv::from_str(b58) {
        use_xprv(&x);
    }
    if let Ok(x) = XPub::from_str(b58) {
        use_xpub(&x);
    }
    if let Ok(c) = ChildNumber::from_str(t) {
        let _ = (c.to_string(), format!("{:?}", c), c.to_bytes(), c.index(), c.is_hardened(), u32::from(c));
    }
    if let Ok(mut p) = DerivationPath::from_str(t) {
        use_path(&mut p);
    }
    feed_bytes(t.as_bytes());
}
fn feed_bytes(b: &[u8]) {
    for l in [Language::English, Language::ChineseSimplified] {
        if let Ok(m) = Mnemonic::from_entropy(b, l) {
            let _ = (m.as_bytes(), format!("{:?} {:X}", m, m));
        }
    }
    let _ = Prefix::try_from(b).map(use_prefix);
    let _ = kms::crypto::ripemd(b);
    let _ = XPrv::new(b).map(|x| use_xprv(&x)).map_err(|e| e.to_string());
    let one = ls::SecretKey::parse(&{
        let mut k = [0; 32];
        k[31] = 1;
        k
    })
    .unwrap();
    let _ = kms::ecdsa_sign(&one, b).map_err(|e| format!("{} {:?}", e, e));
    if let Ok(a) = <[u8; 4]>::try_from(b) {
        let _ = Prefix::from_bytes(a).map(use_prefix);
        let _ = ChildNumber::from_bytes(a).to_string();
    }
    if let Ok(a) = <[u8; 32]>::try_from(b) {
        let _ = <ls::SecretKey as PrivateKey>::from_bytes(&a).map(|k| PrivateKey::to_bytes(&k));
    }
    if let Ok(a) = <[u8; 33]>::try_from(b) {
        let _ = <ls::PublicKey as PublicKey>::from_bytes(a).map(|k| (PublicKey::to_bytes(&k), k.fingerprint()));
    }
}
fn use_prefix(p: Prefix) {
    let _ = (p.to_string(), format!("{:?} {:#?}", p, p), p.as_str().len(), p.is_private(), p.is_public(), p.version(), p.to_bytes(), p == p, p.cmp(&p));
}
pub fn use_ek(e: ExtendedKey) {
    use_prefix(e.prefix);
    let _ = e.to_string();
    let _ = format!("{:>200}", e);
    let mut buf = [0u8; ExtendedKey::MAX_BASE58_SIZE];
    let _ = e.write_base58(&mut buf).map(|s| s.len());
    let mut buf = [0xffu8; ExtendedKey::MAX_BASE58_SIZE];
    let _ = e.write_base58(&mut buf).map(|s| s.len());
    let _ = XPrv::try_from(e.clone()).map(|x| use_xprv(&x)).map_err(|e| e.to_string());
    let _ = XPub::try_from(e).map(|x| use_xpub(&x)).map_err(|e| e.to_string());
}
pub fn use_xprv(x: &XPrv) {
    let _ = (format!("{:?} {:#?}", x, x), x.to_string(Prefix::ZPRV).len(), x.to_bytes(), x.attrs().depth);
    let _ = x.to_string(Prefix::XPUB).len();
    for i in [0, 1 << 31] {
        let _ = x.derive_child(ChildNumber(i)).map(|c| c.public_key().fingerprint());
    }
    use_xpub(&x.public_key());
    let y = x.clone();
    let _ = (x == &y, bool::from(x.ct_eq(&y)));
    let _ = ls::SecretKey::from(y).serialize();
}
pub fn use_xpub(x: &XPub) {
    let _ = (format!("{:?} {:#?}", x, x), x.to_string(Prefix::TPUB), x.to_bytes(), x.fingerprint());
    for i in [0, 1 << 31] {
        let _ = x.derive_child(ChildNumber(i)).map(|c| c.to_bytes());
    }
    let _ = x == &x.clone();
    let _ = ls::PublicKey::from(x.clone());
}
fn use_path(p: &mut DerivationPath) {
    let _ = (p.to_string(), format!("{:?} {:#?}", p, p), p.len(), p.is_empty(), p.iter().count(), p.as_ref().len());
    let _ = p.clone().into_iter().map(|c| c.index() as u64).sum::<u64>();
    let mut q = p.clone();
    while let Some(r) = q.parent() {
        if r.len() > 400 {
            break;
        }
        q = r;
    }
    p.push(ChildNumber(u32::MAX));
    p.extend(q);
    let _ = p.to_string();
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Base {
    Phrase(B, Lang),
    Prv(Key, u8),
    Pub(Key, u8),
    Payload(B),
    Path(Vec<u32>),
    Word(u16, Lang),
    Free(String),
    Repeat(String, u32),
    Src(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum TEdit {
    C(CharEdit),
    /// a long run of one character at a place
    Run(u8, char, u16),
    /// the text in upper case, with a byte order mark, between quotes ...
    Wrap(String, String),
    /// word-level surgery
    DropWord(u8),
    DupWord(u8, u8),
    JoinWith(String),
}
const VERSIONS: [u32; 8] = [0x04358394, 0x043587cf, 0x0488ade4, 0x0488b21e, 0x049d7878, 0x049d7cb2, 0x04b2430c, 0x04b24746];
fn base_text(b: &Base) -> String {
    match b {
        Base::Phrase(e, l) => bip39::phrase(&e.0, *l),
        Base::Prv(k, v) => k.r().text(VERSIONS[*v as usize % 8]),
        Base::Pub(k, v) => k.r().neuter().text(VERSIONS[*v as usize % 8]),
        Base::Payload(b) => base58::check_encode(&b.0),
        Base::Path(p) => k::path_text(p),
        Base::Word(i, l) => bip39::words(*l)[*i as usize % 2048].to_string(),
        Base::Free(s) => s.clone(),
        Base::Repeat(s, n) => s.repeat(*n as usize),
        Base::Src(i) => dict().strs[*i % dict().strs.len()].clone(),
    }
}
fn edit_text(t: String, ed: &[TEdit]) -> String {
    let mut t = t;
    for e in ed {
        t = match e {
            TEdit::C(c) => char_edits(&t, std::slice::from_ref(c)),
            TEdit::Run(p, c, n) => {
                let mut v: Vec<char> = t.chars().collect();
                let at = *p as usize % (v.len() + 1);
                v.splice(at..at, std::iter::repeat(*c).take(*n as usize));
                v.into_iter().collect()
            }
            TEdit::Wrap(a, b) => format!("{}{}{}", a, t, b),
            TEdit::DropWord(i) => {
                let mut w: Vec<&str> = t.split(' ').collect();
                w.remove(*i as usize % w.len());
                w.join(" ")
            }
            TEdit::DupWord(i, n) => {
                let mut w: Vec<&str> = t.split(' ').collect();
                let at = *i as usize % w.len();
                let x = w[at];
                w.splice(at..at, std::iter::repeat(x).take(*n as usize));
                w.join(" ")
            }
            TEdit::JoinWith(s) => t.split([' ', '/']).collect::<Vec<_>>().join(s),
        }
    }
    t
}
fn base() -> BoxedStrategy<Base> {
    prop_oneof![
        3 => (entropy(), lang()).prop_map(|(e, l)| Base::Phrase(e, l)),
        3 => (key(), any::<u8>()).prop_map(|(k, v)| Base::Prv(k, v)),
        2 => (key(), any::<u8>()).prop_map(|(k, v)| Base::Pub(k, v)),
        3 => (prop_oneof![4 => Just(78usize), 1 => 0usize..200], prop_oneof![3 => proptest::sample::select(VERSIONS.to_vec()), 1 => any::<u32>()], bytes_pat(200)).prop_map(|(n, v, b)| {
            let mut b = b[..n].to_vec();
            for (i, x) in v.to_be_bytes().iter().enumerate() { if i < n { b[i] = *x } }
            Base::Payload(B(b))
        }),
        2 => path(12).prop_map(Base::Path),
        1 => (any::<u16>(), lang()).prop_map(|(i, l)| Base::Word(i, l)),
        4 => ustring(40).prop_map(Base::Free),
        2 => "[ -~]{0,130}".prop_map(Base::Free),
        1 => proptest::collection::vec(any::<char>(), 0..40).prop_map(|v| Base::Free(v.into_iter().collect())),
        2 => (prop_oneof![ustring(4), proptest::sample::select(vec!["/0'", "1", "z", " ", "abandon ", "m", "/", "'", "的 ", "0", "9", "\u{3000}", "ﷺ"]).prop_map(String::from)], prop_oneof![0u32..300, 0u32..20_000]).prop_map(|(s, n)| Base::Repeat(s, n)),
        1 => any::<usize>().prop_map(Base::Src),
        2 => (prop_oneof![Just("m/"), Just("m/0'/"), Just("")], prop_oneof!["[0-9]{1,40}'?", "-?[0-9]{1,12}['hH]{0,3}", "\\+?[0-9]{1,11}'?"]).prop_map(|(a, b)| Base::Free(format!("{}{}", a, b))),
    ]
    .boxed()
}
fn tedits() -> BoxedStrategy<Vec<TEdit>> {
    proptest::collection::vec(
        prop_oneof![
            5 => char_edit().prop_map(TEdit::C),
            1 => (any::<u8>(), uchar(), prop_oneof![0u16..8, 0u16..2000]).prop_map(|(p, c, n)| TEdit::Run(p, c, n)),
            1 => (ustring(3), ustring(3)).prop_map(|(a, b)| TEdit::Wrap(a, b)),
            1 => any::<u8>().prop_map(TEdit::DropWord),
            1 => (any::<u8>(), 1u8..40).prop_map(|(a, b)| TEdit::DupWord(a, b)),
            1 => proptest::sample::select(vec!["", "  ", "\n", "\u{3000}", "/", "-", "\0"]).prop_map(|s| TEdit::JoinWith(s.into())),
        ],
        0..4,
    )
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AnyKey {
    version: u32,
    depth: u8,
    fp: A<4>,
    child: u32,
    chain: B32,
    key: A<33>,
}

pub fn p15(r: &mut Run) {
    r.sub(
        "text",
        "texts near every accepted format (phrases, serialised keys, payloads with right checksums, paths, words, source literals) damaged by edits, and free text over many Unicode classes, long runs included, fed to every text and byte entry point and everything that accepts them exercised further; non-trivial = not empty",
        60_000,
        5_000_000,
        || (base(), tedits()),
        |(b, e), o| {
            let t = edit_text(base_text(b), e);
            o.nt_if(!t.is_empty());
            o.label_if(t.len() > 1000, "over 1000 bytes");
            o.label_if(!t.is_ascii(), "not ASCII");
            feed_text(&t);
            Ok(())
        },
    );
    r.sub(
        "long",
        "very long texts (up to 2^20 bytes, every order of magnitude): a unit repeated, alone or appended or prepended to a valid phrase, key, payload or path, fed to every text and byte entry point and used as a password; non-trivial = more than 4096 bytes",
        600,
        20_000,
        || (base(), long(1 << 20, prop_oneof![2 => ustring(4), 2 => proptest::sample::select(vec!["/0'", "1", "z", " ", "abandon ", "/", "'", "的 ", "0", "9", "\u{3000}", "ﷺ", "\u{301}", "zoo", "\0"]).prop_map(String::from)].boxed()), 0u8..4),
        |(b, n, how), o| {
            let (b, n) = (base_text(b), n.text());
            o.nt_if(n.len() > 4096);
            let t = match how { 0 => n.clone(), 1 => b + &n, _ => n.clone() + &b };
            feed_text(&t);
            if *how == 3 {
                let m = Mnemonic::from_entropy(&[7; 16], Language::English).map_err(|e| e.to_string())?;
                let _ = Seed::new(&m, &t).as_bytes().len();
            }
            Ok(())
        },
    );
    r.sub(
        "bytes",
        "byte strings of every length 0..=4200 and sampled lengths up to 2^20, structured contents, fed to every byte entry point; non-trivial = not empty",
        40_000,
        2_000_000,
        || (prop_oneof![40 => size(4200), 1 => long_size(1 << 20)], bytes_pat(64)),
        |(n, v), o| {
            o.nt_if(*n > 0);
            let m: Vec<u8> = (0..*n).map(|i| v[i % 64].wrapping_add((i / 64) as u8)).collect();
            feed_bytes(&m);
            Ok(())
        },
    );
    r.sub(
        "fields",
        "extended keys built field by field with any prefix, depth, fingerprint, child number, chain code and 33 key bytes, then serialised, converted and derived from; non-trivial = all",
        40_000,
        3_000_000,
        || (prop_oneof![2 => proptest::sample::select(VERSIONS.to_vec()), 2 => any::<u32>(), 1 => int().prop_map(|v| v as u32)], depth(), fp(), idx(), b32(), (prop_oneof![3 => Just(0u8), 2 => Just(2u8), 2 => Just(3u8), 1 => any::<u8>()], b32())).prop_map(|(version, depth, fp, child, chain, (t, k))| {
            let mut key = A([t; 33]);
            key.0[1..].copy_from_slice(&k.0);
            AnyKey { version, depth, fp, child, chain, key }
        }),
        |a, o| {
            o.nt();
            for p in [Prefix::try_from(a.version).ok(), Some(Prefix::XPRV), Some(Prefix::XPUB)].into_iter().flatten() {
                use_prefix(p);
                use_ek(ExtendedKey { prefix: p, attrs: ExtendedKeyAttrs { depth: a.depth, parent_fingerprint: a.fp.0, child_number: ChildNumber(a.child), chain_code: a.chain.0 }, key_bytes: a.key.0 });
            }
            Ok(())
        },
    );
    r.sub(
        "tweaks",
        "raw key operations with any 32-byte tweak, many near 0, n and n minus the key; non-trivial = all",
        15_000,
        1_000_000,
        || (scalar(), point(), b32(), any::<u8>()),
        |(key, p, t, c), o| {
            o.nt();
            let t = match c % 8 {
                0 => secp::to_be(&secp::neg(&secp::from_be(&key.0), &secp::N)),
                1 => key.0,
                _ => t.0,
            };
            let sk = <ls::SecretKey as PrivateKey>::from_bytes(&key.0).map_err(|e| format!("valid key refused: {}", e))?;
            let _ = PrivateKey::derive_child(&sk, t).map(|k| PrivateKey::to_bytes(&k));
            let pk = PrivateKey::public_key(&sk);
            let _ = PublicKey::derive_child(&pk, t).map(|k| PublicKey::to_bytes(&k));
            if let Ok(pk) = <ls::PublicKey as PublicKey>::from_bytes(p.0) {
                let _ = PublicKey::derive_child(&pk, t).map(|k| (PublicKey::to_bytes(&k), k.fingerprint()));
            }
            Ok(())
        },
    );
    r.sub(
        "sizes",
        "word counts, key sizes and child indices over the whole integer range; non-trivial = not one of the valid sizes",
        60_000,
        2_000_000,
        || prop_oneof![2 => any::<u64>(), 2 => 0u64..600, 2 => int(), 1 => (0u32..64, -2i64..3).prop_map(|(b, d)| (1i64 << b.min(62)).wrapping_add(d) as u64), 1 => (0u64..40).prop_map(|k| u64::MAX - k)],
        |n, o| {
            o.nt_if(![12, 15, 18, 21, 24, 128, 160, 192, 224, 256].contains(n));
            for t in [MnemonicType::for_word_count(*n as usize), MnemonicType::for_key_size(*n as usize)] {
                match t {
                    Ok(t) => {
                        let _ = (t.to_string(), format!("{:?}", t), t.total_bits(), t.entropy_bits(), t.checksum_bits(), t.word_count());
                    }
                    Err(e) => {
                        let _ = format!("{} {:?} {:#}", e, e, e);
                    }
                }
            }
            for h in [false, true] {
                let _ = ChildNumber::new(*n as u32, h).map(|c| c.to_string());
            }
            let c = ChildNumber::from(*n as u32);
            let _ = (c.to_string(), c.index(), c.is_hardened(), c.to_bytes());
            let _ = Prefix::try_from(*n as u32).map(use_prefix);
            Ok(())
        },
    );
    r.sub(
        "derive",
        "derivation from any key at any depth by any index and along any path, private and public; non-trivial = all",
        8_000,
        500_000,
        || (key(), path(4)),
        |(kk, p), o| {
            o.nt();
            let x = k::xprv(kk)?;
            for i in p {
                let _ = x.derive_child(ChildNumber(*i)).map(|c| c.to_bytes());
                let _ = x.public_key().derive_child(ChildNumber(*i)).map(|c| c.to_bytes());
            }
            let _ = x.clone().derive_from_path(&k::path(p)).map(|c| c.to_bytes());
            let _ = x.public_key().derive_from_path(&k::path(p)).map(|c| c.to_bytes());
            Ok(())
        },
    );
    r.sub(
        "passwords",
        "any password text (long, unnormalised, control characters) into the seed; non-trivial = not empty",
        600,
        30_000,
        || (entropy(), lang(), password()),
        |(e, l, p), o| {
            o.nt_if(!p.is_empty());
            let s = Seed::new(&k::mnemonic(&e.0, *l)?, p);
            let _ = (format!("{:?} {:x} {:#X}", s, s, s), s.as_bytes().len(), s.clone().as_ref().len());
            let _ = XPrv::new(s).map(|x| use_xprv(&x));
            Ok(())
        },
    );
}
