//! P29: a refusal names a fault that the refused input has.
use crate::c_bip32::{char_edit, char_edits, pay, prefixes};
use crate::c_bip39::{apply_edits, edit};
use crate::engine::{Obs, Out, Run};
use crate::gen::*;
use crate::k::{self, Kind};
use crate::refs::bip39::{self, Lang};
use crate::refs::{base58, nfkd, secp};
use kms::bip32::{ChildNumber, DerivationPath, Error, ExtendedKey, Prefix, PrivateKey, PublicKey, XPrv, XPub};
use kms::bip39::{Mnemonic, MnemonicType};
use proptest::prelude::*;
use std::str::FromStr;

/// what a kind's message must speak of
const SAYS: [(Error, &str); 7] = [
    (Error::Base58, "base58"),
    (Error::Bip39, "bip39"),
    (Error::ChildNumber, "child"),
    (Error::Crypto, "crypt"),
    (Error::Decode, "decod"),
    (Error::Depth, "depth"),
    (Error::SeedLength, "seed"),
];
fn message(e: &Error) -> Out {
    let t = e.to_string().to_lowercase();
    let Some((_, want)) = SAYS.iter().find(|(k, _)| k == e) else { return Err(format!("unknown kind {:?}", e)) };
    ensure!(t.contains(want), "the message of {:?} is {:?}", e, t);
    for (k, w) in &SAYS {
        ensure!(k == e || !t.contains(w), "the message of {:?} is {:?}, which speaks of {:?}", e, t, k);
    }
    same!(*e, e.clone(), "a copy of an error");
    Ok(())
}
/// the refusal is one of `may`
fn one_of<T>(r: Result<T, Error>, may: &[Error], o: &mut Obs, what: &str) -> Out {
    let Err(e) = r else { return Ok(()) };
    o.nt();
    o.label(match e { Error::Base58 => "Base58", Error::ChildNumber => "ChildNumber", Error::Crypto => "Crypto", Error::Decode => "Decode", Error::Depth => "Depth", Error::SeedLength => "SeedLength", _ => "other" });
    ensure!(may.contains(&e), "{}: refused as {:?}, but its faults are {:?}", what, e, may);
    message(&e)
}
/// faults of a text as an extended key, as a private and as a public one; none: it is well-formed
fn text_faults(t: &str) -> [Vec<Error>; 3] {
    let mut f = vec![];
    if !t.get(..4).is_some_and(|p| p.bytes().all(|b| b.is_ascii_alphabetic())) {
        f.push(Error::Decode);
    }
    let Some(raw) = base58::decode(t) else {
        f.push(Error::Base58);
        if t.len() > 112 || t.len() < 100 {
            f.push(Error::Decode);
        }
        return [f.clone(), f.clone(), f];
    };
    if raw.len() != 82 {
        f.push(Error::Decode);
    }
    if raw.len() < 4 || raw.len() > 82 {
        f.push(Error::Base58);
    }
    let Some(p) = base58::check_decode(t) else {
        f.push(Error::Base58);
        return [f.clone(), f.clone(), f];
    };
    if p.len() != 78 {
        return [f.clone(), f.clone(), f];
    }
    if p[4] == 0 && p[5..13] != [0; 8] {
        f.push(Error::Decode);
    }
    let (mut prv, mut pb) = (f.clone(), f.clone());
    let kind = t.get(1..4);
    let key: [u8; 33] = p[45..].try_into().unwrap();
    if kind != Some("prv") || key[0] != 0 || secp::valid_scalar(key[1..].try_into().unwrap()).is_none() {
        prv.push(Error::Crypto);
    }
    if kind != Some("pub") || secp::decompress(&key).is_none() {
        pb.push(Error::Crypto);
    }
    [f, prv, pb]
}
fn text_verdict(t: &str, o: &mut Obs) -> Out {
    let [any, prv, pb] = text_faults(t);
    one_of(ExtendedKey::from_str(t), &any, o, &format!("{:?} as an extended key", t))?;
    one_of(XPrv::from_str(t), &prv, o, &format!("{:?} as a private key", t))?;
    one_of(XPub::from_str(t), &pb, o, &format!("{:?} as a public key", t))
}
fn child_ok(s: &str) -> bool {
    let d = s.strip_suffix('\'').unwrap_or(s);
    d.parse::<u32>().is_ok_and(|v| v < 1 << 31)
}
/// the kinds an error about a phrase may have
fn phrase_verdict(t: &str, l: Lang, o: &mut Obs) -> Out {
    let clean = nfkd::nfkd(t);
    let spaced: Vec<&str> = clean.split_whitespace().collect();
    let mut may = vec![];
    let known = |w: &str| bip39::index(l, w).is_some();
    let std = |n: usize| [12, 15, 18, 21, 24].contains(&n);
    if spaced.is_empty() || spaced.iter().any(|w| !known(w)) {
        may.push(Kind::Word);
    }
    if !std(spaced.len()) {
        may.push(Kind::Count(spaced.len()));
    }
    if may.is_empty() && bip39::decode(&spaced.join(" "), l).is_err() {
        may.push(Kind::Checksum);
    }
    if let Err(e) = Mnemonic::from_phrase(t, k::lang(l)) {
        o.nt();
        phrase_error(&e, &may, &format!("from_phrase({:?})", t))?;
    }
    // standalone validation takes the text as it is
    let raw: Vec<&str> = t.split(' ').collect();
    let mut may = vec![];
    if raw.iter().any(|w| !known(w)) {
        may.push(Kind::Word);
    }
    for n in [raw.len(), spaced.len()] {
        if !std(n) {
            may.push(Kind::Count(n));
        }
    }
    if std(raw.len()) && raw.iter().all(|w| known(w)) && bip39::decode(t, l).is_err() {
        may.push(Kind::Checksum);
    }
    if let Err(e) = Mnemonic::validate(t, k::lang(l)) {
        o.nt();
        phrase_error(&e, &may, &format!("validate({:?})", t))?;
    }
    if let Err(e) = MnemonicType::for_phrase(t) {
        let may: Vec<Kind> = [raw.len(), t.split_whitespace().count()].into_iter().filter(|n| !std(*n)).map(Kind::Count).collect();
        phrase_error(&e, &may, &format!("for_phrase({:?})", t))?;
    }
    for w in spaced.iter().take(3).chain(raw.iter().take(2)) {
        if let Err(e) = k::lang(l).wordmap().get_bits(w) {
            phrase_error(&e.into(), &[Kind::Word], &format!("get_bits({:?})", w)).and_then(|_| if known(w) { Err(format!("the word {:?} is on the list", w)) } else { Ok(()) })?;
        }
    }
    Ok(())
}
fn phrase_error(e: &anyhow::Error, may: &[Kind], what: &str) -> Out {
    let k = k::kind(e);
    ensure!(may.contains(&k), "{}: refused as {:?} ({}), but its faults are {:?}", what, k, e, may);
    let t = e.to_string().to_lowercase();
    let digits: String = t.chars().filter(|c| c.is_ascii_digit()).collect();
    let ok = match k {
        Kind::Checksum => t.contains("checksum") && digits.is_empty(),
        Kind::Word => t.contains("word") && digits.is_empty(),
        Kind::Count(n) => t.contains("word") && digits == n.to_string(),
        Kind::Keysize(n) => t.contains("key") && digits == n.to_string(),
        Kind::Other => false,
    };
    ensure!(ok, "{}: the message of {:?} is {:?}", what, k, t);
    Ok(())
}

pub fn p29(r: &mut Run) {
    r.sub(
        "key_texts",
        "payloads broken in version, tag, scalar, point, depth-0 fields, length or checksum, texts damaged in 1-3 characters, and free text: the error of parsing as an extended key, a private key and a public key is of a kind the text's faults have; non-trivial = refused by at least one of the three",
        60_000,
        3_000_000,
        || {
            prop_oneof![
                4 => pay().prop_map(|p| p.text()),
                3 => (key(), 0usize..8, proptest::collection::vec(char_edit(), 1..4)).prop_map(|(q, i, ed)| {
                    let v = prefixes()[i].2;
                    char_edits(&if i < 4 { q.r().text(v) } else { q.r().neuter().text(v) }, &ed)
                }),
                1 => ustring(12),
                1 => "[1-9A-HJ-NP-Za-km-z]{0,130}",
                1 => proptest::collection::vec(any::<u8>(), 0..100).prop_map(|v| base58::check_encode(&v)),
            ]
        },
        |t, o| text_verdict(t, o),
    );
    r.sub(
        "records",
        "records with any letters and key bytes converted to private and public keys, raw key bytes, tweaks, and version numbers: every refusal has the documented kind; non-trivial = refused at least once",
        30_000,
        1_500_000,
        || (key(), crate::c_bip32::key33(), prop_oneof![3 => (0usize..8).prop_map(|i| (prefixes()[i].1.to_string(), prefixes()[i].2)), 1 => ("[A-Za-z]{4}", any::<u32>())], b32(), proptest::collection::vec(any::<u8>(), 0..8), idx()),
        |(q, k33, (letters, ver), tweak, bytes, i), o| {
            let mk = || ExtendedKey { prefix: Prefix::from_parts_unchecked(letters, *ver), attrs: k::attrs(&q.r().meta), key_bytes: k33.0 };
            one_of(XPrv::try_from(mk()), &[Error::Crypto], o, "record as a private key")?;
            one_of(XPub::try_from(mk()), &[Error::Crypto], o, "record as a public key")?;
            type S = libsecp256k1::SecretKey;
            type P = libsecp256k1::PublicKey;
            one_of(<S as PrivateKey>::from_bytes(k33.0[1..].try_into().unwrap()), &[Error::Crypto], o, "bytes as a secret key")?;
            one_of(<P as PublicKey>::from_bytes(k33.0), &[Error::Crypto], o, "bytes as a public key")?;
            let x = k::xprv(q)?;
            one_of(PrivateKey::derive_child(x.private_key(), tweak.0), &[Error::Crypto], o, "tweak of a secret key")?;
            one_of(PublicKey::derive_child(x.public_key().public_key(), tweak.0), &[Error::Crypto], o, "tweak of a public key")?;
            one_of(Prefix::try_from(*ver), &[Error::Decode], o, "version")?;
            one_of(Prefix::from_bytes(i.to_be_bytes()), &[Error::Decode], o, "version bytes")?;
            one_of(Prefix::try_from(&bytes[..]), &[Error::Decode], o, "version slice")?;
            one_of(ChildNumber::new(*i, i & 1 == 1), &[Error::ChildNumber], o, "index")
        },
    );
    r.sub(
        "derivation",
        "seeds of any length, and paths derived from keys at any depth, privately and publicly: the error of the whole is the one of its first impossible step; non-trivial = refused at least once",
        3_000,
        150_000,
        || (key(), path(6), prop_oneof![1 => Just(0u8), 3 => 250u8..=255], prop_oneof![2 => proptest::collection::vec(any::<u8>(), 0..140), 1 => seed_ok().prop_map(|b| b.0)]),
        |(q, p, d, seed), o| {
            let d_path = k::path(p);
            if ![16, 32, 64, 128].contains(&seed.len()) {
                one_of(XPrv::new(seed), &[Error::SeedLength], o, "seed")?;
                one_of(XPrv::new_from_path(seed, &d_path), &[Error::SeedLength], o, "seed with a path")?;
            }
            let mut q = q.clone();
            q.depth = *d;
            let x = k::xprv(&q)?;
            let deep = p.len() > 255 - *d as usize;
            one_of(x.clone().derive_from_path(&d_path), if deep { &[Error::Depth] } else { &[] }, o, "private path")?;
            let mut c = x.public_key();
            for i in p {
                let mut may = vec![];
                if c.attrs().depth == 255 {
                    may.push(Error::Depth);
                }
                if i >> 31 == 1 {
                    may.push(Error::ChildNumber);
                }
                let n = c.derive_child(ChildNumber(*i));
                match n {
                    Ok(n) => c = n,
                    Err(e) => {
                        one_of(Err::<(), _>(e), &may, o, "public step")?;
                        one_of(x.public_key().derive_from_path(&d_path), &may, o, "public path")?;
                        break;
                    }
                }
            }
            Ok(())
        },
    );
    r.sub(
        "path_texts",
        "path texts built of good and malformed steps, missing or wrong roots, and free text: a wrong root is a decoding error, a malformed step a child number error; non-trivial = refused",
        60_000,
        3_000_000,
        || (prop_oneof![8 => Just("m".to_string()), 1 => Just("M".into()), 1 => Just(String::new()), 1 => ustring(3)], proptest::collection::vec(crate::c_bip32::child_tok(), 0..5)),
        |(root, toks), o| {
            let t = std::iter::once(root.clone()).chain(toks.iter().cloned()).collect::<Vec<_>>().join("/");
            let mut parts = t.split('/');
            let mut may = vec![];
            if parts.next() != Some("m") {
                may.push(Error::Decode);
            }
            let bad: Vec<&str> = parts.filter(|s| !child_ok(s) || s.starts_with('+') || s.len() > 1 && s.starts_with('0')).collect();
            if !bad.is_empty() {
                may.push(Error::ChildNumber);
            }
            one_of(DerivationPath::from_str(&t), &may, o, &format!("path {:?}", t))?;
            for s in toks {
                one_of(ChildNumber::from_str(s), if child_ok(s) && !s.starts_with('+') && !(s.len() > 1 && s.starts_with('0')) { &[] } else { &[Error::ChildNumber] }, o, &format!("child number {:?}", s))?;
            }
            Ok(())
        },
    );
    r.sub(
        "phrases",
        "a valid phrase with 0-4 edits, random word sequences of any count, and free text, as a phrase of either language, and entropy of any length: the error is an unknown word, the right word count, a bad checksum or the right key size, and one of the faults the input has, with a message saying so; non-trivial = refused",
        40_000,
        2_000_000,
        || {
            (
                prop_oneof![
                    6 => (entropy(), lang(), proptest::collection::vec(edit(), 0..5)).prop_map(|(e, l, ed)| apply_edits(&e.0, l, &ed).join(" ")),
                    2 => (lang(), proptest::collection::vec(0usize..2048, 0..30)).prop_map(|(l, v)| v.iter().map(|i| bip39::words(l)[*i]).collect::<Vec<_>>().join(" ")),
                    2 => (entropy(), lang(), "[ \\t\\n\u{3000}]{0,2}", "[ \\t\\n\u{3000}]{0,2}").prop_map(|(e, l, a, b)| a + &bip39::phrase(&e.0, l) + &b),
                    1 => ustring(10),
                ],
                lang(),
                size(400),
            )
        },
        |(t, l, n), o| {
            phrase_verdict(t, *l, o)?;
            if let Err(e) = Mnemonic::from_entropy(&vec![7; *n], k::lang(*l)) {
                o.nt();
                ensure!(![16, 20, 24, 28, 32].contains(n), "entropy of {} bytes refused", n);
                phrase_error(&e, &[Kind::Keysize(n * 8)], "entropy")?;
            }
            if let Err(e) = MnemonicType::for_key_size(*n) {
                phrase_error(&e, &[Kind::Keysize(*n)], "for_key_size")?;
            }
            if let Err(e) = MnemonicType::for_word_count(*n) {
                phrase_error(&e, &[Kind::Count(*n)], "for_word_count")?;
            }
            Ok(())
        },
    );
    r.sub(
        "signing",
        "messages of any length but 32: refused with a secp256k1 error whose source says the input has the wrong length; non-trivial = all",
        8_000,
        300_000,
        || (scalar(), size(300)),
        |(s, n), o| {
            let key = libsecp256k1::SecretKey::parse(&s.0).map_err(|e| format!("{:?}", e))?;
            if *n == 32 {
                return Ok(());
            }
            o.nt();
            match kms::ecdsa_sign(&key, &vec![3; *n]) {
                Ok(_) => Err(format!("a message of {} bytes was signed", n)),
                Err(e) => {
                    ensure!(matches!(e, kms::error::Error::Secp256k1Error(libsecp256k1::Error::InvalidInputLength)), "a message of {} bytes: {:?}", n, e);
                    ensure!(e.to_string().contains("secp256k1"), "message {:?}", e.to_string());
                    Ok(())
                }
            }
        },
    );
}
