//! P30: what is printed is complete, or the failure is reported.
use crate::engine::{Obs, Out, Run};
use crate::gen::*;
use crate::k;
use crate::refs::bip39::Lang;
use kms::bip32::{ChildNumber, DerivationPath, Error, ExtendedKey, Prefix};
use kms::bip39::{ErrorKind, Mnemonic, MnemonicType, Seed};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::{self, Debug, Display, LowerHex, UpperHex, Write};

/// where a writer gives up
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Stop {
    /// at the first piece that does not fit into so many parts in 65536 of the whole text, and from then on
    Full(u16),
    /// at the same point, but once only
    Once(u16),
    /// at the n-th piece
    Piece(u8),
    PieceOnce(u8),
    /// at the last piece
    Last,
}
struct W {
    got: String,
    room: usize,
    piece: usize,
    at: usize,
    once: bool,
    failed: bool,
}
impl Write for W {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let i = self.piece;
        self.piece += 1;
        if self.failed && !self.once || !self.failed && (i == self.at || self.got.len() + s.len() > self.room) {
            self.failed = true;
            return Err(fmt::Error);
        }
        if !self.failed {
            self.got.push_str(s);
        }
        Ok(())
    }
}
/// print it whole, twice, then to a writer that gives up
fn print(v: fmt::Arguments, again: fmt::Arguments, stop: &Stop, what: &str, o: &mut Obs) -> Result<String, String> {
    let mut all = W { got: String::new(), room: usize::MAX, piece: 0, at: usize::MAX, once: false, failed: false };
    ensure!(all.write_fmt(v).is_ok(), "{}: fails though the writer takes everything", what);
    let text = all.got;
    same!(again.to_string(), text, "{}: printed again", what);
    let (room, at, once) = match stop {
        Stop::Full(n) => (text.len() * *n as usize / 65536, usize::MAX, false),
        Stop::Once(n) => (text.len() * *n as usize / 65536, usize::MAX, true),
        Stop::Piece(n) => (usize::MAX, *n as usize % all.piece.max(1), false),
        Stop::PieceOnce(n) => (usize::MAX, *n as usize % all.piece.max(1), true),
        Stop::Last => (usize::MAX, all.piece.saturating_sub(1), false),
    };
    let mut w = W { got: String::new(), room, piece: 0, at, once, failed: false };
    let ok = w.write_fmt(v).is_ok();
    o.nt_if(w.failed);
    ensure!(ok != w.failed, "{}: the writer {}, and printing says {}", what, if w.failed { "failed" } else { "took everything" }, if ok { "Ok" } else { "Err" });
    ensure!(text.starts_with(&w.got), "{}: {:?} was written before the failure, but the text is {:?}", what, w.got, text);
    ensure!(w.failed || w.got == text, "{}: {:?} written, but the text is {:?}", what, w.got, text);
    Ok(text)
}
fn shown<T: Display>(v: &T, stop: &Stop, what: &str, o: &mut Obs) -> Result<String, String> {
    let t = print(format_args!("{}", v), format_args!("{}", v), stop, what, o)?;
    print(format_args!("{:#}", v), format_args!("{:#}", v), stop, what, o)?;
    // padding and cutting are the value's business, but must not hide a failure either
    print(format_args!("{:>300}", v), format_args!("{:>300}", v), stop, what, o)?;
    print(format_args!("{:-^+9.3}", v), format_args!("{:-^+9.3}", v), stop, what, o)?;
    Ok(t)
}
fn debug<T: Debug>(v: &T, stop: &Stop, what: &str, o: &mut Obs) -> Out {
    let what = &format!("{}, debug", what);
    print(format_args!("{:?}", v), format_args!("{:?}", v), stop, what, o)?;
    print(format_args!("{:#?}", v), format_args!("{:#?}", v), stop, what, o)?;
    print(format_args!("{:x?}", v), format_args!("{:x?}", v), stop, what, o)?;
    print(format_args!("{:40?}", v), format_args!("{:40?}", v), stop, what, o)?;
    Ok(())
}
fn hexed<T: LowerHex + UpperHex>(v: &T, bytes: &[u8], stop: &Stop, what: &str, o: &mut Obs) -> Out {
    let low = crate::refs::hex(bytes);
    same!(print(format_args!("{:x}", v), format_args!("{:x}", v), stop, what, o)?, low, "{}: hexadecimal", what);
    same!(print(format_args!("{:X}", v), format_args!("{:X}", v), stop, what, o)?, low.to_uppercase(), "{}: hexadecimal", what);
    same!(print(format_args!("{:#x}", v), format_args!("{:#x}", v), stop, what, o)?, format!("0x{}", low), "{}: hexadecimal", what);
    same!(print(format_args!("{:#X}", v), format_args!("{:#X}", v), stop, what, o)?, format!("0x{}", low.to_uppercase()), "{}: hexadecimal", what);
    Ok(())
}
fn stop() -> BoxedStrategy<Stop> {
    prop_oneof![3 => any::<u16>().prop_map(Stop::Full), 2 => any::<u16>().prop_map(Stop::Once), 2 => any::<u8>().prop_map(Stop::Piece), 2 => any::<u8>().prop_map(Stop::PieceOnce), 1 => Just(Stop::Last), 1 => Just(Stop::Full(65535))].boxed()
}

pub fn p30(r: &mut Run) {
    r.sub(
        "paths",
        "child numbers, paths of up to 40 steps, and their debug forms, put out to writers that fail at any point, once or from then on: the failure is reported and what came before it is the beginning of the text; non-trivial = the writer failed",
        30_000,
        1_500_000,
        || (path(40), idx(), stop()),
        |(p, i, st), o| {
            let d = k::path(p);
            same!(shown(&d, st, "path", o)?, k::path_text(p), "text of a path");
            debug(&d, st, "path", o)?;
            let c = ChildNumber(*i);
            same!(format!("m/{}", shown(&c, st, "child number", o)?), k::path_text(&[*i]), "text of a child number");
            debug(&c, st, "child number", o)
        },
    );
    r.sub(
        "keys",
        "extended keys, their records, attributes and prefixes, as text and debug form, put out as above; non-trivial = the writer failed",
        15_000,
        700_000,
        || (key(), 0usize..4, stop()),
        |(q, i, st), o| {
            let x = k::xprv(q)?;
            let (_, name, v) = crate::c_bip32::prefixes()[*i];
            let pre = Prefix::try_from(v).map_err(|e| format!("version of {} refused: {:?}", name, e))?;
            same!(shown(&pre, st, "prefix", o)?, name, "text of a prefix");
            debug(&pre, st, "prefix", o)?;
            let ek: ExtendedKey = x.to_extended_key(pre);
            same!(shown(&ek, st, "extended key record", o)?, q.r().text(v), "text of a key");
            debug(&x, st, "extended private key", o)?;
            debug(x.attrs(), st, "attributes", o)?;
            let u = x.public_key();
            debug(&u, st, "extended public key", o)?;
            shown(&u.to_extended_key(Prefix::XPUB), st, "extended public key record", o)?;
            Ok(())
        },
    );
    r.sub(
        "phrases",
        "mnemonics, seeds, languages, mnemonic types, in every form they have, put out as above; non-trivial = the writer failed",
        15_000,
        700_000,
        || (entropy(), lang(), stop()),
        |(e, l, st), o| {
            let m = k::mnemonic(&e.0, *l)?;
            same!(shown(&m, st, "mnemonic", o)?, crate::refs::bip39::phrase(&e.0, *l), "text of a mnemonic");
            debug(&m, st, "mnemonic", o)?;
            hexed(&m, &e.0, st, "mnemonic", o)?;
            debug(&m.language(), st, "language", o)?;
            let t = MnemonicType::for_key_size(e.0.len() * 8).map_err(|e| e.to_string())?;
            shown(&t, st, "mnemonic type", o)?;
            debug(&t, st, "mnemonic type", o)
        },
    );
    r.sub(
        "seeds",
        "one seed per process and language, in every form, put out as above; non-trivial = the writer failed",
        6_000,
        300_000,
        || (lang(), stop()),
        |(l, st), o| {
            static S: std::sync::OnceLock<[Result<Seed, String>; 2]> = std::sync::OnceLock::new();
            let mk = |l| Ok(Seed::new(&k::mnemonic(&[0x5a; 16], l)?, "pass"));
            let s = S.get_or_init(|| [mk(Lang::En), mk(Lang::Zh)])[(*l == Lang::Zh) as usize].as_ref().map_err(|e| e.clone())?;
            debug(s, st, "seed", o)?;
            hexed(s, s.as_bytes(), st, "seed", o)
        },
    );
    r.sub(
        "errors",
        "every kind of error with any number in it, plain, alternate and debug, put out as above; non-trivial = the writer failed",
        6_000,
        300_000,
        || (int(), size(40), stop()),
        |(n, w, st), o| {
            for e in [Error::Base58, Error::Bip39, Error::ChildNumber, Error::Crypto, Error::Decode, Error::Depth, Error::SeedLength] {
                shown(&e, st, "error", o)?;
                debug(&e, st, "error", o)?;
            }
            for e in [ErrorKind::InvalidChecksum, ErrorKind::InvalidWord, ErrorKind::InvalidKeysize(*n as usize), ErrorKind::InvalidWordLength(*n as usize)] {
                shown(&e, st, "error kind", o)?;
                debug(&e, st, "error kind", o)?;
            }
            let t = MnemonicType::for_word_count(12).map_err(|e| e.to_string())?;
            shown(&ErrorKind::InvalidEntropyLength(*n as usize, t), st, "error kind", o)?;
            if let Err(e) = Mnemonic::from_entropy(&vec![1; *w], k::lang(Lang::En)) {
                shown(&e, st, "error", o)?;
            }
            if let Err(e) = "m/x".parse::<DerivationPath>() {
                shown(&e, st, "error", o)?;
            }
            let sk = libsecp256k1::SecretKey::parse(&[1; 32]).map_err(|e| format!("{:?}", e))?;
            if let Err(e) = kms::ecdsa_sign(&sk, &vec![1; *w]) {
                shown(&e, st, "signing error", o)?;
                debug(&e, st, "signing error", o)?;
            }
            Ok(())
        },
    );
}
