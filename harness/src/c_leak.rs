//! P18: debug output and errors say nothing about secrets. Metamorphic: two secrets with the same kind of
//! fault must render identically.
use crate::engine::Run;
use crate::gen::*;
use crate::k;
use crate::refs::bip32::payload;
use crate::refs::bip39::{self, Lang};
use crate::refs::{base58, hex, secp};
use kms::bip32::{ChildNumber, ExtendedKey, Prefix, PrivateKey, XPrv};
use kms::bip39::{ErrorKind, Mnemonic, MnemonicType};
use libsecp256k1 as ls;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

fn debugs<T: Debug>(v: &mut Vec<String>, x: &T) {
    v.push(format!("{:?}", x));
    v.push(format!("{:#?}", x));
    v.push(format!("{:x?}", x));
    v.push(format!("{:#X?}", x));
    v.push(format!("{:90.40?}", x));
    v.push(format!("{:?}", (Some(x), &[x])));
    v.push(format!("{:#?}", Some(x)));
    v.push(format!("{:#?}", Ok::<_, ()>(vec![x])));
}
fn std_err(e: &(dyn std::error::Error + 'static)) -> Vec<String> {
    let mut v = vec![];
    let mut cur = Some(e);
    while let Some(e) = cur {
        v.push(format!("{} | {:#} | {:?} | {:#?}", e, e, e, e));
        cur = e.source();
    }
    v
}
fn any_err(e: &anyhow::Error) -> Vec<String> {
    let mut v = vec![e.to_string(), format!("{:#}", e), format!("{:?}", e), format!("{:#?}", e)];
    for c in e.chain() {
        v.extend(std_err(c));
    }
    v.push(format!("{:?}", e.downcast_ref::<ErrorKind>()));
    v
}

/// One way for an operation on a secret to fail.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Fault {
    UnknownWord,
    BadChecksum,
    WrongCount(u8),
    Keysize(u8),
    SeedLength(u8),
    XprvBadChar,
    XprvTruncated,
    XprvExtended,
    XprvBadChecksum,
    XprvZeroKey,
    XprvOverflow,
    XprvTag,
    XprvWrongKind,
    XprvRootFields,
    FieldZero,
    FieldOverflow,
    FieldWrongKind,
    RawOverflow,
    DepthLimit,
    MessageLength(u8),
    TweakOverflow,
    TweakCancels,
}
/// Material one side of a pair is made of.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Side {
    e: B,
    key: Key,
    junk: String,
    pos: u8,
    bytes: B,
}
fn side() -> BoxedStrategy<Side> {
    (bytes_pat(32), key(), prop_oneof![2 => "[a-z]{3,9}", 1 => ustring(6), 1 => (0u16..2048).prop_map(|i| format!("{}x", bip39::words(Lang::En)[i as usize]))], any::<u8>(), bytes_pat(200))
        .prop_map(|(e, key, junk, pos, bytes)| Side { e: B(e), key, junk, pos, bytes: B(bytes) })
        .boxed()
}
fn fault() -> impl Strategy<Value = Fault> + Clone {
    use Fault::*;
    prop_oneof![
        4 => Just(UnknownWord), 4 => Just(BadChecksum), 3 => (0u8..40).prop_map(WrongCount), 2 => any::<u8>().prop_map(Keysize), 2 => any::<u8>().prop_map(SeedLength),
        2 => Just(XprvBadChar), 2 => Just(XprvTruncated), 2 => Just(XprvExtended), 2 => Just(XprvBadChecksum), 2 => Just(XprvZeroKey), 2 => Just(XprvOverflow), 2 => Just(XprvTag), 2 => Just(XprvWrongKind), 1 => Just(XprvRootFields),
        1 => Just(FieldZero), 1 => Just(FieldOverflow), 1 => Just(FieldWrongKind), 1 => Just(RawOverflow), 1 => Just(DepthLimit), 1 => any::<u8>().prop_map(MessageLength), 1 => Just(TweakOverflow), 1 => Just(TweakCancels),
    ]
}
fn parse_err(t: &str) -> Result<Vec<String>, String> {
    let mut v = match t.parse::<XPrv>() {
        Ok(_) => return Err(format!("{:?} accepted as a private key", t)),
        Err(e) => std_err(&e),
    };
    // ExtendedKey may accept what only the key rules out
    if let Err(e) = t.parse::<ExtendedKey>() {
        v.extend(std_err(&e));
    }
    Ok(v)
}
/// Provoke the fault and render everything the error gives away.
fn provoke(f: Fault, s: &Side, l: Lang, size: usize) -> Result<Vec<String>, String> {
    use Fault::*;
    let e = &s.e.0[..[16, 20, 24, 28, 32][size % 5]];
    let phrase_errs = |p: &str| -> Result<Vec<String>, String> {
        let mut v = match Mnemonic::from_phrase(p, k::lang(l)) {
            Ok(_) => return Err(format!("faulty phrase {:?} accepted", p)),
            Err(e) => any_err(&e),
        };
        match Mnemonic::validate(p, k::lang(l)) {
            Ok(_) => return Err(format!("faulty phrase {:?} validated", p)),
            Err(e) => v.extend(any_err(&e)),
        }
        if let Err(e) = MnemonicType::for_phrase(p) {
            v.extend(any_err(&e));
        }
        Ok(v)
    };
    let over = |b: &B| -> [u8; 32] {
        let mut k = [0xff; 32];
        k[16..].copy_from_slice(&b.0[..16]);
        k
    };
    let version = 0x0488ade4u32;
    let text = |key33: [u8; 33]| base58::check_encode(&payload(version, &s.key.r().meta, &key33));
    let ek = |prefix, key_bytes| ExtendedKey { prefix, attrs: k::attrs(&s.key.r().meta), key_bytes };
    let from_fields = |e: ExtendedKey| match XPrv::try_from(e) {
        Ok(_) => Err("invalid fields accepted".to_string()),
        Err(e) => Ok(std_err(&e)),
    };
    let mut over33 = [0; 33];
    over33[1..].copy_from_slice(&over(&s.bytes));
    match f {
        UnknownWord => {
            let ph = bip39::phrase(e, l);
            let mut w: Vec<&str> = ph.split(' ').collect();
            let junk: String = s.junk.chars().filter(|c| !c.is_whitespace()).collect::<String>() + "q\u{301}7";
            let at = s.pos as usize % w.len();
            w[at] = &junk;
            let mut v = phrase_errs(&w.join(" "))?;
            match k::lang(l).wordmap().get_bits(&junk) {
                Ok(_) => return Err(format!("{:?} is in a word list", junk)),
                Err(e) => v.extend(std_err(&e)),
            }
            Ok(v)
        }
        BadChecksum => {
            // change a bit of the last word that belongs to the checksum
            let mut idx = bip39::indices(e);
            let last = idx.len() - 1;
            idx[last] ^= 1 << (s.pos as usize % (e.len() / 4));
            phrase_errs(&idx.iter().map(|i| bip39::words(l)[*i]).collect::<Vec<_>>().join(" "))
        }
        WrongCount(n) => {
            let n = if [12, 15, 18, 21, 24].contains(&n) { n + 1 } else { n.max(1) } as usize;
            let w: Vec<&str> = (0..n).map(|i| bip39::words(l)[s.bytes.0[(2 * i) % 200] as usize * 8 + s.bytes.0[(2 * i + 1) % 200] as usize % 8]).collect();
            phrase_errs(&w.join(" "))
        }
        Keysize(n) => {
            let n = if [16, 20, 24, 28, 32].contains(&n) { n + 1 } else { n } as usize;
            match Mnemonic::from_entropy(&s.bytes.0[..n.min(200)], k::lang(l)) {
                Ok(_) => Err(format!("{} bytes of entropy accepted", n)),
                Err(e) => Ok(any_err(&e)),
            }
        }
        SeedLength(n) => {
            let n = if [16, 32, 64, 128].contains(&n) { n + 1 } else { n } as usize;
            match XPrv::new(&s.bytes.0[..n.min(200)]) {
                Ok(_) => Err(format!("seed of {} bytes accepted", n)),
                Err(e) => {
                    let mut v = std_err(&e);
                    if let Err(e) = XPrv::new_from_path(&s.bytes.0[..n.min(200)], &k::path(&[1])) {
                        v.extend(std_err(&e));
                    }
                    Ok(v)
                }
            }
        }
        XprvBadChar => {
            let mut t: Vec<char> = text(s.key.r().key33()).chars().collect();
            let at = s.pos as usize % t.len();
            t[at] = ['0', 'O', 'I', 'l', '-', '!'][s.bytes.0[0] as usize % 6];
            parse_err(&t.into_iter().collect::<String>())
        }
        XprvTruncated => {
            let p = payload(version, &s.key.r().meta, &s.key.r().key33());
            parse_err(&base58::check_encode(&p[..60]))
        }
        XprvExtended => {
            let mut p = payload(version, &s.key.r().meta, &s.key.r().key33()).to_vec();
            p.extend_from_slice(&s.bytes.0[..10]);
            parse_err(&base58::check_encode(&p))
        }
        XprvBadChecksum => {
            let t = text(s.key.r().key33());
            let mut raw = base58::decode(&t).unwrap();
            let n = raw.len();
            raw[n - 1 - s.pos as usize % 4] ^= 1 + s.bytes.0[0] % 255;
            parse_err(&base58::encode(&raw))
        }
        XprvZeroKey => parse_err(&text([0; 33])),
        XprvOverflow => parse_err(&text(over33)),
        XprvTag => {
            let mut k33 = s.key.r().key33();
            k33[0] = s.bytes.0[0] | 1;
            parse_err(&text(k33))
        }
        XprvWrongKind => parse_err(&s.key.r().neuter().text(0x0488b21e)),
        XprvRootFields => {
            let mut m = s.key.r().meta;
            m.depth = 0;
            m.child |= 1;
            parse_err(&base58::check_encode(&payload(version, &m, &s.key.r().key33())))
        }
        FieldZero => from_fields(ek(Prefix::XPRV, [0; 33])),
        FieldOverflow => from_fields(ek(Prefix::XPRV, over33)),
        FieldWrongKind => from_fields(ek(Prefix::XPUB, s.key.r().key33())),
        RawOverflow => match <ls::SecretKey as PrivateKey>::from_bytes(&over(&s.bytes)) {
            Ok(_) => Err("scalar beyond the order accepted".into()),
            Err(e) => Ok(std_err(&e)),
        },
        DepthLimit => {
            let mut q = s.key.clone();
            q.depth = 255;
            let x = k::xprv(&q)?;
            let mut v = vec![];
            match x.derive_child(ChildNumber(q.child)) {
                Ok(_) => return Err("derived below depth 255".into()),
                Err(e) => v.extend(std_err(&e)),
            }
            if let Err(e) = x.derive_from_path(&k::path(&[q.child])) {
                v.extend(std_err(&e));
            }
            Ok(v)
        }
        MessageLength(n) => {
            let n = if n == 32 { 33 } else { n } as usize;
            let sk = ls::SecretKey::parse(&s.key.key.0).unwrap();
            match kms::ecdsa_sign(&sk, &s.bytes.0[..n.min(200)]) {
                Ok(_) => Err(format!("message of {} bytes signed", n)),
                Err(e) => Ok(std_err(&e)),
            }
        }
        TweakOverflow | TweakCancels => {
            let sk = ls::SecretKey::parse(&s.key.key.0).unwrap();
            let t = if f == TweakOverflow { over(&s.bytes) } else { secp::to_be(&secp::neg(&secp::from_be(&s.key.key.0), &secp::N)) };
            match PrivateKey::derive_child(&sk, t) {
                Ok(_) => Err(format!("tweak {} accepted", hex(&t))),
                Err(e) => Ok(std_err(&e)),
            }
        }
    }
}

pub fn p18(r: &mut Run) {
    r.sub(
        "debug",
        "pairs of extended private keys equal but for the private key (one bit, negation, anything): every debug rendering, nested or not, is the same text; non-trivial = the keys differ",
        20_000,
        1_500_000,
        || (key(), prop_oneof![any::<u8>().prop_map(Mutation::KeyBit), Just(Mutation::KeyNeg), scalar().prop_map(Mutation::KeyNew)]),
        |(a, m), o| {
            let b = m.apply(a);
            o.nt_if(a.key != b.key);
            let (x, y) = (k::xprv(a)?, k::xprv(&b)?);
            let (mut u, mut v) = (vec![], vec![]);
            debugs(&mut u, &x);
            debugs(&mut v, &y);
            // clones and parsed copies are the same values
            debugs(&mut u, &x.clone());
            let t = b.r().text(0x0488ade4);
            debugs(&mut v, &t.parse::<XPrv>().map_err(|e| format!("valid key refused: {}", e))?);
            for (p, q) in u.iter().zip(&v) {
                ensure!(p == q, "debug output depends on the private key: {} against {}", p, q);
            }
            Ok(())
        },
    );
    r.sub(
        "derived_debug",
        "debug output of keys derived from seeds and paths never contains the private key in hexadecimal, decimal list or Base58 form; non-trivial = all",
        4_000,
        200_000,
        || (seed_ok(), path(3)),
        |(s, p), o| {
            o.nt();
            let Ok(x) = XPrv::new_from_path(&s.0, &k::path(p)) else { return Ok(()) };
            let mut v = vec![];
            debugs(&mut v, &x);
            let key = x.to_bytes();
            if key == x.attrs().chain_code {
                return Ok(());
            }
            let h = hex(&key);
            let dec = key[..12].iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ");
            let dec2 = key[20..].iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ");
            let b58 = base58::encode(&key);
            for t in v {
                let low = t.to_ascii_lowercase().replace([' ', '\n'], "");
                ensure!(!low.contains(&h[..12]) && !low.contains(&h[52..]) && !t.contains(&dec) && !t.contains(&dec2) && !t.contains(&b58[..12]), "debug output shows the private key {}: {}", h, t);
            }
            Ok(())
        },
    );
    r.sub(
        "errors",
        "pairs of unrelated secrets with the same kind of fault (22 kinds over phrases, entropy, seeds, serialised keys, fields, raw keys, derivation, signing), of the same size: all renderings of the errors, sources included, are the same text; non-trivial = the secrets differ",
        40_000,
        3_000_000,
        || (fault(), side(), side(), lang(), 0usize..5),
        |(f, a, b, l, size), o| {
            o.nt_if(a.e != b.e && a.key != b.key);
            o.label(match f {
                Fault::UnknownWord | Fault::BadChecksum | Fault::WrongCount(_) | Fault::Keysize(_) => "mnemonic",
                Fault::SeedLength(_) => "seed",
                Fault::MessageLength(_) => "message",
                Fault::TweakCancels | Fault::TweakOverflow | Fault::RawOverflow | Fault::DepthLimit => "raw key or derivation",
                _ => "serialised key",
            });
            let u = provoke(*f, a, *l, *size)?;
            let v = provoke(*f, b, *l, *size)?;
            ensure!(u == v, "errors of kind {:?} differ between two secrets: {:?} against {:?}", f, u, v);
            Ok(())
        },
    );
}
