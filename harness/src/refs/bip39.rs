use super::hash::{pbkdf2_sha512_64, sha256};
use super::nfkd::nfkd;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::OnceLock;

pub const EN_TXT: &str = include_str!("../../data/english.txt");
pub const ZH_TXT: &str = include_str!("../../data/chinese_simplified.txt");
const ZH_GB: &str = include_str!("../../data/gb18030_zh.txt");

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Lang {
    En,
    Zh,
}
pub const LANGS: [Lang; 2] = [Lang::En, Lang::Zh];

pub fn words(l: Lang) -> &'static [&'static str] {
    static E: OnceLock<Vec<&'static str>> = OnceLock::new();
    static Z: OnceLock<Vec<&'static str>> = OnceLock::new();
    match l {
        Lang::En => E.get_or_init(|| EN_TXT.lines().collect()),
        Lang::Zh => Z.get_or_init(|| ZH_TXT.lines().collect()),
    }
}
pub fn index(l: Lang, w: &str) -> Option<usize> {
    static E: OnceLock<HashMap<&'static str, usize>> = OnceLock::new();
    static Z: OnceLock<HashMap<&'static str, usize>> = OnceLock::new();
    let m = match l {
        Lang::En => &E,
        Lang::Zh => &Z,
    };
    m.get_or_init(|| words(l).iter().enumerate().map(|(i, w)| (*w, i)).collect()).get(w).copied()
}
fn gb() -> &'static HashMap<char, Vec<u8>> {
    static G: OnceLock<HashMap<char, Vec<u8>>> = OnceLock::new();
    G.get_or_init(|| {
        words(Lang::Zh).iter().zip(ZH_GB.lines()).map(|(w, h)| (w.chars().next().unwrap(), super::unhex(h))).collect()
    })
}
pub fn phrase_bytes(phrase: &str, l: Lang) -> Vec<u8> {
    match l {
        Lang::En => phrase.as_bytes().to_vec(),
        Lang::Zh => phrase.chars().flat_map(|c| if c == ' ' { vec![b' '] } else { gb()[&c].clone() }).collect(),
    }
}
pub fn indices(entropy: &[u8]) -> Vec<usize> {
    let cs = entropy.len() * 8 / 32;
    let mut bits: Vec<bool> = entropy.iter().flat_map(|b| (0..8).map(move |i| b >> (7 - i) & 1 == 1)).collect();
    let h = sha256(entropy);
    for i in 0..cs {
        bits.push(h[i / 8] >> (7 - i % 8) & 1 == 1);
    }
    bits.chunks(11).map(|c| c.iter().fold(0, |a, b| a * 2 + *b as usize)).collect()
}
pub fn phrase(entropy: &[u8], l: Lang) -> String {
    indices(entropy).iter().map(|i| words(l)[*i]).collect::<Vec<_>>().join(" ")
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Faults {
    pub bad_word: bool,
    pub bad_count: Option<usize>,
    pub bad_checksum: bool,
}
/// Verdict on a phrase in canonical spelling: its entropy, or the faults it has.
pub fn decode(phrase: &str, l: Lang) -> Result<Vec<u8>, Faults> {
    let ws: Vec<&str> = phrase.split(' ').collect();
    let idx: Vec<Option<usize>> = ws.iter().map(|w| index(l, w)).collect();
    let bad_word = idx.iter().any(|i| i.is_none());
    let ok_count = [12, 15, 18, 21, 24].contains(&ws.len());
    if bad_word || !ok_count {
        return Err(Faults { bad_word, bad_count: if ok_count { None } else { Some(ws.len()) }, bad_checksum: false });
    }
    let bits: Vec<bool> = idx.iter().flat_map(|i| (0..11).map(move |b| i.unwrap() >> (10 - b) & 1 == 1)).collect();
    let cs = ws.len() / 3;
    let entropy: Vec<u8> = bits[..bits.len() - cs].chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | *b as u8)).collect();
    let h = sha256(&entropy);
    for i in 0..cs {
        if (h[i / 8] >> (7 - i % 8) & 1 == 1) != bits[bits.len() - cs + i] {
            return Err(Faults { bad_word: false, bad_count: None, bad_checksum: true });
        }
    }
    Ok(entropy)
}
pub fn seed(phrase: &str, l: Lang, password: &str) -> [u8; 64] {
    let salt = nfkd(&format!("mnemonic{}", password));
    pbkdf2_sha512_64(&phrase_bytes(phrase, l), salt.as_bytes(), 2048)
}
