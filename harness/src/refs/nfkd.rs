//! NFKD from tables produced by CPython's unicodedata (data/nfkd.txt, data/ccc.txt).
use std::collections::HashMap;
use std::sync::OnceLock;

pub struct Tables {
    pub dec: HashMap<char, Vec<char>>,
    pub ccc: HashMap<char, u8>,
    /// characters with a decomposition, sorted
    pub decomposable: Vec<char>,
    /// combining characters, sorted
    pub combining: Vec<char>,
}
fn ch(h: &str) -> char {
    char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap()
}
pub fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tables { dec: HashMap::new(), ccc: HashMap::new(), decomposable: vec![], combining: vec![] };
        for l in include_str!("../../data/nfkd.txt").lines() {
            let mut p = l.split(' ');
            let c = ch(p.next().unwrap());
            t.dec.insert(c, p.map(ch).collect());
            t.decomposable.push(c);
        }
        for l in include_str!("../../data/ccc.txt").lines() {
            let (a, b) = l.split_once(' ').unwrap();
            t.ccc.insert(ch(a), b.parse().unwrap());
            t.combining.push(ch(a));
        }
        t
    })
}
pub fn ccc(c: char) -> u8 {
    tables().ccc.get(&c).copied().unwrap_or(0)
}
fn push(out: &mut Vec<char>, c: char) {
    let u = c as u32;
    if (0xAC00..=0xD7A3).contains(&u) {
        let s = u - 0xAC00;
        out.push(char::from_u32(0x1100 + s / 588).unwrap());
        out.push(char::from_u32(0x1161 + s % 588 / 28).unwrap());
        if s % 28 != 0 {
            out.push(char::from_u32(0x11A7 + s % 28).unwrap());
        }
    } else if let Some(d) = tables().dec.get(&c) {
        out.extend(d);
    } else {
        out.push(c);
    }
}
pub fn nfkd(s: &str) -> String {
    let mut v = Vec::new();
    for c in s.chars() {
        push(&mut v, c);
    }
    // canonical ordering: stable sort of each run of non-starters by combining class
    let mut i = 0;
    while i < v.len() {
        if ccc(v[i]) == 0 {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < v.len() && ccc(v[j]) != 0 {
            j += 1;
        }
        v[i..j].sort_by_key(|c| ccc(*c));
        i = j;
    }
    v.into_iter().collect()
}
