//! Literals harvested from the source under test at run time (generators mix them in, so that a value
//! the code treats specially is also a value the generators produce).
use std::collections::BTreeSet;
use std::sync::OnceLock;

pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
    /// runs of 1..=32 bytes: byte-array and hex literals
    pub bytes: Vec<Vec<u8>>,
    /// plausible sizes
    pub sizes: Vec<usize>,
}

fn walk(dir: &str, out: &mut Vec<String>) {
    let mut v: Vec<_> = match std::fs::read_dir(dir) {
        Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    v.sort();
    for p in v {
        if p.is_dir() {
            walk(&p.to_string_lossy(), out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                out.push(s);
            }
        }
    }
}

fn scan(src: &str, ints: &mut BTreeSet<u64>, strs: &mut BTreeSet<String>, bytes: &mut BTreeSet<Vec<u8>>) {
    let b = src.as_bytes();
    let mut i = 0;
    let mut run: Vec<u8> = vec![]; // consecutive comma separated small integers
    let mut flush = |run: &mut Vec<u8>| {
        if run.len() >= 2 && run.len() <= 64 {
            bytes.insert(run.clone());
        }
        run.clear();
    };
    while i < b.len() {
        if b[i] == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if b[i] == b'"' {
            let mut s = Vec::new();
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' && i + 1 < b.len() {
                    i += 1;
                    match b[i] {
                        b'n' => s.push(b'\n'),
                        b't' => s.push(b'\t'),
                        b'0' => s.push(0),
                        c => s.push(c),
                    }
                } else {
                    s.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            if let Ok(s) = String::from_utf8(s) {
                if !s.is_empty() && s.len() <= 200 {
                    strs.insert(s);
                }
            }
        } else if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let j = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let mut t: String = src[j..i].replace('_', "").to_ascii_lowercase();
            for suf in ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "isize"] {
                if !t.starts_with("0x") || suf.starts_with(['u', 'i']) {
                    if let Some(x) = t.strip_suffix(suf) {
                        t = x.to_string();
                        break;
                    }
                }
            }
            let v = if let Some(h) = t.strip_prefix("0x") {
                u64::from_str_radix(h, 16)
            } else if let Some(h) = t.strip_prefix("0b") {
                u64::from_str_radix(h, 2)
            } else if let Some(h) = t.strip_prefix("0o") {
                u64::from_str_radix(h, 8)
            } else {
                t.parse()
            };
            if let Ok(v) = v {
                ints.insert(v);
                if v < 256 {
                    run.push(v as u8);
                } else {
                    flush(&mut run);
                }
            }
            continue;
        } else {
            if !(b[i].is_ascii_whitespace() || b[i] == b',') {
                flush(&mut run);
            }
            i += 1;
        }
    }
    flush(&mut run);
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut files = vec![];
        walk("/repo/src", &mut files);
        let (mut ints, mut strs, mut bytes) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        for f in &files {
            scan(f, &mut ints, &mut strs, &mut bytes);
        }
        for v in [0u64, 1, 2, 32, 64, 128, 255, 256, 65535, 65536] {
            ints.insert(v);
        }
        // hex-looking strings are also byte strings
        for s in strs.iter() {
            if s.len() % 2 == 0 && s.len() >= 4 && s.bytes().all(|c| c.is_ascii_hexdigit()) {
                bytes.insert(crate::refs::unhex(s));
            }
            if s.len() <= 64 {
                bytes.insert(s.as_bytes().to_vec());
            }
        }
        strs.insert("mnemonic".into());
        bytes.insert(vec![0]);
        let mut sizes: BTreeSet<usize> = BTreeSet::new();
        for v in &ints {
            if *v <= 1 << 20 {
                for d in [-1i64, 0, 1] {
                    sizes.insert((*v as i64 + d).max(0) as usize);
                }
            }
        }
        Dict {
            ints: ints.into_iter().collect(),
            strs: strs.into_iter().collect(),
            bytes: bytes.into_iter().filter(|b| b.len() <= 64).collect(),
            sizes: sizes.into_iter().collect(),
        }
    })
}
