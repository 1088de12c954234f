//! P16: randomness of freshly generated mnemonics.
use crate::engine::{Out, Run, Tier, WORKERS};
use crate::k;
use crate::osrand;
use crate::refs::bip39::{self, Lang, LANGS};
use crate::refs::{hex, unhex};
use kms::bip39::{Mnemonic, MnemonicType};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::process::{Command, Stdio};

pub const SIZES: [usize; 5] = [16, 20, 24, 28, 32];
fn mtype(bytes: usize) -> MnemonicType {
    match bytes {
        16 => MnemonicType::Words12,
        20 => MnemonicType::Words15,
        24 => MnemonicType::Words18,
        28 => MnemonicType::Words21,
        _ => MnemonicType::Words24,
    }
}
/// One generated mnemonic, checked as far as a single one can be.
fn generate(bytes: usize, l: Lang) -> Result<Vec<u8>, String> {
    let m = Mnemonic::new(mtype(bytes), k::lang(l));
    let e = m.entropy().to_vec();
    ensure!(e.len() == bytes, "asked for {} bytes of entropy, got {}", bytes, e.len());
    ensure!(m.language() == k::lang(l), "asked for {:?}, got {:?}", l, m.language());
    let ph = bip39::phrase(&e, l);
    ensure!(m.phrase() == ph, "generated phrase {:?} does not encode its entropy {} ({:?})", m.phrase(), hex(&e), ph);
    Ok(e)
}
fn generate_fast(bytes: usize, l: Lang) -> Result<Vec<u8>, String> {
    let m = Mnemonic::new(mtype(bytes), k::lang(l));
    let e = m.entropy().to_vec();
    ensure!(e.len() == bytes, "asked for {} bytes of entropy, got {}", bytes, e.len());
    Ok(e)
}

fn z_bad(obs: f64, mean: f64, var: f64, sigmas: f64) -> bool {
    (obs - mean).abs() > sigmas * var.sqrt().max(1.0)
}

/// bit columns of a sample: cols[b][w]
fn columns(sample: &[Vec<u8>], bits: usize) -> Vec<Vec<u64>> {
    let mut cols = vec![vec![0u64; sample.len().div_ceil(64)]; bits];
    for (t, e) in sample.iter().enumerate() {
        for (b, c) in cols.iter_mut().enumerate() {
            if e[b / 8] >> (7 - b % 8) & 1 == 1 {
                c[t / 64] |= 1 << (t % 64);
            }
        }
    }
    cols
}
fn agree(a: &[u64], b: &[u64], n: usize) -> f64 {
    let mut d = 0u64;
    for i in 0..n / 64 {
        d += (a[i] ^ b[i]).count_ones() as u64;
    }
    (n / 64 * 64) as f64 - d as f64
}
fn shifted(a: &[u64], lag: usize) -> Vec<u64> {
    (0..a.len()).map(|i| a[i] >> lag | a.get(i + 1).copied().unwrap_or(0) << (64 - lag)).collect()
}
/// affine rank over GF(2) of rows of `bits` bits
fn rank(rows: &[Vec<u8>], bits: usize) -> usize {
    let words = bits.div_ceil(64);
    let pack = |r: &Vec<u8>| -> Vec<u64> { (0..words).map(|w| (0..8).fold(0, |a, i| a << 8 | r.get(8 * w + i).copied().unwrap_or(0) as u64)).collect() };
    let base = pack(&rows[0]);
    let mut piv: Vec<Option<Vec<u64>>> = vec![None; words * 64];
    let mut rk = 0;
    for r in &rows[1..] {
        let mut v: Vec<u64> = pack(r).iter().zip(&base).map(|(a, b)| a ^ b).collect();
        loop {
            let Some(w) = v.iter().position(|x| *x != 0) else { break };
            let b = 64 * w + v[w].leading_zeros() as usize;
            match &piv[b] {
                Some(p) => v.iter_mut().zip(p).for_each(|(a, b)| *a ^= b),
                None => {
                    piv[b] = Some(v);
                    rk += 1;
                    break;
                }
            }
        }
    }
    rk
}

/// Everything a population in generation order (one thread's stream) must satisfy. Thresholds are at ten
/// standard deviations or more, so a sound generator fails with probability below 1e-15.
fn analyse(sample: &[Vec<u8>], lags: &[usize]) -> Out {
    let bytes = sample[0].len();
    let bits = bytes * 8;
    let n = sample.len() / 64 * 64;
    let nf = n as f64;
    let cols = columns(sample, bits);
    for (b, c) in cols.iter().enumerate() {
        let ones: u64 = c[..n / 64].iter().map(|w| w.count_ones() as u64).sum();
        ensure!(!z_bad(ones as f64, nf / 2.0, nf / 4.0, 10.0), "entropy bit {} is 1 in {} of {} mnemonics", b, ones, n);
    }
    for i in 0..bits {
        for j in 0..i {
            let a = agree(&cols[i], &cols[j], n);
            ensure!(!z_bad(a, nf / 2.0, nf / 4.0, 10.0), "entropy bits {} and {} are equal in {} of {} mnemonics", j, i, a, n);
        }
    }
    for lag in lags {
        let m = n - 64;
        for i in 0..bits {
            let s = shifted(&cols[i], *lag);
            for j in 0..bits {
                let a = agree(&s, &cols[j], m);
                ensure!(!z_bad(a, m as f64 / 2.0, m as f64 / 4.0, 10.0), "entropy bit {} of a mnemonic and bit {} of the one {} before are equal in {} of {}", i, j, lag, a, m);
            }
        }
    }
    // byte values
    for p in 0..bytes {
        let mut h = [0u32; 256];
        for e in &sample[..n] {
            h[e[p] as usize] += 1;
        }
        for (v, c) in h.iter().enumerate() {
            ensure!(!z_bad(*c as f64, nf / 256.0, nf / 256.0, 11.0), "entropy byte {} has value {:#04x} in {} of {} mnemonics", p, v, c, n);
        }
    }
    // shape statistics that resampling or filtering would distort
    let words = bytes * 8 / 11;
    let (mut dist_w, mut dist_b, mut pop) = (0u64, 0u64, 0f64);
    let mut wc = vec![0u64; 2048];
    for e in &sample[..n] {
        let idx = bip39::indices(e);
        let mut seen = [0u64; 32];
        let mut ok = true;
        for w in &idx[..words] {
            ok &= seen[w / 64] >> (w % 64) & 1 == 0;
            seen[w / 64] |= 1 << (w % 64);
            wc[*w] += 1;
        }
        dist_w += ok as u64;
        let mut sb = [false; 256];
        dist_b += e.iter().all(|x| !std::mem::replace(&mut sb[*x as usize], true)) as u64;
        let ones: u32 = e.iter().map(|x| x.count_ones()).sum();
        pop += (ones as f64 - bits as f64 / 2.0).powi(2);
    }
    let pw: f64 = (0..words).map(|i| 1.0 - i as f64 / 2048.0).product();
    ensure!(!z_bad(dist_w as f64, nf * pw, nf * pw * (1.0 - pw), 12.0), "{} of {} mnemonics repeat no word, {:.0} expected", dist_w, n, nf * pw);
    let pb: f64 = (0..bytes).map(|i| 1.0 - i as f64 / 256.0).product();
    ensure!(!z_bad(dist_b as f64, nf * pb, nf * pb * (1.0 - pb), 12.0), "{} of {} mnemonics repeat no entropy byte, {:.0} expected", dist_b, n, nf * pb);
    let v = bits as f64 / 4.0;
    ensure!(!z_bad(pop, nf * v, nf * 2.0 * v * v, 12.0), "spread of the number of one bits is {:.2}, {:.2} expected", pop / nf, v);
    let ew = nf * words as f64 / 2048.0;
    for (w, c) in wc.iter().enumerate() {
        ensure!(!z_bad(*c as f64, ew, ew, 11.0), "word {} occurs {} times, {:.0} expected", w, c, ew);
    }
    // linear dependence
    if n > bits + 80 {
        let rk = rank(&sample[..bits + 80], bits);
        ensure!(rk == bits, "{} consecutive mnemonics of {} bits span an affine space of dimension {}", bits + 80, bits, rk);
    }
    let g = 4;
    if n > g * (g * bits + 80) {
        let rows: Vec<Vec<u8>> = sample[..g * (g * bits + 80)].chunks(g).map(|c| c.concat()).collect();
        let rk = rank(&rows, g * bits);
        ensure!(rk == g * bits, "runs of {} consecutive mnemonics span an affine space of dimension {} instead of {}", g, rk, g * bits);
    }
    Ok(())
}

/// No 8-byte window occurs twice. `step`: window alignment within one mnemonic.
fn windows<'a>(es: impl Iterator<Item = &'a Vec<u8>>, step: usize) -> Result<u64, String> {
    let mut all: Vec<u64> = vec![];
    for e in es {
        let mut i = 0;
        while i + 8 <= e.len() {
            all.push(u64::from_be_bytes(e[i..i + 8].try_into().unwrap()));
            i += step;
        }
    }
    all.sort_unstable();
    for w in all.windows(2) {
        ensure!(w[0] != w[1], "the 8 entropy bytes {:016x} occur twice", w[0]);
    }
    Ok(all.len() as u64)
}

fn parallel<T: Send>(f: impl Fn(usize) -> Result<T, String> + Sync) -> Result<Vec<T>, String> {
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..WORKERS).map(|w| { let f = &f; s.spawn(move || f(w)) }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("generation panicked".into()))).collect()
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fork {
    /// generations before the fork: (entropy bytes, language)
    pre: Vec<(usize, Lang)>,
    kids: usize,
    /// generations after it, in parent and children
    post: Vec<(usize, Lang)>,
    nested: bool,
    /// seed, sign and derive before the fork too
    warm: bool,
}
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn _exit(code: i32) -> !;
}
/// helper process: prints every generated entropy, one per line
pub fn fork_helper(spec: &str) -> i32 {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    let f: Fork = serde_json::from_str(spec).expect("fork spec");
    let go = |v: &[(usize, Lang)]| -> String {
        v.iter().map(|(n, l)| generate(*n, *l).map(|e| hex(&e)).unwrap_or_else(|m| format!("!{}", m)) + "\n").collect()
    };
    let mut out = go(&f.pre);
    if f.warm {
        if let Ok(m) = Mnemonic::from_entropy(&[7; 16], kms::bip39::Language::English) {
            let _ = kms::bip39::Seed::new(&m, "");
        }
    }
    let mut fds = [0i32; 2];
    // SAFETY: this helper is single-threaded; the children only generate, write to the pipe and leave
    unsafe {
        if pipe(fds.as_mut_ptr()) != 0 {
            return 3;
        }
        let mut pids = vec![];
        for _ in 0..f.kids {
            match fork() {
                0 => {
                    let mut s = go(&f.post);
                    let mut sub = -1;
                    if f.nested {
                        sub = fork();
                        s = if sub == 0 { go(&f.post) } else { s + &go(&f.post) };
                    }
                    let mut w = std::fs::File::from_raw_fd(fds[1]);
                    let _ = w.write_all(s.as_bytes());
                    if f.nested && sub > 0 {
                        waitpid(sub, std::ptr::null_mut(), 0);
                    }
                    _exit(0)
                }
                p if p > 0 => pids.push(p),
                _ => return 3,
            }
        }
        out += &go(&f.post);
        for p in pids {
            waitpid(p, std::ptr::null_mut(), 0);
        }
        drop(std::fs::File::from_raw_fd(fds[1]));
        let mut s = String::new();
        let _ = std::fs::File::from_raw_fd(fds[0]).read_to_string(&mut s);
        out += &s;
    }
    print!("{}", out);
    0
}
/// One generation in a process that has not generated before, under a planned random source.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OsCase {
    bytes: usize,
    lang: Lang,
    plan: osrand::Plan,
    stream: u64,
    /// also invert each delivered bit in turn
    flips: bool,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct OsRun {
    /// hexadecimal entropy, or why there is none
    entropy: Result<String, String>,
    delivered: u64,
    opened: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OsReport {
    /// the same stream twice, then another one
    runs: Vec<OsRun>,
    /// delivered bits whose inversion changes the entropy, when `flips`
    influential: Option<u64>,
}
/// what `f` does in a forked child
fn in_child(f: impl FnOnce() -> OsRun) -> Option<OsRun> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    let mut fds = [0i32; 2];
    // SAFETY: this helper is single-threaded
    unsafe {
        if pipe(fds.as_mut_ptr()) != 0 {
            return None;
        }
        match fork() {
            0 => {
                let r = f();
                let mut w = std::fs::File::from_raw_fd(fds[1]);
                let _ = w.write_all(serde_json::to_string(&r).unwrap().as_bytes());
                _exit(0)
            }
            p if p > 0 => {
                drop(std::fs::File::from_raw_fd(fds[1]));
                let mut s = String::new();
                let _ = std::fs::File::from_raw_fd(fds[0]).read_to_string(&mut s);
                waitpid(p, std::ptr::null_mut(), 0);
                serde_json::from_str(&s).ok().or(Some(OsRun { entropy: Err("process died".into()), delivered: 0, opened: false }))
            }
            _ => None,
        }
    }
}
/// helper process for `os_source`
pub fn os_helper(spec: &str) -> i32 {
    let c: OsCase = serde_json::from_str(spec).expect("spec");
    let run = |stream: u64, flip: i64| {
        in_child(|| {
            osrand::set_plan(&c.plan);
            osrand::set_stream(stream, flip);
            let d0 = osrand::DELIVERED.load(std::sync::atomic::Ordering::SeqCst);
            let entropy = match std::panic::catch_unwind(|| generate(c.bytes, c.lang)) {
                Ok(Ok(e)) => Ok(hex(&e)),
                Ok(Err(m)) => Err(format!("!{}", m)),
                Err(_) => Err("panic".into()),
            };
            OsRun { entropy, delivered: osrand::DELIVERED.load(std::sync::atomic::Ordering::SeqCst) - d0, opened: osrand::OPENED.load(std::sync::atomic::Ordering::SeqCst) }
        })
    };
    std::panic::set_hook(Box::new(|_| {}));
    let mut runs = vec![];
    for s in [c.stream, c.stream, c.stream ^ 0x5555_5555] {
        match run(s, -1) {
            Some(r) => runs.push(r),
            None => return 3,
        }
    }
    let mut influential = None;
    if c.flips && runs[0] == runs[1] && runs[0].entropy.is_ok() && !runs[0].opened {
        let mut n = 0;
        // a generator may draw more than it needs, but not without bound
        for b in 0..(8 * runs[0].delivered).min(4096) {
            match run(c.stream, b as i64) {
                Some(r) => n += (r.entropy != runs[0].entropy) as u64,
                None => return 3,
            }
        }
        influential = Some(n);
    }
    println!("{}", serde_json::to_string(&OsReport { runs, influential }).unwrap());
    0
}
/// helper process: prints n generated entropies
pub fn dump_helper(bytes: &str, lang: &str, n: &str) -> i32 {
    let b = bytes.parse().unwrap_or(16);
    let l = if lang == "Zh" { Lang::Zh } else { Lang::En };
    for _ in 0..n.parse().unwrap_or(1) {
        match generate(b, l) {
            Ok(e) => println!("{}", hex(&e)),
            Err(m) => println!("!{}", m),
        }
    }
    0
}
fn lines(out: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut v = vec![];
    for l in String::from_utf8_lossy(out).lines() {
        if let Some(m) = l.strip_prefix('!') {
            return Err(m.to_string());
        }
        v.push(unhex(l));
    }
    Ok(v)
}
fn me() -> String {
    std::env::current_exe().expect("own path").to_string_lossy().to_string()
}
fn kind() -> impl Strategy<Value = (usize, Lang)> + Clone {
    (proptest::sample::select(SIZES.to_vec()), crate::gen::lang())
}

pub fn p16(r: &mut Run) {
    let thorough = r.tier == Tier::Thorough;
    r.custom(
        "populations",
        "for each size and language, eight concurrent threads' streams of generated mnemonics: length, language, phrase = encoding of entropy, bit balance, all bit pairs within a mnemonic and across neighbours, byte values, word values, repetition and weight statistics, affine rank of single and grouped mnemonics, no 8-byte window twice; non-trivial = every generated mnemonic (all compared for repeats)",
        |run, rep| {
            let n = if thorough { 1 << 18 } else { 1 << 15 };
            let lags: &[usize] = if thorough { &[1, 2, 3, 5, 8] } else { &[1, 2] };
            let mut done = 0u64;
            let mut samples = vec![];
            let mut firsts: Vec<Vec<u8>> = vec![];
            let n = (n as f64 * run.scale.min(1.0)) as usize;
            for l in LANGS {
                for b in SIZES {
                    let case = json!({"entropy_bytes": b, "lang": l});
                    if rep.is_some_and(|c| *c != case) {
                        continue;
                    }
                    let res = parallel(|_| {
                        let mut v = Vec::with_capacity(n);
                        for i in 0..n {
                            v.push(if i % 16 == 0 { generate(b, l)? } else { generate_fast(b, l)? });
                        }
                        analyse(&v, lags)?;
                        Ok(v)
                    })
                    .and_then(|streams| {
                        let all: Vec<&Vec<u8>> = streams.iter().flatten().collect();
                        windows(all.iter().copied(), 8)?;
                        // the streams pooled: eight times the resolution for constant and tied bits
                        let pooled: Vec<Vec<u8>> = streams.concat();
                        analyse(&pooled, &[])?;
                        Ok(pooled)
                    });
                    match res {
                        Ok(p) => {
                            done += p.len() as u64;
                            samples.push(json!({"entropy_bytes": b, "lang": l, "entropy": hex(&p[0])}));
                            firsts.extend(p.into_iter().step_by(4));
                        }
                        Err(m) => return Ok(Err((case, m))),
                    }
                }
            }
            if let Err(m) = windows(firsts.iter(), 8) {
                return Ok(Err((json!({"across": "all sizes and languages"}), m)));
            }
            samples.truncate(4);
            Ok(Ok((done, done, samples, json!({"mnemonics per thread and population": n}))))
        },
    );
    r.custom(
        "mixed",
        "threads generating all sizes and languages in varying order: first and last 16 bytes analysed as one population, no 8-byte window at any byte offset twice across all threads; non-trivial = every generated mnemonic",
        |_, _| {
            let n = if thorough { 100_000 } else { 16_384 };
            let res = parallel(|w| {
                let mut v = Vec::with_capacity(n);
                let mut x = 0x9e3779b97f4a7c15u64.wrapping_mul(w as u64 + 1);
                for _ in 0..n {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    let b = SIZES[(x >> 20) as usize % 5];
                    let l = LANGS[(x >> 40) as usize % 2];
                    v.push(generate(b, l)?);
                }
                Ok(v)
            })
            .and_then(|s| {
                let all: Vec<Vec<u8>> = s.concat();
                let ends = |f: fn(&Vec<u8>) -> Vec<u8>| -> Vec<Vec<u8>> { all.iter().map(f).collect() };
                analyse(&ends(|e| e[..16].to_vec()), &[1, 2])?;
                analyse(&ends(|e| e[e.len() - 16..].to_vec()), &[1])?;
                // the end of one against the start of the next
                let cross: Vec<Vec<u8>> = s[0].windows(2).map(|p| [&p[0][p[0].len() - 8..], &p[1][..8]].concat()).collect();
                analyse(&cross, &[])?;
                let some: Vec<Vec<u8>> = s.iter().flat_map(|v| v[..n.min(8000)].iter().cloned()).collect();
                windows(some.iter(), 1)?;
                Ok(all)
            });
            match res {
                Ok(a) => Ok(Ok((a.len() as u64, a.len() as u64, a[..3].iter().map(|e| json!(hex(e))).collect(), json!({})))),
                Err(m) => Ok(Err((json!({"mixed": true}), m))),
            }
        },
    );
    r.custom(
        "collisions",
        "a large population of 12-word mnemonics from eight threads: no two equal and no 8-byte half repeated; non-trivial = every generated mnemonic",
        |run, _| {
            let n = ((if thorough { 2_500_000 } else { 200_000 }) as f64 * run.scale.min(1.0)) as usize;
            let res = parallel(|w| {
                let mut v: Vec<u128> = Vec::with_capacity(n);
                for i in 0..n {
                    let e = generate_fast(16, LANGS[(i + w) % 2])?;
                    v.push(u128::from_be_bytes(e.try_into().unwrap()));
                }
                Ok(v)
            })
            .and_then(|s| {
                let mut all: Vec<u128> = s.concat();
                all.sort_unstable();
                for w in all.windows(2) {
                    ensure!(w[0] != w[1], "the same 12-word mnemonic was generated twice: {:032x}", w[0]);
                }
                let few = all.len().min(2_000_000);
                let mut half: Vec<u64> = (0..few).map(|i| all[i * (all.len() / few)] as u64).collect();
                half.sort_unstable();
                for w in half.windows(2) {
                    ensure!(w[0] != w[1], "the last 8 entropy bytes {:016x} occur twice", w[0]);
                }
                Ok(all)
            });
            match res {
                Ok(a) => Ok(Ok((a.len() as u64, a.len() as u64, a[..2].iter().map(|e| json!(format!("{:032x}", e))).collect(), json!({})))),
                Err(m) => Ok(Err((json!({"collisions": true}), m))),
            }
        },
    );
    r.custom(
        "fresh_threads",
        "the first three generations of many short-lived threads started in bursts: no 8-byte window twice across them; non-trivial = every generated mnemonic",
        |_, _| {
            let rounds = if thorough { 400 } else { 40 };
            let mut all: Vec<Vec<u8>> = vec![];
            for i in 0..rounds {
                let b = SIZES[i % 5];
                let bar = std::sync::Barrier::new(50);
                let got: Result<Vec<Vec<Vec<u8>>>, String> = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..50)
                        .map(|t| {
                            let bar = &bar;
                            s.spawn(move || {
                                bar.wait();
                                (0..3).map(|_| generate(b, LANGS[t % 2])).collect::<Result<Vec<_>, String>>()
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("generation panicked".into()))).collect()
                });
                match got {
                    Ok(g) => all.extend(g.concat()),
                    Err(m) => return Ok(Err((json!({"threads": 50}), m))),
                }
            }
            match windows(all.iter(), 1) {
                Ok(_) => Ok(Ok((all.len() as u64, all.len() as u64, vec![json!(hex(&all[0]))], json!({"threads": rounds * 50})))),
                Err(m) => Ok(Err((json!({"threads": 50}), m))),
            }
        },
    );
    r.custom(
        "processes",
        "many processes started together, each printing its first generations, some without address randomisation and in their own pid namespace so that process state is as alike as possible: no 8-byte window twice across them; non-trivial = every generated mnemonic",
        |_, _| {
            let me = me();
            let alike: Vec<&str> = vec!["setarch", "-R", "unshare", "-Ur", "-p", "-f"];
            let works = Command::new(alike[0]).args(&alike[1..]).arg("true").stdout(Stdio::null()).stderr(Stdio::null()).status().is_ok_and(|s| s.success());
            let mut all: Vec<Vec<u8>> = vec![];
            let mut procs = 0u64;
            for round in 0..if thorough { 40 } else { 8 } {
                let same = works && round % 2 == 1;
                let b = SIZES[round % 5];
                let mut kids = vec![];
                for i in 0..24 {
                    let mut c = if same {
                        let mut c = Command::new(alike[0]);
                        c.args(&alike[1..]).arg(&me);
                        c
                    } else {
                        Command::new(&me)
                    };
                    c.args(["rng-dump", &b.to_string(), if i % 2 == 0 { "En" } else { "Zh" }, "6"]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
                    match c.spawn() {
                        Ok(k) => kids.push(k),
                        Err(e) => return Err(format!("cannot start a process: {}", e)),
                    }
                }
                for k in kids {
                    let o = k.wait_with_output().map_err(|e| e.to_string())?;
                    let v = match lines(&o.stdout) {
                        Ok(v) => v,
                        Err(m) => return Ok(Err((json!({"processes": true}), m))),
                    };
                    if v.len() != 6 {
                        if same {
                            continue;
                        }
                        return Ok(Err((json!({"processes": true}), format!("a process generated {} of 6 mnemonics ({:?})", v.len(), o.status))));
                    }
                    procs += 1;
                    all.extend(v);
                }
            }
            match windows(all.iter(), 1) {
                Ok(_) => Ok(Ok((all.len() as u64, all.len() as u64, vec![json!(hex(&all[0]))], json!({"processes": procs, "alike processes possible": works})))),
                Err(m) => Ok(Err((json!({"processes": true}), m))),
            }
        },
    );
    r.sub(
        "fork",
        "a process generates some mnemonics, forks (also twice in a row), and parent and children go on generating: no 8-byte window at any offset occurs twice in any of them; non-trivial = at least one generation after the fork",
        120,
        4_000,
        || (proptest::collection::vec(kind(), 0..24), 1usize..5, proptest::collection::vec(kind(), 1..12), any::<bool>(), any::<bool>()).prop_map(|(pre, kids, post, nested, warm)| Fork { pre, kids, post, nested, warm }),
        |f, o| {
            o.nt();
            o.label_if(!f.pre.is_empty(), "generated before the fork");
            let out = Command::new(me()).args(["rng-fork", &serde_json::to_string(f).unwrap()]).stdin(Stdio::null()).stderr(Stdio::null()).output().expect("start helper");
            let v = lines(&out.stdout)?;
            let per = if f.nested { 3 } else { 1 };
            let want = f.pre.len() + f.post.len() * (1 + f.kids * per);
            ensure!(v.len() == want, "forked processes generated {} mnemonics instead of {} ({:?})", v.len(), want, out.status);
            windows(v.iter(), 1)?;
            Ok(())
        },
    );
    r.sub(
        "os_source",
        "the first generation of a process whose operating-system random source delivers a known stream in full or in pieces, is interrupted, or fails at first or later on: a mnemonic comes out only after at least as many random bytes as its entropy has went in, and at least as many of the delivered bits influence the entropy as it has bits; unlike streams give unlike entropy in every 8-byte window; non-trivial = a mnemonic came out, or the source failed",
        160,
        4_000,
        || {
            let step = prop_oneof![4 => 1i32..40, 3 => Just(-4), 1 => Just(0), 1 => 1i32..3, 1 => Just(-11), 1 => Just(-5), 1 => Just(-38), 1 => Just(-1)];
            let plan = prop_oneof![
                2 => Just(osrand::Plan::default()),
                2 => proptest::collection::vec(prop_oneof![3 => 1i32..40, 1 => Just(-4)], 0..12).prop_map(|steps| osrand::Plan { probe: 0, steps, then: 0 }),
                3 => (proptest::sample::select(vec![0, 0, 0, 4, 11, 5, 38, 1]), proptest::collection::vec(step, 0..12), proptest::sample::select(vec![0, 0, 5, 11, 14, 22, 38])).prop_map(|(probe, steps, then)| osrand::Plan { probe, steps, then }),
            ];
            (kind(), plan, any::<u32>(), proptest::bool::weighted(0.5)).prop_map(|((bytes, lang), plan, stream, flips)| OsCase { bytes, lang, plan, stream: stream as u64, flips })
        },
        |c, o| {
            let out = Command::new(me()).args(["rng-os", &serde_json::to_string(c).unwrap()]).stdin(Stdio::null()).stderr(Stdio::null()).output().expect("start helper");
            let rep: OsReport = serde_json::from_slice(&out.stdout).map_err(|e| format!("the helper process failed: {} ({:?})", e, out.status))?;
            let mut ents = vec![];
            for r in &rep.runs {
                match &r.entropy {
                    Ok(e) => {
                        o.nt();
                        ensure!(r.opened || r.delivered >= c.bytes as u64, "a mnemonic of {} bytes of entropy ({}) came out after {} random bytes were drawn", c.bytes, e, r.delivered);
                        ents.push(unhex(e));
                    }
                    Err(m) if m.starts_with('!') => return Err(m[1..].to_string()),
                    Err(_) => {
                        o.nt();
                        o.label("source failed, no mnemonic");
                    }
                }
            }
            if ents.len() == 3 {
                windows(ents[1..].iter(), 1)?;
            }
            if let Some(n) = rep.influential {
                o.label("every delivered bit inverted in turn");
                o.extra = 8 * rep.runs[0].delivered;
                ensure!(n >= 8 * c.bytes as u64, "only {} of the {} random bits drawn influence the {} bits of entropy", n, 8 * rep.runs[0].delivered, 8 * c.bytes);
            }
            Ok(())
        },
    );
}
