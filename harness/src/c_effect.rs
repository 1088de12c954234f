//! P23: calls have no effect besides their results. P24: nothing of a value stays behind when it is gone.
//! Both run generated histories (the operations of P20 plus renderings, conversions and refused input) in
//! helper processes that watch the process as a whole. Submodule of `c_state`.
use super::*;
use crate::c_panic::{feed_text, use_ek, use_xprv, use_xpub};
use crate::confine;
use crate::watch;
use kms::bip32::ExtendedKey;
use std::collections::HashSet;

/// at most 20 of them, from all over
fn some<T>(v: &[T]) -> impl Iterator<Item = &T> {
    v.iter().step_by(v.len() / 20 + 1)
}
/// Everything that can be done with the values of a history without making new ones.
fn views(l: &Live) {
    for m in some(&l.m) {
        let _ = (format!("{} {:?} {:x} {:#X}", m, m, m, m), m.as_bytes(), m.clone().into_phrase(), String::from(m.clone()));
        let _ = Language::from_phrase(m.phrase());
        let _ = MnemonicType::for_phrase(m.phrase()).map(|t| t.to_string());
    }
    for s in some(&l.s) {
        let _ = format!("{:?} {:x} {:#X}", s, s, s);
        let _: &[u8] = s.as_ref();
    }
    for k in some(&l.k) {
        use_xprv(k);
        use_ek(k.to_extended_key(Prefix::YPRV));
        if let Ok(e) = k.to_string(Prefix::ZPRV).parse::<ExtendedKey>() {
            use_ek(e);
        }
    }
    for p in some(&l.p) {
        use_xpub(p);
        use_ek(p.to_extended_key(Prefix::YPUB));
    }
}

// ---------------------------------------------------------------------------------------------- P23

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Quiet {
    case: Case,
    junk: Vec<String>,
    /// environment of the process: name and value
    env: Vec<(String, String)>,
}
fn count(dir: &str) -> usize {
    std::fs::read_dir(dir).map(|d| d.count()).unwrap_or(0)
}
/// helper process: runs one history confined and reports every effect
pub fn quiet_helper() -> i32 {
    let q: Quiet = match serde_json::from_reader(std::io::stdin()) {
        Ok(c) => c,
        Err(e) => {
            println!("HARNESS {}", e);
            return 3;
        }
    };
    crate::engine::install_hook();
    let vars = || {
        let mut v: Vec<_> = std::env::vars_os().collect();
        v.sort();
        v
    };
    let env0 = vars();
    let cwd0 = std::env::current_dir().ok();
    let locale0 = unsafe { libc::localeconv().as_ref().map(|l| *l.decimal_point) };
    let name = || std::fs::read("/proc/self/comm").ok();
    let name0 = name();
    let mask = || {
        // SAFETY: plain calls; only reads the mask
        unsafe {
            let mut m: libc::sigset_t = std::mem::zeroed();
            libc::pthread_sigmask(libc::SIG_BLOCK, std::ptr::null(), &mut m);
            (1..65).map(|s| libc::sigismember(&m, s)).collect::<Vec<_>>()
        }
    };
    let mask0 = mask();
    let fds0 = count("/proc/self/fd");
    let ids0 = unsafe { (libc::getpid(), libc::umask(0o077)) };
    unsafe { libc::umask(ids0.1) };
    if unsafe { libc::dup2(1, confine::REPORT) } != confine::REPORT {
        println!("HARNESS dup2");
        return 3;
    }
    let confined = confine::confine();
    let mut calls = 0;
    let r = guarded(|| {
        for t in &q.junk {
            feed_text(t);
        }
        let (n, _) = run_case_with(&q.case, &mut |l| views(l))?;
        calls = n;
        Ok(())
    });
    // what the library may have left in the buffers of the standard streams
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().flush();
    unsafe { libc::fflush(std::ptr::null_mut()) };
    let mut bad = confine::attempts();
    if vars() != env0 {
        bad.push("the environment variables changed".into());
    }
    if std::env::current_dir().ok() != cwd0 {
        bad.push("the working directory changed".into());
    }
    if unsafe { libc::localeconv().as_ref().map(|l| *l.decimal_point) } != locale0 {
        bad.push("the locale changed".into());
    }
    if name() != name0 {
        bad.push("the name of the thread changed".into());
    }
    if mask() != mask0 {
        bad.push("the signal mask changed".into());
    }
    // descriptor 200 is ours
    let fds = count("/proc/self/fd");
    if fds != fds0 + 1 {
        bad.push(format!("{} descriptors open, {} before", fds - 1, fds0));
    }
    let t0 = std::time::Instant::now();
    // a joined thread may take a moment to disappear
    while count("/proc/self/task") > 1 && t0.elapsed().as_millis() < 2000 {
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    if count("/proc/self/task") > 1 {
        bad.push("a thread was left running".into());
    }
    // the panic hook must still be the harness's
    match guarded(|| panic!("probe")) {
        Ran::Harness(m) if m.contains("probe") => {}
        _ => bad.push("the panic hook was replaced".into()),
    }
    let verdict = if let Ran::Harness(m) = r {
        format!("HARNESS {}", m)
    } else if bad.is_empty() {
        format!("{} {}", if confined { "OK" } else { "LOOSE" }, calls)
    } else {
        bad.dedup();
        bad.truncate(6);
        format!("BAD {}", bad.join("; "))
    };
    let line = verdict.replace('\n', " ") + "\n";
    unsafe { libc::write(confine::REPORT, line.as_ptr().cast(), line.len()) };
    unsafe { libc::_exit(0) }
}
fn judge_quiet(q: &Quiet, obs: &mut crate::engine::Obs) -> Out {
    let exe = std::env::current_exe().expect("own path");
    let mut c = Command::new(exe);
    c.arg("quiet-run").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).current_dir("/");
    for (k, v) in &q.env {
        c.env(k, v);
    }
    let mut ch = c.spawn().expect("start helper");
    let mut i = ch.stdin.take().expect("stdin");
    let input = serde_json::to_string(q).unwrap();
    let w = std::thread::spawn(move || {
        let _ = i.write_all(input.as_bytes());
    });
    let o = ch.wait_with_output().expect("helper");
    let _ = w.join();
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let last = out.lines().last().unwrap_or("");
    if let Some(m) = last.strip_prefix("HARNESS ") {
        panic!("{}", m);
    }
    if let Some(m) = last.strip_prefix("BAD ") {
        return Err(format!("effects besides results: {}", m));
    }
    let n = last.strip_prefix("OK ").or_else(|| {
        obs.label("not confined");
        last.strip_prefix("LOOSE ")
    });
    let Some(n) = n else {
        // an early end is P15's matter, unless something was printed
        obs.label("ended early");
        ensure!(o.stderr.is_empty() || o.status.code().is_none(), "the process wrote to stderr: {:?}", String::from_utf8_lossy(&o.stderr).chars().take(200).collect::<String>());
        return Ok(());
    };
    ensure!(out.lines().count() == 1, "the process wrote to stdout: {:?}", out.chars().take(200).collect::<String>());
    ensure!(o.stderr.is_empty(), "the process wrote to stderr: {:?}", String::from_utf8_lossy(&o.stderr).chars().take(200).collect::<String>());
    obs.extra = n.parse::<u64>().unwrap_or(0).saturating_sub(1);
    Ok(())
}
/// names that code could look for: the usual ones and every upper-case literal of the source
fn env_names() -> Vec<String> {
    let mut v: Vec<String> = ["RUST_LOG", "DEBUG", "VERBOSE", "LOG", "TRACE", "KMS_LOG", "KMS_DEBUG", "KMS_TRACE"].iter().map(|s| s.to_string()).collect();
    for s in &crate::dict::dict().strs {
        if s.len() >= 3 && s.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit()) && !s.starts_with(|c: char| c.is_ascii_digit()) {
            v.push(s.clone());
        }
    }
    v
}
fn env() -> BoxedStrategy<Vec<(String, String)>> {
    let names = env_names();
    prop_oneof![
        Just(vec![]),
        // everything at once
        prop_oneof![Just("1"), Just("trace"), Just("/tmp/kms-effect-probe")].prop_map(move |v| env_names().into_iter().map(|n| (n, v.to_string())).collect::<Vec<_>>()),
        (proptest::sample::select(names), proptest::sample::select(vec!["1", "trace", "true", "", "all"])).prop_map(|(n, v)| vec![(n, v.to_string())]),
    ]
    .boxed()
}
fn junk() -> BoxedStrategy<String> {
    prop_oneof![
        3 => gen::ustring(40),
        1 => (0..crate::dict::dict().strs.len()).prop_map(|i| crate::dict::dict().strs[i].clone()),
        2 => gen::long(1 << 13, gen::ustring(6)).prop_map(|l| l.text()),
        2 => proptest::collection::vec(0u16..2048, 0..26).prop_map(|v| v.iter().map(|i| bip39::words(Lang::En)[*i as usize]).collect::<Vec<_>>().join(" ")),
        1 => gen::path(40).prop_map(|p| k::path_text(&p)),
        2 => gen::key().prop_map(|k| k.r().text(0x0488ADE4)),
    ]
    .boxed()
}
pub fn p23(r: &mut Run) {
    r.assumptions.push("effects are what the kernel can see (system calls other than memory, locks, clocks, threads, randomness and reading) plus environment, working directory, locale, open descriptors, threads left over and the panic hook".into());
    r.sub(
        "histories",
        "histories as in P20 (refused calls included) with all renderings and conversions of the values made, and junk text fed to every parser, run under a system-call filter in a process of their own, with and without environment variables that could switch on tracing; every attempted write, file creation, connection, signal, process or mode change is an effect, as is a changed environment, directory, panic hook, a descriptor or a thread left behind; non-trivial = at least 5 operations",
        900,
        60_000,
        || (base(), ops(3..40, false), proptest::collection::vec(junk(), 0..4), env()).prop_map(|(mut c, o, junk, env)| { c.pre = o; Quiet { case: c, junk, env } }),
        |q, o| {
            o.nt_if(q.case.pre.len() >= 5);
            o.label_if(!q.env.is_empty(), "environment set");
            judge_quiet(q, o)
        },
    );
    r.sub(
        "many",
        "the same with short histories whose calls are repeated up to tens of thousands of times, so that effects that come only now and then are met; non-trivial = at least 200 calls made",
        100,
        10_000,
        || (base(), ops(3..10, true), env()).prop_map(|(mut c, o, env)| { c.pre = o; Quiet { case: c, junk: vec![], env } }),
        |q, o| {
            let r = judge_quiet(q, o);
            o.nt_if(o.extra >= 200);
            r
        },
    );
    r.sub(
        "threads",
        "the same with 2-6 threads working at once; non-trivial = every case",
        120,
        10_000,
        || (base(), ops(1..6, false), any::<bool>(), 1u8..4, env(), proptest::collection::vec(ops(1..12, false), 2..=6)).prop_map(|(mut c, pre, same, rounds, env, t)| { c.pre = pre; c.threads = t; c.same = same; c.rounds = rounds; Quiet { case: c, junk: vec![], env } }),
        |q, o| {
            o.nt();
            judge_quiet(q, o)
        },
    );
}

// ---------------------------------------------------------------------------------------------- P24

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gone {
    ops: Vec<Op>,
    key: u64,
    rounds: u8,
    /// run the history in a thread that stays alive until the end
    worker: bool,
    /// drop the values in another order than they were made
    backwards: bool,
}
fn stream(key: u64, round: u8, label: &str, n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0u32;
    while v.len() < n {
        v.extend(hash::sha256(format!("{}|{}|{}|{}", key, round, label, i).as_bytes()));
        i += 1;
    }
    v.truncate(n);
    v
}
/// fresh material of full entropy for every round, so that a find cannot be a coincidence
fn material(g: &Gone, round: u8) -> Case {
    let b = |l: &str, n| stream(g.key, round, l, n);
    let text = |l: &str, n| b(l, n).iter().map(|x| (0x21 + x % 0x5e) as char).collect::<String>();
    Case {
        ents: (0..2).map(|i| A(b(&format!("e{}", i), 32).try_into().unwrap())).collect(),
        seeds: (0..2).map(|i| B(b(&format!("s{}", i), 128))).collect(),
        pws: vec![text("p0", 24), format!("é{}", text("p1", 40)), text("p2", 200)],
        digests: (0..3).map(|i| A(b(&format!("d{}", i), 32).try_into().unwrap())).collect(),
        pre: g.ops.clone(),
        threads: vec![],
        same: false,
        rounds: 0,
        post: vec![],
    }
}
const W: usize = 16;
/// 16-byte pieces of secrets and where they come from
#[derive(Default)]
struct Needles {
    set: std::collections::HashMap<[u8; W], u8>,
    first: Vec<u64>,
    /// three consecutive words of a phrase as references into the library's word list
    refs: HashSet<[u8; 3 * W]>,
}
const KINDS: [&str; 10] = ["entropy", "phrase", "password", "seed", "private key", "private key text", "freshly drawn entropy", "signing nonce", "input", "phrase (as references to words)"];
const REFS: u8 = 9;
impl Needles {
    fn add(&mut self, kind: u8, b: &[u8]) {
        if self.first.is_empty() {
            self.first = vec![0; 1 << 10];
        }
        for w in b.windows(W) {
            let mut d: Vec<u8> = w.to_vec();
            d.sort();
            d.dedup();
            // pieces of low variety could be anything
            if d.len() >= 7 {
                self.put(kind, w.try_into().unwrap());
            }
        }
    }
    fn put(&mut self, kind: u8, w: [u8; W]) {
        self.set.entry(w).or_insert(kind);
        let h = u16::from_le_bytes([w[0], w[1]]) as usize;
        self.first[h >> 6] |= 1 << (h & 63);
    }
    /// a number: big- and little-endian, as 32- and 64-bit words in either order, and in hexadecimal
    fn num(&mut self, kind: u8, b: &[u8]) {
        self.add(kind, b);
        let mut r = b.to_vec();
        r.reverse();
        self.add(kind, &r);
        for n in [4, 8] {
            let words: Vec<u8> = b.chunks(n).flat_map(|c| c.iter().rev().copied().collect::<Vec<_>>()).collect();
            self.add(kind, &words);
        }
        self.hex(kind, b);
    }
    fn hex(&mut self, kind: u8, b: &[u8]) {
        let t = crate::refs::hex(b);
        self.add(kind, t.as_bytes());
        self.add(kind, t.to_uppercase().as_bytes());
    }
    /// a phrase as word numbers and as references to words
    fn words(&mut self, e: &[u8], l: Lang) {
        let (list, map) = (k::lang(l).wordlist(), k::lang(l).wordmap());
        let p = bip39::phrase(e, l);
        let mut refs = vec![];
        let mut nums = vec![];
        for w in p.split(' ') {
            nums.extend((bip39::words(l).iter().position(|x| *x == w).unwrap_or(0) as u16).to_le_bytes());
            if let Ok(b) = map.get_bits(w) {
                let s = list.get_word(b);
                refs.extend([s.as_ptr() as usize, s.len()]);
            }
        }
        self.add(1, &nums);
        let refs: Vec<u8> = refs.iter().flat_map(|x| x.to_le_bytes()).collect();
        for w in refs.chunks(W).collect::<Vec<_>>().windows(3) {
            let mut a = [0; 3 * W];
            a.copy_from_slice(&w.concat());
            self.refs.insert(a);
            self.put(REFS, a[..W].try_into().unwrap());
        }
    }
    /// # Safety
    /// the range must be readable
    unsafe fn find(&self, p: *const u8, n: usize) -> Option<(u8, usize)> {
        if self.first.is_empty() || n < W {
            return None;
        }
        for i in 0..=n - W {
            let h = std::ptr::read_unaligned(p.add(i).cast::<u16>()) as usize;
            if self.first[h >> 6] >> (h & 63) & 1 == 1 {
                let mut w = [0; W];
                std::ptr::copy_nonoverlapping(p.add(i), w.as_mut_ptr(), W);
                match self.set.get(&w) {
                    Some(&REFS) => {
                        if i + 3 * W <= n {
                            let mut a = [0; 3 * W];
                            std::ptr::copy_nonoverlapping(p.add(i), a.as_mut_ptr(), 3 * W);
                            if self.refs.contains(&a) {
                                return Some((REFS, i));
                            }
                        }
                    }
                    Some(k) => return Some((*k, i)),
                    None => {}
                }
            }
        }
        None
    }
}
fn gather(n: &mut Needles, m: &Model, c: &Case) {
    for (e, l) in &m.m {
        n.add(0, e);
        n.hex(0, e);
        n.words(e, *l);
        n.add(1, bip39::phrase(e, *l).as_bytes());
        n.add(1, &bip39::phrase_bytes(&bip39::phrase(e, *l), *l));
    }
    for p in &c.pws {
        n.add(2, p.as_bytes());
    }
    for s in &m.s {
        n.num(3, s);
    }
    let mut keys: HashSet<[u8; 32]> = HashSet::new();
    for k in &m.k {
        if keys.insert(k.key) {
            n.num(4, &k.key);
        }
        for (_, v) in PREFIXES {
            let t = k.text(v);
            n.add(5, &t.as_bytes()[t.len() - 40..]);
        }
    }
    for cl in &m.calls {
        match cl {
            Call::FromEntropy(e, _) => n.add(0, e),
            Call::FromPhrase(t, _) | Call::Validate(t, _) => n.add(1, t.as_bytes()),
            Call::Stretch(_, p) => n.add(2, p.as_bytes()),
            Call::Root(_, s, _) => n.add(3, s),
            Call::Tweak(k, t) => {
                if keys.insert(*k) {
                    n.num(4, k);
                }
                let _ = t;
            }
            _ => {}
        }
    }
    for s in m.seeds.values() {
        n.num(3, s);
    }
}
/// the writable static memory of the program and the thread-local memory of this thread
fn statics() -> Vec<(usize, usize, &'static str)> {
    extern "C" fn one(info: *mut libc::dl_phdr_info, _: usize, out: *mut libc::c_void) -> i32 {
        // SAFETY: called by the loader with valid data; `out` is our vector
        unsafe {
            let out = &mut *(out as *mut Vec<(usize, usize, &'static str)>);
            let i = &*info;
            // the program itself comes first
            for k in 0..i.dlpi_phnum as usize {
                let h = &*i.dlpi_phdr.add(k);
                if h.p_type == libc::PT_LOAD && h.p_flags & libc::PF_W != 0 {
                    out.push((i.dlpi_addr as usize + h.p_vaddr as usize, h.p_memsz as usize, "static memory"));
                }
                if h.p_type == libc::PT_TLS && !i.dlpi_tls_data.is_null() {
                    out.push((i.dlpi_tls_data as usize, h.p_memsz as usize, "thread-local memory"));
                }
            }
            1
        }
    }
    let mut v: Vec<(usize, usize, &'static str)> = vec![];
    unsafe { libc::dl_iterate_phdr(Some(one), (&mut v as *mut Vec<_>).cast()) };
    v
}
/// mnemonics from fresh entropy, released at once
fn draw(fresh: &mut Vec<([u8; 32], usize, Lang)>) {
    let r = guarded(|| {
        for n in [16, 20, 24, 28, 32] {
            for l in bip39::LANGS {
                let m = Mnemonic::new(MnemonicType::for_key_size(n * 8).map_err(|e| e.to_string())?, k::lang(l));
                if fresh.len() < fresh.capacity() {
                    let mut a = [0; 32];
                    let k = m.entropy().len().min(32);
                    a[..k].copy_from_slice(&m.entropy()[..k]);
                    fresh.push((a, k, l));
                }
            }
        }
        Ok(())
    });
    drop(r);
}
/// what one round of the history does; all values are gone when it returns
fn round(plan: &[(Call, Val)], c: &Case, fresh: &mut Vec<([u8; 32], usize, Lang)>, nonces: &mut Vec<([u8; 32], [u8; 32], [u8; 64])>, backwards: bool, draw_first: bool) {
    let mut live = Live::default();
    let mut sigs: Sigs = vec![];
    if draw_first {
        draw(fresh);
    }
    let r = guarded(|| {
        for (cl, w) in plan {
            // a wrong result is another property's matter
            exec(cl, w, &mut live, &mut sigs, true)?;
        }
        Ok(())
    });
    drop(r);
    let r = guarded(|| {
        views(&live);
        for t in &c.pws {
            feed_text(t);
        }
        Ok(())
    });
    drop(r);
    for (k, d, s) in &sigs {
        if nonces.len() < nonces.capacity() && s.len() == 65 {
            nonces.push((*k, d.clone().try_into().unwrap_or([0; 32]), s[..64].try_into().unwrap()));
        }
    }
    if !draw_first {
        draw(fresh);
    }
    if backwards {
        while live.p.pop().is_some() || live.k.pop().is_some() || live.s.pop().is_some() || live.m.pop().is_some() {}
    }
    drop(live);
}
fn go(g: &Gone) -> Result<(u64, u64), String> {
    let mut needles = Needles::default();
    let rounds = g.rounds.clamp(4, 12);
    let mut left: Vec<usize> = vec![];
    let mut calls = 0u64;
    let mut scanned = 0u64;
    for r in 0..rounds {
        let c = material(g, r);
        let mut model = Model::default();
        let plan = model.plan(&c, &c.pre);
        gather(&mut needles, &model, &c);
        calls += plan.len() as u64;
        let mut fresh = Vec::with_capacity(16);
        let mut nonces = Vec::with_capacity(64);
        watch::track(true);
        round(&plan, &c, &mut fresh, &mut nonces, g.backwards, g.key & 1 == 1);
        watch::track(false);
        for (a, k, l) in &fresh {
            needles.add(6, &a[..*k]);
            needles.hex(6, &a[..*k]);
            if [16, 20, 24, 28, 32].contains(k) {
                needles.words(&a[..*k], *l);
                needles.add(1, bip39::phrase(&a[..*k], *l).as_bytes());
            }
        }
        for (k, z, s) in &nonces {
            // k = (z + r d) / s, up to the sign
            let (rr, ss) = (secp::reduce(&secp::from_be(s[..32].try_into().unwrap()), &secp::N), secp::from_be(s[32..].try_into().unwrap()));
            if secp::is_zero(&ss) {
                continue;
            }
            let z = secp::reduce(&secp::from_be(z), &secp::N);
            let n = secp::mul(&secp::add(&z, &secp::mul(&rr, &secp::from_be(k), &secp::N), &secp::N), &secp::inv(&ss, &secp::N), &secp::N);
            needles.num(7, &secp::to_be(&n));
            needles.num(7, &secp::to_be(&secp::neg(&n, &secp::N)));
        }
        drop((fresh, nonces, plan, c, model));
        let blocks = watch::tracked()?;
        left.push(blocks.iter().map(|b| b.1).sum());
        for (p, n) in &blocks {
            scanned += *n as u64;
            // SAFETY: still allocated, and nothing else runs
            if let Some((k, at)) = unsafe { needles.find(*p as *const u8, *n) } {
                return Err(format!("round {}: all values are gone, but a {} is still held at offset {} of a heap block of {} bytes", r, KINDS[k as usize], at, n));
            }
        }
        for (p, n, what) in statics() {
            scanned += n as u64;
            // SAFETY: mapped for the life of the program
            if let Some((k, at)) = unsafe { needles.find(p as *const u8, n) } {
                return Err(format!("round {}: all values are gone, but a {} is still held in {} (offset {})", r, KINDS[k as usize], what, at));
            }
        }
    }
    // the first round may build tables
    if left[1..].windows(2).all(|w| w[1] > w[0]) {
        return Err(format!("heap memory held after each of {} rounds of the same operations: {:?} bytes", rounds, left));
    }
    Ok((calls, scanned))
}
/// helper process
pub fn gone_helper() -> i32 {
    watch::track(false);
    let g: Gone = match serde_json::from_reader(std::io::stdin()) {
        Ok(c) => c,
        Err(e) => {
            println!("HARNESS {}", e);
            return 3;
        }
    };
    crate::engine::install_hook();
    let mut res = None;
    let out = if g.worker {
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let x = guarded(|| { res = Some(go(&g)?); Ok(()) });
            (x, res)
        }).expect("thread").join().unwrap_or((Ran::Harness("worker died".into()), None))
    } else {
        let x = guarded(|| { res = Some(go(&g)?); Ok(()) });
        (x, res)
    };
    match out {
        (Ran::Ok, Some((n, s))) => println!("OK {} {}", n, s),
        (Ran::Fail(m), _) => println!("BAD {}", m.replace('\n', " ")),
        (Ran::Harness(m), _) => println!("HARNESS {}", m.replace('\n', " ")),
        (Ran::Ok, None) => println!("HARNESS nothing"),
    }
    0
}
fn judge_gone(g: &Gone, obs: &mut crate::engine::Obs) -> Out {
    let (out, _) = talk("gone-run", serde_json::to_string(g).unwrap())?;
    let last = out.lines().last().unwrap_or("");
    if let Some(m) = last.strip_prefix("BAD ") {
        return Err(m.to_string());
    }
    if let Some(m) = last.strip_prefix("HARNESS ") {
        panic!("{}", m);
    }
    let Some(n) = last.strip_prefix("OK ") else {
        // dying is P15's matter
        obs.label("ended early");
        return Ok(());
    };
    obs.extra = n.split(' ').next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0).saturating_sub(1);
    Ok(())
}
pub fn p24(r: &mut Run) {
    r.assumptions.push("memory is searched for 16-byte pieces of secrets as bytes, reversed bytes, 32- and 64-bit words and hexadecimal text, and for phrases as word numbers and references to words; a secret kept encrypted or scattered in smaller pieces would not be recognised. Released memory and the stack are not searched".into());
    r.sub(
        "histories",
        "a history of up to 40 operations run 4-6 times in one process, each time with new random secrets of full entropy; after each round all values are dropped, and no block of heap memory allocated during the rounds and still live, no writable static and no thread-local memory may contain a piece of any secret so far (entropies, phrases, passwords, seeds, private keys and their texts, freshly drawn entropy, signing nonces), and the heap still held must stop growing after the first round; non-trivial = at least 5 operations",
        500,
        40_000,
        || (ops(3..40, false), any::<u64>(), 4u8..7, any::<bool>(), any::<bool>()).prop_map(|(ops, key, rounds, worker, backwards)| Gone { ops, key, rounds, worker, backwards }),
        |g, o| {
            o.nt_if(g.ops.len() >= 5);
            o.label_if(g.worker, "in a worker thread");
            judge_gone(g, o)
        },
    );
    r.sub(
        "many",
        "the same with short histories whose calls are repeated hundreds to thousands of times; non-trivial = at least 200 calls made",
        60,
        8_000,
        || (ops(3..9, true), any::<u64>(), any::<bool>(), any::<bool>()).prop_map(|(ops, key, worker, backwards)| Gone { ops, key, rounds: 4, worker, backwards }),
        |g, o| {
            let r = judge_gone(g, o);
            o.nt_if(o.extra >= 200);
            r
        },
    );
}
