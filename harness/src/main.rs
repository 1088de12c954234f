#[macro_use]
mod engine;
mod c_bip32;
mod c_bip39;
mod c_crypto;
mod c_leak;
mod c_panic;
mod c_rng;
mod c_state;
mod c_wipe;
mod c_cost;
mod c_ct;
mod c_err;
mod c_fmt;
mod c_value;
mod clash;
mod confine;
mod dict;
mod gen;
mod k;
mod osrand;
mod rare;
mod refs;
mod trace;
mod watch;

use engine::{Run, Tier};
use serde_json::Value;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: watch::Watcher = watch::Watcher;

type Check = fn(&mut Run);
/// id, level, check, and how many times the base case counts the quick tier runs
const CHECKS: &[(&str, &str, Check, f64)] = &[
    ("P01", "exploration", c_bip39::p01, 20.0),
    ("P02", "exploration", c_bip39::p02, 8.0),
    ("P03", "exploration", c_bip39::p03, 6.0),
    ("P04", "exploration", c_bip39::p04, 2.5),
    ("P05", "exploration", c_bip32::p05, 15.0),
    ("P06", "exploration", c_bip32::p06, 5.0),
    ("P07", "exploration", c_bip32::p07, 4.0),
    ("P08", "exploration", c_bip32::p08, 4.0),
    ("P09", "exploration", c_bip32::p09, 7.0),
    ("P10", "exploration", c_bip32::p10, 6.0),
    ("P11", "exploration", c_bip32::p11, 5.0),
    ("P12", "exploration", c_bip32::p12, 30.0),
    ("P13", "exploration", c_bip32::p13, 1.5),
    ("P14", "exploration", c_crypto::p14, 4.0),
    ("P15", "exploration", c_panic::p15, 4.0),
    ("P16", "exploration", c_rng::p16, 1.0),
    ("P17", "exploration", c_wipe::p17, 8.0),
    ("P18", "exploration", c_leak::p18, 12.0),
    ("P19", "exploration", c_bip39::p19, 10.0),
    ("P20", "exploration", c_state::p20, 2.5),
    ("P21", "exploration", c_crypto::p21, 8.0),
    ("P22", "fault_enumeration", c_crypto::p22, 12.0),
    ("P23", "exploration", c_state::effect::p23, 2.5),
    ("P24", "exploration", c_state::effect::p24, 1.0),
    ("P25", "exploration", c_cost::p25, 4.0),
    ("P26", "exploration", c_ct::p26, 0.45),
    ("P28", "exploration", c_value::p28, 12.0),
    ("P29", "exploration", c_err::p29, 8.0),
    ("P30", "exploration", c_fmt::p30, 8.0),
];

/// P27: the checks that are run again in the other build profiles, and at what scale
const AGAIN: &[(&str, f64)] = &[
    ("P01", 1.0), ("P02", 0.4), ("P03", 0.4), ("P04", 0.12), ("P05", 1.0), ("P06", 0.3), ("P07", 0.2), ("P08", 0.25), ("P09", 0.4),
    ("P10", 0.4), ("P11", 0.3), ("P12", 1.5), ("P13", 0.1), ("P14", 0.2), ("P15", 0.3), ("P16", 0.2), ("P17", 0.4), ("P18", 1.0), ("P19", 1.0),
    ("P20", 0.2), ("P21", 0.6), ("P22", 1.0), ("P23", 0.2), ("P24", 0.15), ("P28", 0.3), ("P29", 0.3), ("P30", 0.5),
];
const PROFILES: [&str; 2] = ["plain", "strict"];

const EX_HARNESS: i32 = 3;
const EX_STALL: i32 = 4;
/// a single case that runs this long without finishing counts as not terminating
const STALL_S: u64 = 60;

fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
fn root() -> String {
    std::env::var("KMSVER_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn find(id: &str) -> Option<&'static (&'static str, &'static str, Check, f64)> {
    CHECKS.iter().find(|c| c.0 == id)
}

/// Runs in a child process: the actual check.
fn child(id: &str, replay: Option<&str>) -> i32 {
    let Some((id, level, f, quick)) = find(id) else {
        eprintln!("no such property {}", id);
        return 2;
    };
    std::env::remove_var("RUST_BACKTRACE");
    std::env::remove_var("RUST_LIB_BACKTRACE");
    engine::install_hook();
    if let Err(m) = refs::self_test() {
        eprintln!("harness error: reference self-test: {}", m);
        return EX_HARNESS;
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut run = Run::new(id, env_tier(), seed);
    run.scale = std::env::var("KMSVER_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(if run.tier == Tier::Quick { *quick } else { 1.0 });
    run.only = std::env::var("KMSVER_SUB").ok();
    run.journal = std::env::var("KMSVER_JOURNAL").ok();
    if let Some(p) = replay {
        let v: Value = match std::fs::read_to_string(p).ok().and_then(|s| serde_json::from_str(&s).ok()) {
            Some(v) => v,
            None => {
                eprintln!("cannot read replay file {}", p);
                return EX_HARNESS;
            }
        };
        run.replay = Some((v["sub"].as_str().unwrap_or("").to_string(), v["case"].clone()));
    } else {
        engine::start_stall_watch(STALL_S, EX_STALL);
    }
    f(&mut run);
    if let Some(p) = replay {
        if let Some(v) = &run.violation {
            println!("VIOLATION property={} replay={}", id, p);
            println!("  {}: {}", v.sub, v.message);
            return 1;
        }
        if let Some(m) = &run.harness_error {
            eprintln!("harness error: {}", m);
            return EX_HARNESS;
        }
        if !run.replayed {
            eprintln!("the replay file names no sub-check of {}", id);
            return EX_HARNESS;
        }
        println!("replayed {}: the property holds on this case", p);
        return 0;
    }
    if let (Some(m), None) = (&run.harness_error, &run.violation) {
        eprintln!("harness error: {}", m);
        return EX_HARNESS;
    }
    let root = root();
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    let ev = run.evidence(level);
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", root, id), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("cannot write evidence: {}", e);
        return EX_HARNESS;
    }
    if let Some(v) = &run.violation {
        let p = run.write_replay(&format!("{}/replays", root));
        println!("VIOLATION property={} replay={}", id, p);
        println!("  {}: {}", v.sub, v.message);
        println!("  case: {}", v.case);
        return 1;
    }
    println!("{}: held on everything explored", id);
    0
}

enum End {
    Code(i32),
    Signal(i32),
    Timeout,
}
fn spawn(args: &[&str], envs: &[(&str, &str)], limit: Duration, quiet: bool) -> End {
    let exe = std::env::current_exe().expect("own path");
    let mut c = Command::new(exe);
    c.args(args).stdin(Stdio::null());
    for (k, v) in envs {
        c.env(k, v);
    }
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    let mut ch = c.spawn().expect("spawn check process");
    let t0 = Instant::now();
    loop {
        match ch.try_wait().expect("wait") {
            Some(s) => return s.signal().map(End::Signal).unwrap_or_else(|| End::Code(s.code().unwrap_or(EX_HARNESS))),
            None if t0.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                return End::Timeout;
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

fn other_build(profile: &str) -> Option<std::path::PathBuf> {
    Some(std::env::current_exe().ok()?.parent()?.parent()?.join(profile).join("kmsver"))
}
/// P27: the other checks' generators and oracles on kms built without run-time assertions, and with all of
/// them on in the dependencies too.
fn builds() -> i32 {
    let t0 = Instant::now();
    let tier = if env_tier() == Tier::Quick { "quick" } else { "thorough" };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("KMSVER_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0) * if tier == "quick" { 1.0 } else { 25.0 };
    let dir = format!("{}/replays/builds-{}", root(), std::process::id());
    let (mut evals, mut distinct, mut samples, mut subs) = (0, 0, vec![], vec![]);
    let (mut bad, mut alike) = (None, vec![]);
    'all: for profile in PROFILES.iter().copied() {
        let Some(exe) = other_build(profile) else { return EX_HARNESS };
        for (id, by) in AGAIN {
            let o = match Command::new(&exe).args(["check", id]).env("VERIF_TIER", "quick").env("KMSVER_ROOT", &dir).env("KMSVER_SCALE", (by * scale).to_string()).stdin(Stdio::null()).output() {
                Ok(o) => o,
                Err(e) => {
                    eprintln!("{}: {}", exe.display(), e);
                    return EX_HARNESS;
                }
            };
            let out = String::from_utf8_lossy(&o.stdout).to_string();
            let code = o.status.code().unwrap_or(EX_HARNESS);
            if code != 0 && code != 1 {
                eprintln!("{} {}: exit {}\n{}", profile, id, code, String::from_utf8_lossy(&o.stderr));
                let _ = std::fs::remove_dir_all(&dir);
                return EX_HARNESS;
            }
            let read = |f: &str| std::fs::read_to_string(f).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()).unwrap_or(Value::Null);
            let ev = read(&format!("{}/evidence/{}.json", dir, id));
            let c = &ev["coverage"];
            evals += c["evaluations"].as_u64().unwrap_or(0);
            distinct += c["distinct_nontrivial"].as_u64().unwrap_or(0);
            if let Some(s) = c["samples"].get(0) {
                samples.push(serde_json::json!({"build": profile, "property": id, "sample": s}));
            }
            subs.push(serde_json::json!({"sub": format!("{}/{}", profile, id), "evaluations": c["evaluations"], "distinct_nontrivial": c["distinct_nontrivial"]}));
            if code == 1 {
                let f = out.lines().find_map(|l| l.split("replay=").nth(1)).unwrap_or("").to_string();
                let v = read(&f);
                let m = out.lines().skip_while(|l| !l.starts_with("VIOLATION")).nth(1).unwrap_or("").trim().to_string();
                // reported only if the same case has another outcome in another build
                if differs(id, &f).is_none() {
                    alike.push(format!("{} in every build: {}", id, m));
                    continue;
                }
                bad = Some((serde_json::json!({"property": "P27", "build": profile, "inner": v, "message": m}), format!("the builds differ, {} build, {}: {}", profile, id, m)));
                break 'all;
            }
        }
        eprintln!("P27 {}: {} evaluations so far, {:.1}s", profile, evals, t0.elapsed().as_secs_f64());
    }
    let _ = std::fs::remove_dir_all(&dir);
    let ev = serde_json::json!({
        "property": "P27", "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": distinct,
            "rule": "the generated cases and oracles of the named checks, run on kms built without debug assertions, overflow checks and its std feature ('plain'), and with them on in kms and all its dependencies ('strict'); the other checks have them on in kms only. Non-trivial = as each check's own rule says",
            "samples": samples, "sub_checks": subs},
        "failures_common_to_all_builds": alike,
        "assumptions": ["two more builds of the many possible ones; both are optimised and for this machine"],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": u64::from(bad.is_some())});
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    if std::fs::write(format!("{}/evidence/P27.json", root()), serde_json::to_string_pretty(&ev).unwrap() + "\n").is_err() {
        eprintln!("cannot write evidence");
        return EX_HARNESS;
    }
    match bad {
        Some((v, m)) => {
            let h = refs::hex(&refs::hash::sha256(v["inner"].to_string().as_bytes())[..4]);
            let p = format!("{}/replays/P27-{}-{}.json", root(), v["build"].as_str().unwrap_or(""), h);
            let _ = std::fs::create_dir_all(format!("{}/replays", root()));
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap() + "\n");
            println!("VIOLATION property=P27 replay={}", p);
            println!("  {}", m);
            1
        }
        None => {
            println!("P27: held on everything explored");
            0
        }
    }
}
/// What the case of this replay file comes to in that build: "holds", or how it fails. Histories that involve
/// threads or randomness may fail in different words from one time to the next; only panics count there.
fn outcome(id: &str, exe: &std::path::Path, file: &str) -> Option<String> {
    let o = Command::new("timeout").args(["-s", "KILL", &STALL_S.to_string()]).arg(exe).args(["replay", file]).stdin(Stdio::null()).output().ok()?;
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let how = out.lines().nth(1).unwrap_or("").trim().to_string();
    match o.status.code() {
        Some(0) => Some("holds".into()),
        Some(1) if ["P16", "P17", "P20", "P23", "P24"].contains(&id) => Some(if how.contains("panicked") { "panics" } else { "fails" }.into()),
        Some(1) => Some(how),
        Some(EX_HARNESS) | Some(2) => None,
        _ => Some("ends abnormally".into()),
    }
}
/// the outcomes in the builds, if each is steady and they are not all the same
fn differs(id: &str, file: &str) -> Option<Vec<String>> {
    let mut v = vec![];
    for p in PROFILES {
        let exe = other_build(p)?;
        let first = outcome(id, &exe, file)?;
        for _ in 0..2 {
            if outcome(id, &exe, file)? != first {
                return None;
            }
        }
        v.push(first);
    }
    v.iter().any(|x| *x != v[0]).then_some(v)
}
fn replay_build(v: &Value, file: &str) -> i32 {
    let t = format!("{}.inner", file);
    if std::fs::write(&t, v["inner"].to_string()).is_err() {
        return EX_HARNESS;
    }
    let id = v["inner"]["property"].as_str().unwrap_or("");
    let r = differs(id, &t);
    let _ = std::fs::remove_file(&t);
    if let Some(r) = r {
        println!("VIOLATION property=P27 replay={}", file);
        for (p, o) in PROFILES.iter().zip(r) {
            println!("  {} build: {}", p, o);
        }
        return 1;
    }
    println!("replayed {}: all builds agree on this case", file);
    0
}

/// Parent: supervises the check process, and turns a crash (or a case that never ends) of the code
/// under test into a violation after confirming it on the single journalled case.
fn check(id: &str) -> i32 {
    let limit = Duration::from_secs(std::env::var("KMSVER_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(match env_tier() {
        Tier::Quick => 600,
        Tier::Thorough => 6 * 3600,
    }));
    let (what, kind) = match spawn(&["child", id], &[], limit, false) {
        End::Code(EX_STALL) => ("did not terminate", "stall"),
        End::Code(c) => return c,
        End::Signal(s) if matches!(s, 4 | 6 | 7 | 8 | 11) => ("killed the process", "crash"),
        End::Signal(s) => {
            eprintln!("check process ended by signal {}", s);
            return EX_HARNESS;
        }
        End::Timeout => {
            eprintln!("check process exceeded its time limit");
            return EX_HARNESS;
        }
    };
    eprintln!("{}: the check process ended abnormally ({}); looking for the case", id, what);
    let dir = format!("{}/replays/journal-{}-{}", root(), id, std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    spawn(&["child", id], &[("KMSVER_JOURNAL", &dir)], limit, true);
    let mut code = EX_HARNESS;
    let mut files: Vec<_> = std::fs::read_dir(&dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let p = f.to_string_lossy().to_string();
        let bad = match spawn(&["replay", &p], &[], Duration::from_secs(STALL_S), true) {
            End::Signal(s) => kind == "crash" && matches!(s, 4 | 6 | 7 | 8 | 11),
            End::Timeout => kind == "stall",
            End::Code(_) => false,
        };
        if bad {
            let to = format!("{}/replays/{}-{}-{}", root(), id, kind, f.file_name().unwrap().to_string_lossy());
            let _ = std::fs::copy(&f, &to);
            println!("VIOLATION property={} replay={}", id, to);
            println!("  the case {}", what);
            let ev = serde_json::json!({
                "property": id, "tier": if env_tier() == Tier::Quick { "quick" } else { "thorough" },
                "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
                "level": find(id).map(|c| c.1).unwrap_or("exploration"),
                "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run ended abnormally; only the confirmed failing case is counted",
                    "samples": [std::fs::read_to_string(&to).unwrap_or_default()]},
                "wall_s": 0.0, "violations": 1});
            let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
            let _ = std::fs::write(format!("{}/evidence/{}.json", root(), id), ev.to_string());
            code = 1;
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if code != 1 {
        eprintln!("the abnormal end could not be reproduced on a single case");
    }
    code
}

fn main() -> ExitCode {
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a[1..].iter().map(|x| x.as_str()).collect();
    let code = match s.as_slice() {
        ["check", "P27"] => builds(),
        ["check", id] => check(id),
        ["child", id] => child(id, None),
        ["replay", file] => {
            let id = std::fs::read_to_string(file).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()).and_then(|v| v["property"].as_str().map(|s| s.to_string()));
            match id {
                Some(id) if id == "P27" => std::fs::read_to_string(file).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()).map_or(2, |v| replay_build(&v, file)),
                Some(id) => child(&id, Some(file)),
                None => {
                    eprintln!("not a replay file: {}", file);
                    2
                }
            }
        }
        ["rng-dump", b, l, n] => c_rng::dump_helper(b, l, n),
        ["state-run"] => c_state::helper(),
        ["state-sign"] => c_state::sign_helper(),
        ["quiet-run"] => c_state::effect::quiet_helper(),
        ["rare-table"] => {
            rare::search();
            0
        }
        ["clash-table"] => {
            clash::search();
            0
        }
        ["gone-run"] => c_state::effect::gone_helper(),
        ["rng-os", spec] => c_rng::os_helper(spec),
        ["rng-fork", spec] => c_rng::fork_helper(spec),
        ["list"] => {
            for c in CHECKS {
                println!("{}", c.0);
            }
            0
        }
        _ => {
            eprintln!("usage: kmsver check ID | replay FILE | list");
            2
        }
    };
    ExitCode::from(code as u8)
}
