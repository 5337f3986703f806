use crate::report::{hash64, CaseResult, Failure, Report};
use crate::tape::{case_seed, Tape};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Tape, &mut Report) -> CaseResult,
    /// Deterministic regression cases, run before the generated ones.
    pub pinned: fn() -> Vec<(&'static str, Box<dyn Fn() -> CaseResult>)>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/repo/").map_or(f, |(_, r)| r);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub fn take_panic() -> (String, String) {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_default()
}

/// Run a closure, turning a panic into a Failure.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, Failure>) -> Result<T, Failure> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = take_panic();
            Err(Failure {
                class: format!("panic {loc}"),
                message: format!("panicked at {loc}: {msg}"),
            })
        }
    }
}

fn run_case(p: &Prop, tape: &mut Tape, rep: &mut Report) -> CaseResult {
    // PBT_SELFTEST=<n>: one case in n is called a failure, to try the shrinker on every generator.
    static SELFTEST: std::sync::OnceLock<Option<u64>> = std::sync::OnceLock::new();
    let r = guarded(|| (p.run)(tape, rep));
    match SELFTEST.get_or_init(|| std::env::var("PBT_SELFTEST").ok().and_then(|s| s.parse().ok())) {
        Some(n) if r.is_ok() && hash64(rep.desc.as_bytes()) % n == 0 => Err(Failure { class: "selftest".into(), message: "called a failure".into() }),
        _ => r,
    }
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from(env!("CARGO_MANIFEST_DIR")).join(".."))
}

#[derive(Clone)]
struct Known {
    class: String,
    what: String,
    pinned: String,
}

fn load_known(prop: &str) -> Vec<Known> {
    let path = verif_dir().join("known_findings.json");
    let Ok(txt) = std::fs::read_to_string(path) else {
        return vec![];
    };
    let v: J = serde_json::from_str(&txt).expect("known_findings.json");
    v["known"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["property"] == prop)
                .map(|e| Known {
                    class: e["class"].as_str().unwrap().to_string(),
                    what: e["what"].as_str().unwrap().to_string(),
                    pinned: e["pinned"].as_str().unwrap().to_string(),
                })
                .collect()
        })
        .unwrap_or_default()
}

fn shrink_secs() -> u64 {
    std::env::var("PBT_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(40)
}

const HANG_CPU_SECS: u64 = 40;

struct ThreadClock(libc::clockid_t);
impl ThreadClock {
    fn current() -> Self {
        let mut c: libc::clockid_t = 0;
        unsafe {
            libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
        }
        ThreadClock(c)
    }
    fn secs(&self) -> u64 {
        let mut ts = libc::timespec {
            tv_sec: 0,
            tv_nsec: 0,
        };
        unsafe {
            libc::clock_gettime(self.0, &mut ts);
        }
        ts.tv_sec as u64
    }
}

fn set_limits() {
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: 3 << 30,
            rlim_max: 3 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

fn shrink(p: &Prop, data: Vec<u64>, class: &str) -> (Vec<u64>, Failure, String) {
    let start = Instant::now();
    let mut execs = 0u32;
    let mut best = data;
    let mut info: (Failure, String) = (
        Failure {
            class: class.to_string(),
            message: String::new(),
        },
        String::new(),
    );
    let mut attempt = |cand: &[u64], best_out: &mut Vec<u64>, info: &mut (Failure, String)| -> bool {
        execs += 1;
        if execs > 20_000 || start.elapsed().as_secs() > shrink_secs() {
            return false;
        }
        let mut t = Tape::replay(cand.to_vec());
        let mut r = Report::default();
        match run_case(p, &mut t, &mut r) {
            Err(f) if f.class == class => {
                let used = t.used();
                let mut v = cand.to_vec();
                v.truncate(used);
                *best_out = v;
                *info = (f, r.desc);
                true
            }
            _ => false,
        }
    };
    let init = best.clone();
    attempt(&init, &mut best, &mut info);
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt(&c, &mut best, &mut info) {
                    i += size.max(1);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..e].fill(0);
                    attempt(&c, &mut best, &mut info);
                }
                i += size;
            }
        }
        // reduce values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for nv in [v / 2, v.saturating_sub(1)] {
                if i < best.len() && nv < best[i] {
                    let mut c = best.clone();
                    c[i] = nv;
                    attempt(&c, &mut best, &mut info);
                }
            }
            i += 1;
        }
        if best == before || start.elapsed().as_secs() > shrink_secs() {
            break;
        }
    }
    (best, info.0, info.1)
}

pub fn worker(p: &'static Prop, seed: u64, w: u64, n: u64, total: u64, out: &Path) {
    set_limits();
    install_hook();
    let known: HashSet<String> = load_known(p.id).into_iter().map(|k| k.class).collect();
    static PROGRESS: AtomicU64 = AtomicU64::new(u64::MAX);
    let progress = std::fs::File::create(out.join(format!("progress.{w}"))).unwrap();
    let result_path = out.join(format!("result.{w}.json"));
    let hashes_path = out.join(format!("hashes.{w}"));
    let (tx, rx) = std::sync::mpsc::channel::<libc::clockid_t>();
    let rp = result_path.clone();
    let handle = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            use std::os::unix::fs::FileExt;
            tx.send(ThreadClock::current().0).unwrap();
            let mut evals = 0u64;
            let mut labels: BTreeMap<String, u64> = BTreeMap::new();
            let mut hashes: HashSet<u64> = HashSet::new();
            let mut samples: Vec<String> = vec![];
            let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
            let mut failure: Option<J> = None;
            let mut idx = w;
            while idx < total {
                PROGRESS.store(idx, Ordering::Relaxed);
                let _ = progress.write_at(&idx.to_le_bytes(), 0);
                let mut t = Tape::generate(case_seed(seed, p.id, idx));
                let mut r = Report::default();
                let res = run_case(p, &mut t, &mut r);
                evals += 1 + r.evals;
                for (k, v) in r.labels {
                    *labels.entry(k).or_default() += v;
                }
                if r.nontrivial {
                    hashes.insert(hash64(r.desc.as_bytes()));
                    if samples.len() < 2 && (evals > 20 || total < 100) {
                        samples.push(r.desc.clone());
                    }
                }
                if let Err(f) = res {
                    if known.contains(&f.class) {
                        *known_hits.entry(f.class).or_default() += 1;
                    } else {
                        let j = json!({"index": idx, "seed": seed, "tape": t.data, "class": f.class, "message": f.message, "case": r.desc});
                        std::fs::write(&rp, serde_json::to_vec(&json!({"failure": j})).unwrap()).unwrap();
                        let (tape, f2, desc) = shrink(p, t.data, &f.class);
                        failure = Some(if f2.message.is_empty() {
                            j
                        } else {
                            json!({"index": idx, "seed": seed, "tape": tape, "class": f2.class, "message": f2.message, "case": desc})
                        });
                        break;
                    }
                }
                idx += n;
            }
            let mut hb = Vec::with_capacity(hashes.len() * 8);
            for h in &hashes {
                hb.extend_from_slice(&h.to_le_bytes());
            }
            std::fs::write(hashes_path, hb).unwrap();
            let mut j = json!({"evals": evals, "labels": labels, "samples": samples, "known_hits": known_hits, "done": true});
            if let Some(f) = failure {
                j["failure"] = f;
            }
            std::fs::write(&rp, serde_json::to_vec(&j).unwrap()).unwrap();
        })
        .unwrap();
    let clock = ThreadClock(rx.recv().unwrap());
    let mut last = (u64::MAX, 0u64);
    while !handle.is_finished() {
        std::thread::sleep(std::time::Duration::from_millis(20));
        let cur = PROGRESS.load(Ordering::Relaxed);
        let cpu = clock.secs();
        if cur != last.0 {
            last = (cur, cpu);
        } else if cpu - last.1 > HANG_CPU_SECS * 3 {
            // leaves room for the shrinker's own budget
            std::process::exit(9);
        } else if cpu - last.1 > HANG_CPU_SECS && !result_path.exists() {
            std::process::exit(9);
        }
    }
    if handle.join().is_err() {
        std::process::exit(8);
    }
}

/// Run one case in this process. Exit code 0 pass, 1 failure; crashes crash.
pub fn one(p: &'static Prop, tape: Option<Vec<u64>>, seed: u64, idx: u64) -> i32 {
    set_limits();
    install_hook();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut t = match tape {
                Some(d) => Tape::replay(d),
                None => Tape::generate(case_seed(seed, p.id, idx)),
            };
            let mut r = Report::default();
            let res = run_case(p, &mut t, &mut r);
            println!("--- case ---\n{}\n--- labels {:?}", r.desc, r.labels);
            match res {
                Ok(()) => {
                    println!("PASS");
                    0
                }
                Err(f) => {
                    println!("FAIL [{}]\n{}", f.class, f.message);
                    1
                }
            }
        })
        .unwrap()
        .join()
        .unwrap_or(3)
}

pub fn check(p: &'static Prop) -> i32 {
    let started = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let tier = if thorough { "thorough" } else { "quick" };
    let total = std::env::var("PBT_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { p.thorough } else { p.quick });
    let total = match std::env::var("PBT_SCALE").ok().and_then(|s| s.parse::<u64>().ok()) {
        Some(s) if s > 0 => total / s,
        _ => total,
    };
    install_hook();
    let vd = verif_dir();
    let replays = vd.join("replays");
    let _ = std::fs::create_dir_all(&replays);
    let known = load_known(p.id);
    let mut violations: Vec<String> = vec![];

    // Pinned regression cases.
    let mut pinned_run = 0u64;
    for (name, f) in (p.pinned)() {
        pinned_run += 1;
        if let Err(fl) = guarded(|| f()) {
            if let Some(k) = known.iter().find(|k| k.class == fl.class && k.pinned == name) {
                println!("KNOWN-FINDING: property={} {}", p.id, k.what);
            } else {
                let path = replays.join(format!("{}-pinned-{}.json", p.id, name));
                let _ = std::fs::write(
                    &path,
                    serde_json::to_vec_pretty(&json!({"property": p.id, "pinned": name, "class": fl.class, "message": fl.message})).unwrap(),
                );
                println!("{}: pinned case {} failed: [{}] {}", p.id, name, fl.class, fl.message);
                println!("VIOLATION property={} replay={}", p.id, path.display());
                violations.push(fl.class);
            }
        }
    }

    // Generated cases, one process per core.
    let n: u64 = std::thread::available_parallelism()
        .map(|n| n.get() as u64)
        .unwrap_or(4)
        .clamp(1, 8);
    let out = std::env::temp_dir().join(format!("pbt-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&out).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut children = vec![];
    for w in 0..n {
        let c = std::process::Command::new(&exe)
            .args([
                "worker",
                p.id,
                &seed.to_string(),
                &w.to_string(),
                &n.to_string(),
                &total.to_string(),
                out.to_str().unwrap(),
            ])
            .env("VERIF_TIER", tier)
            .stderr(std::process::Stdio::null())
            .spawn()
            .unwrap();
        children.push(c);
    }
    let mut evals = pinned_run;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut failures: Vec<J> = vec![];
    let mut infra_error = None;
    for (w, mut c) in children.into_iter().enumerate() {
        let st = c.wait().unwrap();
        let rp = out.join(format!("result.{w}.json"));
        let res: Option<J> = std::fs::read(&rp)
            .ok()
            .and_then(|b| serde_json::from_slice(&b).ok());
        if let Some(res) = &res {
            if !res["failure"].is_null() {
                failures.push(res["failure"].clone());
            }
            if res["done"] == true {
                evals += res["evals"].as_u64().unwrap_or(0);
                for (k, v) in res["labels"].as_object().unwrap() {
                    *labels.entry(k.clone()).or_default() += v.as_u64().unwrap();
                }
                for (k, v) in res["known_hits"].as_object().unwrap() {
                    *known_hits.entry(k.clone()).or_default() += v.as_u64().unwrap();
                }
                for s in res["samples"].as_array().unwrap() {
                    if samples.len() < 6 {
                        samples.push(s.as_str().unwrap().to_string());
                    }
                }
                if let Ok(hb) = std::fs::read(out.join(format!("hashes.{w}"))) {
                    for c in hb.chunks_exact(8) {
                        hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                    }
                }
                continue;
            }
            if !res["failure"].is_null() {
                continue;
            }
        }
        // Crashed or hung.
        let idx = std::fs::read(out.join(format!("progress.{w}")))
            .ok()
            .filter(|b| b.len() == 8)
            .map(|b| u64::from_le_bytes(b.try_into().unwrap()));
        match (st.signal(), st.code(), idx) {
            (Some(libc::SIGKILL), _, _) | (_, _, None) => {
                infra_error = Some(format!("worker {w} ended: {st:?}"));
            }
            (sig, code, Some(idx)) => {
                // Confirm in a fresh process, alone.
                let mut c = std::process::Command::new(&exe)
                    .args(["case", p.id, &seed.to_string(), &idx.to_string()])
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .spawn()
                    .unwrap();
                let pid = c.id();
                let hung;
                let mut st2 = None;
                loop {
                    if let Some(s) = c.try_wait().unwrap() {
                        st2 = Some(s);
                        hung = false;
                        break;
                    }
                    std::thread::sleep(std::time::Duration::from_millis(50));
                    if proc_cpu(pid) > HANG_CPU_SECS {
                        let _ = c.kill();
                        let _ = c.wait();
                        hung = true;
                        break;
                    }
                }
                let msg = if hung {
                    Some((
                        "hang".to_string(),
                        format!("did not finish within {HANG_CPU_SECS} s of CPU time"),
                    ))
                } else {
                    match st2 {
                        Some(s)
                            if matches!(
                                s.signal(),
                                Some(libc::SIGSEGV)
                                    | Some(libc::SIGABRT)
                                    | Some(libc::SIGBUS)
                                    | Some(libc::SIGILL)
                            ) =>
                        {
                            Some(("crash".to_string(), format!("process died: {s:?}")))
                        }
                        _ => None,
                    }
                };
                match msg {
                    Some((class, message)) => failures.push(
                        json!({"index": idx, "seed": seed, "class": class, "message": message}),
                    ),
                    None => {
                        infra_error = Some(format!(
                            "worker {w} ended abnormally at case {idx} (signal {sig:?}, code {code:?}), not reproduced"
                        ))
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&out);
    failures.sort_by_key(|f| f["index"].as_u64().unwrap_or(0));
    let mut seen = HashSet::new();
    for f in &failures {
        let class = f["class"].as_str().unwrap_or("").to_string();
        if !seen.insert(class.clone()) {
            continue;
        }
        let path = replays.join(format!("{}-{}-{}.json", p.id, seed, seen.len()));
        let mut doc = f.clone();
        doc["property"] = json!(p.id);
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&doc).unwrap());
        println!(
            "{}: [{}] {}\n--- case ---\n{}\n------------",
            p.id,
            class,
            f["message"].as_str().unwrap_or(""),
            f["case"].as_str().unwrap_or("")
        );
        println!("VIOLATION property={} replay={}", p.id, path.display());
        violations.push(class);
    }
    if let Some(e) = &infra_error {
        eprintln!("{}: check could not complete: {e}", p.id);
    }
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": hashes.len(),
            "rule": p.rule,
            "samples": samples,
            "pinned_cases": pinned_run,
            "classes": labels,
            "known_finding_hits": known_hits,
        },
        "assumptions": p.assumptions,
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let evd = vd.join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    let mut f = std::fs::File::create(evd.join(format!("{}.json", p.id))).unwrap();
    f.write_all(&serde_json::to_vec_pretty(&ev).unwrap())
        .unwrap();
    println!(
        "{}: {} cases, {} distinct non-trivial, {} violation(s), {:.1}s",
        p.id,
        evals,
        hashes.len(),
        violations.len(),
        started.elapsed().as_secs_f64()
    );
    if !violations.is_empty() {
        1
    } else if infra_error.is_some() {
        2
    } else {
        0
    }
}

fn proc_cpu(pid: u32) -> u64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else {
        return 0;
    };
    let Some((_, rest)) = s.rsplit_once(')') else {
        return 0;
    };
    let f: Vec<&str> = rest.split_whitespace().collect();
    let ut: u64 = f.get(11).and_then(|v| v.parse().ok()).unwrap_or(0);
    let st: u64 = f.get(12).and_then(|v| v.parse().ok()).unwrap_or(0);
    (ut + st) / 100
}
