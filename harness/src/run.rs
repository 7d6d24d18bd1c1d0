//! Runs a property's cases in worker processes, watches them from outside (crash, abort, runaway
//! CPU), merges what they observed and turns it into a verdict and an evidence file.
use crate::rng::{mix, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, Write};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

pub const HANG_CPU_S: u64 = 60;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx, u64),
    pub rule: &'static str,
    /// counters that must reach a minimum, or the run observed too little to say anything
    pub need: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
}

pub struct Violation {
    /// what identifies it in the known-findings file
    pub key: String,
    pub what: String,
    pub input: Option<Vec<u8>>,
}

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub idx: u64,
    pub total: u64,
    pub evaluations: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub maxes: BTreeMap<String, u64>,
}
impl Ctx {
    pub fn rng(&self) -> Rng {
        let mut h = self.seed;
        for b in self.id.bytes() {
            h = mix(h ^ b as u64);
        }
        Rng::new(mix(h ^ mix(self.idx)))
    }
    pub fn add(&mut self, k: impl Into<String>, n: u64) {
        *self.counters.entry(k.into()).or_insert(0) += n
    }
    pub fn hit(&mut self, k: impl Into<String>) {
        self.add(k, 1)
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxes.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n)
    }
    /// one execution judged by the oracle; `nontrivial` cases are counted once each
    pub fn eval(&mut self, bytes: &[u8], nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            let h = hash(bytes);
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 2 {
            let v = f();
            self.samples.push(v)
        }
    }
    pub fn bad(&mut self, key: impl Into<String>, what: impl Into<String>, input: Option<&[u8]>) {
        if self.violations.len() < 50 {
            let mut what: String = what.into();
            if what.len() > 2500 {
                let mut n = 2500;
                while !what.is_char_boundary(n) {
                    n -= 1
                }
                what.truncate(n);
                what.push_str("...");
            }
            self.violations.push(Violation { key: key.into(), what, input: input.map(|x| x.to_vec()) })
        }
    }
    /// Run code under test. A panic is a violation of whatever is being checked.
    pub fn guard<T>(&mut self, what: &str, input: &[u8], f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) {
            Ok(x) => Some(x),
            Err(msg) => {
                self.bad(format!("panic:{}", loc(&msg)), format!("panic in {what}: {msg}"), Some(input));
                None
            }
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}
fn loc(msg: &str) -> String {
    msg.rsplit(" at ").next().unwrap_or("").to_string()
}

thread_local!(static MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
static QUIET: std::sync::Once = std::sync::Once::new();
pub fn install_hook() {
    QUIET.call_once(|| {
        std::panic::set_hook(Box::new(|i| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            MSG.with(|x| *x.borrow_mut() = format!("{m} at {l}"));
        }))
    });
}
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| MSG.with(|x| x.borrow().clone()))
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64 ^ b.len() as u64;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    }
    for x in it.remainder() {
        h = (h ^ *x as u64).wrapping_mul(0x0100_0000_01B3);
    }
    mix(h)
}

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
pub fn cpu_s() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

fn new_ctx(p: &Prop, tier: Tier, seed: u64, total: u64) -> Ctx {
    Ctx {
        id: p.id,
        tier,
        seed,
        idx: 0,
        total,
        evaluations: 0,
        counters: Default::default(),
        distinct: Default::default(),
        samples: vec![],
        violations: vec![],
        maxes: Default::default(),
    }
}

pub fn rss_limit(bytes: u64) {
    if cfg!(vh_asan) {
        return;
    }
    let r = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &r) };
}

/// Worker: `vh worker ID tier seed total shard shards deadline_s [only idx]`
pub fn worker(p: &'static Prop, tier: Tier, seed: u64, total: u64, shard: u64, shards: u64, wall: f64, only: Option<u64>) -> ! {
    install_hook();
    if std::env::var("VH_NOLIMIT").is_err() {
        rss_limit(6 << 30);
    }
    let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &core) };
    let status = std::env::var("VH_STATUS").ok().map(|f| std::fs::OpenOptions::new().write(true).create(true).open(f).unwrap());
    let out = Mutex::new(std::io::stdout());
    let start = Instant::now();
    std::thread::spawn(move || {
        let mut seen = (u64::MAX, 0.0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let c = CUR.load(Relaxed);
            let now = cpu_s();
            if c != seen.0 {
                seen = (c, now);
            } else if c != u64::MAX && now - seen.1 > HANG_CPU_S as f64 {
                println!("\nHANG {c}");
                let _ = std::io::stdout().flush();
                unsafe { libc::_exit(97) };
            }
        }
    });
    let mut ctx = new_ctx(p, tier, seed, total);
    // cases run on a stack of the size Rust gives a spawned thread by default
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let mut i = only.unwrap_or(shard);
            let mut done = 0u64;
            while i < total {
                CUR.store(i, Relaxed);
                if let Some(f) = &status {
                    use std::os::unix::fs::FileExt;
                    let _ = f.write_at(&i.to_le_bytes(), 0);
                }
                ctx.idx = i;
                let nv = ctx.violations.len();
                if let Err(m) = catch(|| (p.run)(&mut ctx, i)) {
                    println!("HARNESS {}", json!({"idx": i, "msg": m}));
                    unsafe { libc::_exit(3) };
                }
                for v in ctx.violations.drain(nv..).collect::<Vec<_>>() {
                    println!("V {}", json!({"idx": i, "key": v.key, "what": v.what, "input": v.input.as_deref().map(hex)}));
                }
                done += 1;
                if only.is_some() || start.elapsed().as_secs_f64() > wall {
                    break;
                }
                i += shards;
            }
            (ctx, done)
        })
        .unwrap();
    let r = h.join();
    CUR.store(u64::MAX, Relaxed);
    let Ok((ctx, done)) = r else {
        println!("HARNESS {}", json!({"msg": "worker thread panicked"}));
        std::process::exit(3)
    };
    let _g = out.lock().unwrap();
    println!(
        "R {}",
        json!({"done": done, "evaluations": ctx.evaluations, "counters": ctx.counters, "maxes": ctx.maxes, "distinct": ctx.distinct.iter().collect::<Vec<_>>(), "samples": ctx.samples})
    );
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(0) }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    s.as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}

pub struct Outcome {
    pub violations: Vec<Value>,
    pub known: Vec<String>,
    pub inconclusive: Vec<String>,
    pub evidence: Value,
}

fn spawn_worker(p: &Prop, tier: Tier, seed: u64, total: u64, shard: u64, shards: u64, wall: f64, only: Option<u64>, status: &str) -> std::process::Child {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.arg("worker")
        .arg(p.id)
        .arg(if tier == Tier::Quick { "quick" } else { "thorough" })
        .arg(seed.to_string())
        .arg(total.to_string())
        .arg(shard.to_string())
        .arg(shards.to_string())
        .arg(wall.to_string());
    if let Some(i) = only {
        c.arg(i.to_string());
    }
    c.env("VH_STATUS", status).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap()
}

struct Died {
    how: String,
    idx: Option<u64>,
    stderr: String,
}

/// run one worker to completion; collect its lines
fn drive(mut c: std::process::Child, status: &str) -> (Vec<Value>, Option<Value>, Vec<String>, Option<Died>) {
    let so = c.stdout.take().unwrap();
    let mut se = c.stderr.take().unwrap();
    let et = std::thread::spawn(move || {
        let mut s = String::new();
        let mut buf = [0u8; 4096];
        use std::io::Read;
        while let Ok(n) = se.read(&mut buf) {
            if n == 0 {
                break;
            }
            if s.len() < 200_000 {
                s.push_str(&String::from_utf8_lossy(&buf[..n]));
            }
        }
        s
    });
    let (mut vs, mut res, mut bad) = (vec![], None, vec![]);
    let mut hang = None;
    for l in std::io::BufReader::new(so).lines().map_while(Result::ok) {
        if let Some(x) = l.strip_prefix("V ") {
            if let Ok(v) = serde_json::from_str::<Value>(x) {
                if vs.len() < 200 {
                    vs.push(v)
                }
            }
        } else if let Some(x) = l.strip_prefix("R ") {
            res = serde_json::from_str(x).ok();
        } else if let Some(x) = l.strip_prefix("HARNESS ") {
            bad.push(x.to_string())
        } else if let Some(x) = l.strip_prefix("HANG ") {
            hang = x.trim().parse::<u64>().ok();
        }
    }
    let st = c.wait().unwrap();
    let stderr = et.join().unwrap_or_default();
    let idx = std::fs::read(status).ok().and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
    let died = if let Some(h) = hang {
        Some(Died { how: format!("more than {HANG_CPU_S} s of CPU on one input"), idx: Some(h), stderr })
    } else if st.success() && res.is_some() {
        None
    } else if bad.is_empty() {
        let how = match st.signal() {
            Some(s) => format!("killed by signal {s}"),
            None => format!("exit status {:?}", st.code()),
        };
        Some(Died { how, idx, stderr })
    } else {
        None
    };
    (vs, res, bad, died)
}

pub fn scratch() -> String {
    let d = std::env::var("VH_OUT").unwrap_or_else(|_| "/verif/evidence".into());
    let _ = std::fs::create_dir_all(&d);
    d
}

pub fn parent(p: &'static Prop, tier: Tier, seed: u64) -> Outcome {
    let t0 = Instant::now();
    let total = std::env::var("VH_CASES").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == Tier::Quick { p.quick } else { p.thorough });
    let wall: f64 = std::env::var("VH_WALL").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == Tier::Quick { 240.0 } else { 3000.0 });
    let shards = 8u64.min(total.max(1));
    let dir = scratch();
    let mut hs = vec![];
    for s in 0..shards {
        let status = format!("{dir}/.status-{}-{}-{s}", p.id, std::process::id());
        let c = spawn_worker(p, tier, seed, total, s, shards, wall, None, &status);
        hs.push(std::thread::spawn(move || {
            let r = drive(c, &status);
            let _ = std::fs::remove_file(&status);
            (s, r)
        }));
    }
    let mut vs: Vec<Value> = vec![];
    let mut inc = vec![];
    let mut ev = 0u64;
    let mut done = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxes: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    for h in hs {
        let (s, (v, res, bad, died)) = h.join().unwrap();
        vs.extend(v);
        for b in bad {
            inc.push(format!("harness error in worker {s}: {b}"))
        }
        if let Some(r) = res {
            done += r["done"].as_u64().unwrap_or(0);
            ev += r["evaluations"].as_u64().unwrap_or(0);
            for (k, n) in r["counters"].as_object().into_iter().flatten() {
                *counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0)
            }
            for (k, n) in r["maxes"].as_object().into_iter().flatten() {
                let e = maxes.entry(k.clone()).or_insert(0);
                *e = (*e).max(n.as_u64().unwrap_or(0))
            }
            distinct.extend(r["distinct"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
            if samples.len() < 4 {
                samples.extend(r["samples"].as_array().into_iter().flatten().cloned().take(1))
            }
        }
        if let Some(d) = died {
            match d.idx {
                None => inc.push(format!("worker {s} {} before its first case: {}", d.how, tail(&d.stderr))),
                Some(i) => {
                    // confirm in a fresh process, on that case alone
                    let status = format!("{dir}/.status-{}-{}-c{s}", p.id, std::process::id());
                    let c = spawn_worker(p, tier, seed, total, 0, 1, wall, Some(i), &status);
                    let (v2, _, _, d2) = drive(c, &status);
                    let _ = std::fs::remove_file(&status);
                    vs.extend(v2);
                    match d2 {
                        Some(d2) => {
                            let note = notable(&d2.stderr);
                            vs.push(json!({"idx": i, "key": format!("died:{}:{}", d2.how, note), "what": format!("process {} on this case (twice): {}", d2.how, tail(&d2.stderr)), "input": null}))
                        }
                        // SIGKILL can come from outside (memory ran out); these cannot
                        None if [4, 6, 7, 8, 11].iter().any(|g| d.how == format!("killed by signal {g}")) => vs.push(
                            json!({"idx": i, "key": format!("died:{}:{}", d.how, notable(&d.stderr)), "what": format!("process {} in a run of cases, at this one (not again on its own): {}", d.how, tail(&d.stderr)), "input": null}),
                        ),
                        None => inc.push(format!("worker {s} {} on case {i}, not reproduced alone: {}", d.how, tail(&d.stderr))),
                    }
                }
            }
        }
    }
    let known = known_findings(p.id);
    let mut shown_known: Vec<String> = vec![];
    let mut fresh = vec![];
    for v in vs {
        let key = v["key"].as_str().unwrap_or("");
        match known.iter().find(|k| k.0 == key) {
            Some(k) => {
                if !shown_known.contains(&k.1) {
                    shown_known.push(k.1.clone())
                }
            }
            None => fresh.push(v),
        }
    }
    if fresh.is_empty() {
        for (k, n) in p.need {
            let got = counters.get(*k).or(maxes.get(*k)).copied().unwrap_or(0);
            // a run cut short by the clock is held to its share
            let n = &if done < total && counters.contains_key(*k) { n * done / total.max(1) } else { *n };
            if got < *n && std::env::var("VH_CASES").is_err() {
                inc.push(format!("observed too little: {k} = {got}, need {n}"))
            }
        }
    }
    let mut cov = json!({
        "evaluations": ev,
        "distinct_nontrivial": distinct.len(),
        "rule": p.rule,
        "samples": samples,
        "cases_run": done,
        "cases_planned": total,
        "observed": counters,
    });
    if !maxes.is_empty() {
        cov["maxima"] = json!(maxes);
    }
    let evidence = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": fresh.len(),
    });
    Outcome { violations: fresh, known: shown_known, inconclusive: inc, evidence }
}
fn tail(s: &str) -> String {
    let l: Vec<&str> = s.lines().collect();
    l[l.len().saturating_sub(6)..].join(" | ")
}
fn notable(s: &str) -> &'static str {
    if s.contains("has overflowed its stack") {
        "stack overflow"
    } else if s.contains("AddressSanitizer") {
        "AddressSanitizer report"
    } else if s.contains("memory allocation of") {
        "allocation failure"
    } else {
        "-"
    }
}

/// (key, line to print)
fn known_findings(id: &str) -> Vec<(String, String)> {
    let f = std::env::var("VH_KNOWN").unwrap_or_else(|_| "/verif/known-findings.txt".into());
    std::fs::read_to_string(f)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("open: property={id} key=[")))
        .filter_map(|l| l.split_once("] "))
        .map(|(k, w)| (k.to_string(), w.to_string()))
        .collect()
}

pub fn finish(p: &Prop, tier: Tier, seed: u64, o: Outcome) -> i32 {
    let dir = scratch();
    std::fs::write(format!("{dir}/{}.json", p.id), serde_json::to_string_pretty(&o.evidence).unwrap()).unwrap();
    for k in &o.known {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    if !o.violations.is_empty() {
        let rd = format!("{dir}/replays");
        let _ = std::fs::create_dir_all(&rd);
        let mut seen = HashSet::new();
        let mut n = 0;
        for v in &o.violations {
            let key = v["key"].as_str().unwrap_or("").to_string();
            if !seen.insert(key) || n >= 5 {
                continue;
            }
            n += 1;
            let path = format!("{rd}/{}-{n}.json", p.id);
            let rec = json!({"property": p.id, "tier": if tier == Tier::Quick {"quick"} else {"thorough"}, "seed": seed, "case": v["idx"], "key": v["key"], "what": v["what"],
                "input_hex": v["input"], "how": "harness/target/checked/vh replay <this file> re-runs the case"});
            std::fs::write(&path, serde_json::to_string_pretty(&rec).unwrap()).unwrap();
            println!("VIOLATION property={} replay={}", p.id, path);
            println!("  {}", v["what"].as_str().unwrap_or("").chars().take(600).collect::<String>().replace('\n', "\\n"));
        }
        println!("{}: {} violating observations", p.id, o.violations.len());
        return 1;
    }
    if !o.inconclusive.is_empty() {
        for i in o.inconclusive.iter().take(10) {
            println!("INCONCLUSIVE property={} {}", p.id, i);
        }
        return 2;
    }
    let c = &o.evidence["coverage"];
    println!(
        "{}: held on {} executions ({} distinct), {:.1}s",
        p.id, c["evaluations"], c["distinct_nontrivial"], o.evidence["wall_s"].as_f64().unwrap_or(0.0)
    );
    0
}
