//! Small driver around proptest: laws, observation counters, replay files and evidence.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

/// Number of independently seeded shards. Fixed, so that a run does not depend on the machine.
pub const SHARDS: u64 = 8;

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

/// What one case reported about itself.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// Measured quantities whose maximum is reported in the evidence (diagnostics only).
    pub maxima: Vec<(&'static str, f64)>,
    /// Deviations that are recorded as known findings: (key, what was observed). They fail the case
    /// unless the key is listed for the property in known-findings.txt.
    pub findings: Vec<(&'static str, String)>,
    /// Outcomes that may fail for a small share of the cases: (key, limit of that share, failed).
    pub rates: Vec<(&'static str, f64, bool)>,
}

impl Obs {
    /// The share of failed outcomes over the whole run must stay below `limit`.
    pub fn rate(&mut self, key: &'static str, limit: f64, failed: bool) {
        self.rates.push((key, limit, failed));
    }
    pub fn finding(&mut self, key: &'static str, msg: String) {
        self.findings.push((key, msg));
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn max(&mut self, l: &'static str, v: f64) {
        self.maxima.push((l, v));
    }
}

pub type Check = Result<(), String>;

#[macro_export]
macro_rules! chk {
    ($c:expr, $($arg:tt)*) => {
        if !($c) { return Err(format!($($arg)*)); }
    };
}

/// Keys (and descriptions) listed in known-findings.txt: "known: property=<id> key=<key> <text>".
static KNOWN: OnceLock<BTreeMap<String, (String, String)>> = OnceLock::new();

pub fn load_known(path: &str) {
    let mut m = BTreeMap::new();
    if let Ok(text) = std::fs::read_to_string(path) {
        for line in text.lines() {
            let Some(rest) = line.strip_prefix("known: property=") else { continue };
            let Some((id, rest)) = rest.split_once(" key=") else { continue };
            let (key, desc) = rest.split_once(' ').unwrap_or((rest, ""));
            m.insert(key.to_string(), (id.to_string(), desc.to_string()));
        }
    }
    let _ = KNOWN.set(m);
}

fn known(key: &str) -> bool {
    KNOWN.get().map_or(false, |m| m.contains_key(key))
}

/// Seconds a single case may take before it counts as not terminating.
const CASE_LIMIT_S: u64 = 150;

/// What each running shard is working on: law, when the case started, the serialized case.
type Slot = Arc<Mutex<Option<(Instant, Vec<u8>)>>>;
static SLOTS: Mutex<Vec<(&'static str, Slot)>> = Mutex::new(Vec::new());

fn new_slot(law: &'static str) -> Slot {
    let s: Slot = Arc::new(Mutex::new(None));
    SLOTS.lock().unwrap().push((law, s.clone()));
    s
}

/// Saves a case that does not terminate, reports it and ends the process.
fn start_watchdog(id: &'static str, seed: u64, verif: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let slots = SLOTS.lock().unwrap();
        for (law, slot) in slots.iter() {
            if let Some((t, case)) = &*slot.lock().unwrap() {
                if t.elapsed().as_secs() >= CASE_LIMIT_S {
                    let path = format!("{}/replays/{}-{}.json", verif, id, law);
                    std::fs::create_dir_all(format!("{}/replays", verif)).ok();
                    let j = serde_json::json!({
                        "property": id, "law": law, "seed": seed,
                        "message": format!("the case did not finish within {} s", CASE_LIMIT_S),
                        "case_bincode_hex": to_hex(case),
                    });
                    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).ok();
                    println!("{} law {}: a case did not finish within {} s", id, law, CASE_LIMIT_S);
                    println!("VIOLATION property={} replay={}", id, path);
                    std::process::exit(1);
                }
            }
        }
    });
}

/// Distinct cases are counted up to this many per law and shard.
const DISTINCT_CAP: usize = 2_000_000;

#[derive(Default, Clone)]
pub struct Rate {
    pub limit: f64,
    pub n: u64,
    pub failed: u64,
    /// First failing case: debug text and hex.
    pub example: Option<(String, String)>,
}

#[derive(Default)]
pub struct LawStats {
    pub findings: BTreeMap<&'static str, (u64, String)>,
    pub rates: BTreeMap<&'static str, Rate>,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, f64>,
    pub samples: Vec<String>,
}

pub struct Failure {
    pub law: &'static str,
    pub shard: u64,
    pub message: String,
    pub case_debug: String,
    pub case_hex: String,
}

type RunFn = Box<dyn Fn(u64, u64, u64) -> (LawStats, Option<Failure>) + Send + Sync>;
type ReplayFn = Box<dyn Fn(&str) -> (String, Check) + Send + Sync>;

pub struct Law {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    run: RunFn,
    replay: ReplayFn,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}

fn rng_for(seed: u64, law: &str, shard: u64) -> TestRng {
    let mut s = seed ^ fnv(law.as_bytes()).rotate_left(17) ^ shard.wrapping_mul(0xA24B_AED4_963E_E407);
    let mut bytes = [0u8; 32];
    for c in bytes.chunks_mut(8) {
        c.copy_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

pub fn to_hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn from_hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("bad hex"))
        .collect()
}

pub fn guarded<C>(check: fn(&C, &mut Obs) -> Check, case: &C, obs: &mut Obs) -> Check {
    match catch_unwind(AssertUnwindSafe(|| check(case, obs))) {
        Ok(Ok(())) => match obs.findings.iter().find(|(k, _)| !known(k)) {
            Some((_, m)) => Err(m.clone()),
            None => Ok(()),
        },
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC_MSG.with(|m| m.borrow().clone()))),
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{}", info));
    }));
}

fn trunc(s: String, n: usize) -> String {
    if s.len() <= n {
        s
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    }
}

pub fn law<C>(
    name: &'static str,
    rule: &'static str,
    quick: u64,
    thorough: u64,
    strat: fn() -> BoxedStrategy<C>,
    check: fn(&C, &mut Obs) -> Check,
) -> Law
where
    C: Debug + Serialize + DeserializeOwned + 'static,
{
    let run = move |seed: u64, shard: u64, cases: u64| {
        let stats = RefCell::new(LawStats::default());
        let failed = Cell::new(false);
        let config = Config {
            cases: cases as u32,
            failure_persistence: None,
            max_shrink_iters: 3000,
            max_shrink_time: 90_000,
            max_global_rejects: 1,
            max_local_rejects: 1 << 20,
            verbose: 0,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, rng_for(seed, name, shard));
        let slot = new_slot(name);
        let res = runner.run(&strat(), |case: C| {
            let mut obs = Obs::default();
            let bytes = bincode::serialize(&case).expect("serialize case");
            let hash = fnv(&bytes);
            *slot.lock().unwrap() = Some((Instant::now(), bytes));
            let r = guarded(check, &case, &mut obs);
            let bytes = slot.lock().unwrap().take().map(|x| x.1).unwrap_or_default();
            if !failed.get() {
                let mut st = stats.borrow_mut();
                st.evaluations += 1;
                for l in &obs.labels {
                    *st.labels.entry(l).or_insert(0) += 1;
                }
                for (l, v) in &obs.maxima {
                    let e = st.maxima.entry(l).or_insert(f64::NEG_INFINITY);
                    if *v > *e || v.is_nan() {
                        *e = *v;
                    }
                }
                for (k, limit, bad) in &obs.rates {
                    let e = st.rates.entry(k).or_default();
                    e.limit = *limit;
                    e.n += 1;
                    e.failed += *bad as u64;
                    if *bad && e.example.is_none() {
                        e.example = Some((format!("{:?}", case), to_hex(&bytes)));
                    }
                }
                if r.is_ok() {
                    for (k, m) in &obs.findings {
                        let e = st.findings.entry(k).or_insert_with(|| (0, m.clone()));
                        e.0 += 1;
                    }
                }
                if obs.nontrivial {
                    st.nontrivial += 1;
                    if st.distinct.len() < DISTINCT_CAP {
                        st.distinct.insert(hash);
                    }
                    if shard == 0 && st.samples.len() < 2 {
                        st.samples.push(trunc(format!("{}: {:?}", name, case), 1500));
                    }
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(m) => {
                    failed.set(true);
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let failure = match res {
            Ok(()) => None,
            Err(TestError::Fail(reason, case)) => {
                let bytes = bincode::serialize(&case).expect("serialize case");
                // The message of the minimal case, recomputed without proptest.
                let mut obs = Obs::default();
                let msg = guarded(check, &case, &mut obs)
                    .err()
                    .unwrap_or_else(|| format!("NOT REPRODUCED (was: {})", reason.message()));
                Some(Failure {
                    law: name,
                    shard,
                    message: msg,
                    case_debug: format!("{:?}", case),
                    case_hex: to_hex(&bytes),
                })
            }
            Err(TestError::Abort(reason)) => {
                eprintln!("law {} shard {} aborted: {}", name, shard, reason.message());
                std::process::exit(3);
            }
        };
        (stats.into_inner(), failure)
    };
    let replay = move |hex: &str| {
        let case: C = bincode::deserialize(&from_hex(hex)).expect("cannot decode case");
        let mut obs = Obs::default();
        let r = guarded(check, &case, &mut obs);
        (format!("{:?}", case), r)
    };
    Law {
        name,
        rule,
        quick,
        thorough,
        run: Box::new(run),
        replay: Box::new(replay),
    }
}

pub struct Property {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
    pub laws: Vec<Law>,
}

pub fn run_property(p: &Property, seed: u64, tier: &str, verif: &str, only: Option<&str>, mult: f64) -> i32 {
    let start = std::time::Instant::now();
    start_watchdog(p.id, seed, verif.to_string());
    let mut found: BTreeMap<&'static str, (u64, String)> = BTreeMap::new();
    let mut evaluations = 0u64;
    let mut distinct = 0u64;
    let mut nontrivial = 0u64;
    let mut rules = vec![];
    let mut samples = vec![];
    let mut laws_json = serde_json::Map::new();
    let mut failures: Vec<Failure> = vec![];
    for law in &p.laws {
        if let Some(o) = only {
            if o != law.name {
                continue;
            }
        }
        let t0 = std::time::Instant::now();
        let total = if tier == "thorough" { law.thorough } else { law.quick };
        let total = (total as f64 * mult) as u64;
        let per = (total + SHARDS - 1) / SHARDS;
        let mut results: Vec<(LawStats, Option<Failure>)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..SHARDS)
                .map(|i| {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || (law.run)(seed, i, per))
                        .expect("spawn")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("harness thread died")).collect()
        });
        let mut st = LawStats::default();
        for (s, f) in results.drain(..) {
            st.evaluations += s.evaluations;
            st.nontrivial += s.nontrivial;
            st.distinct.extend(s.distinct);
            for (k, v) in s.labels {
                *st.labels.entry(k).or_insert(0) += v;
            }
            for (k, v) in s.maxima {
                let e = st.maxima.entry(k).or_insert(f64::NEG_INFINITY);
                if v > *e || v.is_nan() {
                    *e = v;
                }
            }
            for (k, r) in s.rates {
                let e = st.rates.entry(k).or_default();
                e.limit = r.limit;
                e.n += r.n;
                e.failed += r.failed;
                e.example = e.example.take().or(r.example);
            }
            for (k, (n, m)) in s.findings {
                let e = found.entry(k).or_insert((0, m));
                e.0 += n;
            }
            st.samples.extend(s.samples);
            if let Some(f) = f {
                failures.push(f);
            }
        }
        for (k, r) in &st.rates {
            // Few outcomes scatter more around their share.
            let expected = r.limit * r.n as f64;
            let slack = if r.n >= 1000 { 5.0 } else { 5.0 + 4.0 * expected.sqrt() };
            if r.n >= 200 && r.failed as f64 > expected + slack {
                let (d, h) = r.example.clone().unwrap_or_default();
                failures.push(Failure {
                    law: law.name,
                    shard: 0,
                    message: format!("{}: {} of {} outcomes failed, more than the share of {} (the case is the first of them)", k, r.failed, r.n, r.limit),
                    case_debug: d,
                    case_hex: h,
                });
            }
        }
        evaluations += st.evaluations;
        nontrivial += st.nontrivial;
        distinct += st.distinct.len() as u64;
        rules.push(format!("[{}] {}", law.name, law.rule));
        samples.extend(st.samples);
        let max: BTreeMap<&str, String> = st.maxima.iter().map(|(k, v)| (*k, format!("{:e}", v))).collect();
        let dt = t0.elapsed().as_secs_f64();
        laws_json.insert(
            law.name.to_string(),
            serde_json::json!({
                "evaluations": st.evaluations,
                "nontrivial": st.nontrivial,
                "distinct_nontrivial": st.distinct.len(),
                "labels": st.labels,
                "max_observed": max,
                "failure_shares": st.rates.iter().map(|(k, r)| (k.to_string(), serde_json::json!({"outcomes": r.n, "failed": r.failed, "allowed_share": r.limit}))).collect::<serde_json::Map<_, _>>(),
                "wall_s": (dt * 100.0).round() / 100.0,
            }),
        );
        println!(
            "{} {}: {} cases, {} non-trivial ({} distinct), {:.2}s labels={:?} max={:?} shares={:?}",
            p.id, law.name, st.evaluations, st.nontrivial, st.distinct.len(), dt, st.labels, max,
            st.rates.iter().map(|(k, r)| format!("{}: {}/{}", k, r.failed, r.n)).collect::<Vec<_>>()
        );
    }
    let ev = serde_json::json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": format!("Cases come from proptest strategies (8 fixed shards, ChaCha seeded from VERIF_SEED, law and shard). distinct = distinct serialized cases per law (counted up to 2 million per shard). {}", rules.join(" ")),
            "samples": samples,
            "laws": laws_json,
            "nontrivial_evaluations": nontrivial,
            "known_findings_met": found.iter().map(|(k, (n, m))| serde_json::json!({"key": k, "cases": n, "example": m})).collect::<Vec<_>>(),
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    if only.is_none() {
        std::fs::create_dir_all(format!("{}/evidence", verif)).ok();
        std::fs::write(
            format!("{}/evidence/{}.json", verif, p.id),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("write evidence");
    }
    for (key, (id, desc)) in KNOWN.get().into_iter().flatten() {
        if id == p.id {
            let n = found.get(key.as_str()).map_or(0, |x| x.0);
            println!("KNOWN-FINDING: property={} {} (key {}, met by {} cases)", id, desc, key, n);
        }
    }
    if failures.is_empty() {
        println!("{}: held on {} cases ({} distinct non-trivial)", p.id, evaluations, distinct);
        return 0;
    }
    let dir = format!("{}/replays", verif);
    std::fs::create_dir_all(&dir).ok();
    let mut seen = HashSet::new();
    for f in &failures {
        if !seen.insert(f.law) {
            continue;
        }
        let path = format!("{}/{}-{}.json", dir, p.id, f.law);
        let j = serde_json::json!({
            "property": p.id,
            "law": f.law,
            "seed": seed,
            "tier": tier,
            "shard": f.shard,
            "message": f.message,
            "case": f.case_debug,
            "case_bincode_hex": f.case_hex,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("write replay");
        println!("{} law {} FAILED: {}\n  minimal case: {}", p.id, f.law, f.message, f.case_debug);
        println!("VIOLATION property={} replay={}", p.id, path);
    }
    1
}

pub fn replay_property(props: &[Property], path: &str, verif: &str) -> i32 {
    let j: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(path).expect("read replay")).expect("parse replay");
    let (id, law) = (j["property"].as_str().unwrap(), j["law"].as_str().unwrap());
    let p = props.iter().find(|p| p.id == id).expect("unknown property");
    let l = p.laws.iter().find(|l| l.name == law).expect("unknown law");
    if j["message"].as_str().map_or(false, |m| m.contains("more than the share of")) {
        println!("a share over a whole run was exceeded; rerunning the law with the recorded seed");
        return run_property(p, j["seed"].as_u64().unwrap_or(1), j["tier"].as_str().unwrap_or("quick"), verif, Some(law), 1.0);
    }
    let (id2, path2) = (id.to_string(), path.to_string());
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(CASE_LIMIT_S));
        println!("{}: the case did not finish within {} s", id2, CASE_LIMIT_S);
        println!("VIOLATION property={} replay={}", id2, path2);
        std::process::exit(1);
    });
    let (case, r) = (l.replay)(j["case_bincode_hex"].as_str().unwrap());
    println!("case: {}", case);
    match r {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(m) => {
            println!("{} law {}: {}", id, law, m);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
    }
}

/// Shorthand to box strategies.
pub fn bx<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}
