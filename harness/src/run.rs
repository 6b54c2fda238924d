//! Runner: proptest-driven search over byte tapes, shrinking, replay files, evidence, crash and hang capture.
use crate::dict::{repo_root, verif_root};
use crate::tape::Tape;
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::fs;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub classes: Vec<String>,
}
impl Obs {
    pub fn class(&mut self, s: impl Into<String>) {
        self.classes.push(s.into())
    }
    pub fn hit(&mut self) {
        self.nontrivial = true
    }
}

pub trait Check: Sync + Send {
    type Case: Serialize + DeserializeOwned + Debug + Clone + Send + Sync;
    fn name(&self) -> &'static str;
    /// what the cases are and which count as non-trivial
    fn rule(&self) -> &'static str;
    fn tape_len(&self) -> usize;
    fn gen(&self, t: &mut Tape) -> Self::Case;
    fn fixed(&self) -> Vec<Self::Case> {
        vec![]
    }
    fn test(&self, c: &Self::Case, o: &mut Obs) -> Result<(), String>;
    /// simpler variants of a fixed case, for reducing it when it fails (generated cases shrink through their tape)
    fn simpler(&self, _c: &Self::Case) -> Vec<Self::Case> {
        vec![]
    }
    /// number of generated cases (quick, thorough)
    fn budget(&self) -> (u64, u64);
    /// run on a single thread (the case itself uses all cores or measures time)
    fn serial(&self) -> bool {
        false
    }
    /// the library runs in this process, so that coverage can guide the search
    fn guidable(&self) -> bool {
        !self.serial()
    }
}

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub threads: usize,
    pub deadline: Instant,
    pub scale: f64,
    pub slots: Option<String>,
}

#[derive(Default)]
pub struct Report {
    pub name: String,
    pub rule: String,
    pub evaluations: u64,
    pub fixed: u64,
    pub distinct_nontrivial: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(Value, String)>,
    pub cut_short: bool,
    pub wall: f64,
}

pub trait DynCheck: Sync + Send {
    fn name(&self) -> &'static str;
    fn run(&self, cx: &Ctx) -> Report;
    fn replay(&self, case: &Value) -> Result<(), String>;
    fn case_of_tape(&self, tape: &[u8]) -> Value;
    fn fixed_case(&self, i: usize) -> Option<Value>;
    /// for coverage-guided fuzzing: Err is a violation, Ok how much of the tape the case is made of; nothing is run when
    /// the case was seen before
    fn fuzz_one(&self, tape: &[u8], o: &mut Obs, seen: Option<&mut HashSet<u64>>) -> Result<Option<usize>, (Value, String)>;
    fn tape_len(&self) -> usize;
    /// number of generated cases in all
    fn cases(&self, cx: &Ctx) -> u64;
    fn guidable(&self) -> bool;
}

fn safe_test<C: Check>(c: &C, case: &C::Case, o: &mut Obs) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| c.test(case, o))) {
        Ok(r) => r,
        Err(e) => Err(format!("panicked: {}", panic_text(&e))),
    }
}
pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}
pub fn hash_of(v: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

// ---- per-thread slots: what each thread is working on, for crashes and hangs
const SLOT: u64 = 8192;
pub struct Slot {
    file: Option<fs::File>,
    idx: usize,
}
static STARTED: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
impl Slot {
    pub fn open(cx: &Ctx, idx: usize) -> Slot {
        Slot { file: cx.slots.as_ref().and_then(|p| fs::OpenOptions::new().write(true).create(true).truncate(false).open(p).ok()), idx }
    }
    pub fn set(&self, check: &str, tape: &[u8], fixed: i64) {
        if let Some(f) = &self.file {
            let mut b = vec![0u8; 128 + tape.len()];
            b[0] = 1;
            b[1..9].copy_from_slice(&fixed.to_le_bytes());
            b[9..13].copy_from_slice(&(tape.len() as u32).to_le_bytes());
            b[13] = check.len() as u8;
            b[14..14 + check.len()].copy_from_slice(check.as_bytes());
            b[128..].copy_from_slice(tape);
            let _ = f.write_all_at(&b, self.idx as u64 * SLOT);
        }
        STARTED[self.idx].store(now_ms(), Ordering::Relaxed);
    }
    pub fn clear(&self) {
        STARTED[self.idx].store(0, Ordering::Relaxed);
    }
}
pub fn read_slots(path: &str) -> Vec<(usize, String, Vec<u8>, i64)> {
    let mut out = vec![];
    if let Ok(d) = fs::read(path) {
        for (i, s) in d.chunks(SLOT as usize).enumerate() {
            if s.len() < 128 || s[0] != 1 {
                continue;
            }
            let fixed = i64::from_le_bytes(s[1..9].try_into().unwrap());
            let n = u32::from_le_bytes(s[9..13].try_into().unwrap()) as usize;
            let name = String::from_utf8_lossy(&s[14..14 + s[13] as usize]).to_string();
            let tape = s[128..(128 + n).min(s.len())].to_vec();
            out.push((i, name, tape, fixed));
        }
    }
    out
}

pub struct W<C: Check>(pub C);
impl<C: Check> DynCheck for W<C> {
    fn name(&self) -> &'static str {
        self.0.name()
    }
    fn replay(&self, case: &Value) -> Result<(), String> {
        let c: C::Case = serde_json::from_value(case.clone()).map_err(|e| format!("unreadable case: {e}"))?;
        safe_test(&self.0, &c, &mut Obs::default())
    }
    fn case_of_tape(&self, tape: &[u8]) -> Value {
        serde_json::to_value(self.0.gen(&mut Tape::new(tape))).unwrap()
    }
    fn fixed_case(&self, i: usize) -> Option<Value> {
        self.0.fixed().get(i).map(|c| serde_json::to_value(c).unwrap())
    }
    fn fuzz_one(&self, tape: &[u8], o: &mut Obs, seen: Option<&mut HashSet<u64>>) -> Result<Option<usize>, (Value, String)> {
        let mut t = Tape::new(tape);
        let c = self.0.gen(&mut t);
        let used = t.used();
        if let Some(s) = seen {
            if !s.insert(hash_of(&serde_json::to_string(&c).unwrap_or_default())) {
                return Ok(None);
            }
        }
        safe_test(&self.0, &c, o).map_err(|e| (serde_json::to_value(&c).unwrap(), e))?;
        Ok(Some(used))
    }
    fn tape_len(&self) -> usize {
        self.0.tape_len()
    }
    fn cases(&self, cx: &Ctx) -> u64 {
        let (q, th) = self.0.budget();
        ((if cx.tier == "thorough" { th } else { q }) as f64 * cx.scale).ceil() as u64
    }
    fn guidable(&self) -> bool {
        self.0.guidable()
    }
    fn run(&self, cx: &Ctx) -> Report {
        let chk = &self.0;
        let t0 = Instant::now();
        let total = self.cases(cx);
        let threads = if chk.serial() { 1 } else { cx.threads };
        let fixed = chk.fixed();
        let stop = AtomicBool::new(false);
        let shared = Mutex::new((Report::default(), HashSet::<u64>::new()));
        let next_fixed = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for th in 0..threads {
                let (stop, shared, next_fixed, fixed) = (&stop, &shared, &next_fixed, &fixed);
                std::thread::Builder::new()
                    .stack_size(2 << 20) // what std gives a thread by default
                    .spawn_scoped(sc, move || {
                        let slot = Slot::open(cx, th);
                        let mut n = 0u64;
                        let mut nf = 0u64;
                        let mut cut = false;
                        let mut classes: BTreeMap<String, u64> = BTreeMap::new();
                        let mut seen: HashSet<u64> = HashSet::new();
                        let mut samples: Vec<Value> = vec![];
                        let mut fail: Option<(Value, String)> = None;
                        let mut note = |o: Obs, c: &C::Case, n: u64, seen: &mut HashSet<u64>, samples: &mut Vec<Value>| {
                            for k in o.classes {
                                *classes.entry(k).or_insert(0) += 1;
                            }
                            if o.nontrivial {
                                let s = serde_json::to_string(c).unwrap_or_default();
                                seen.insert(hash_of(&s));
                                if samples.len() < 2 && n % 7 == 3 && s.len() < 3000 {
                                    samples.push(serde_json::from_str(&s).unwrap_or(Value::Null));
                                }
                            }
                        };
                        // fixed cases first, shared among the threads
                        loop {
                            let i = next_fixed.fetch_add(1, Ordering::Relaxed) as usize;
                            if i >= fixed.len() || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if Instant::now() > cx.deadline {
                                cut = true;
                                break;
                            }
                            slot.set(chk.name(), &[], i as i64);
                            let mut o = Obs::default();
                            let r = safe_test(chk, &fixed[i], &mut o);
                            slot.clear();
                            n += 1;
                            nf += 1;
                            note(o, &fixed[i], n, &mut seen, &mut samples);
                            if let Err(mut e) = r {
                                stop.store(true, Ordering::Relaxed);
                                let mut best = fixed[i].clone();
                                let until = Instant::now() + Duration::from_secs(60);
                                'reduce: loop {
                                    for s in chk.simpler(&best) {
                                        if Instant::now() > until {
                                            break 'reduce;
                                        }
                                        if let Err(e2) = safe_test(chk, &s, &mut Obs::default()) {
                                            best = s;
                                            e = e2;
                                            continue 'reduce;
                                        }
                                    }
                                    break;
                                }
                                fail = Some((serde_json::to_value(&best).unwrap(), e));
                                break;
                            }
                        }
                        let share = total / threads as u64 + u64::from((th as u64) < total % threads as u64);
                        if share > 0 && fail.is_none() && !stop.load(Ordering::Relaxed) {
                            let mut sd = [0u8; 32];
                            sd[..8].copy_from_slice(&cx.seed.to_le_bytes());
                            sd[8..16].copy_from_slice(&hash_of(chk.name()).to_le_bytes());
                            sd[16..24].copy_from_slice(&(th as u64).to_le_bytes());
                            sd[24..].copy_from_slice(b"edcheck1");
                            let cfg = Config {
                                cases: share.min(u32::MAX as u64) as u32,
                                failure_persistence: None,
                                max_shrink_iters: 4000,
                                max_shrink_time: 60_000,
                                max_global_rejects: u32::MAX,
                                ..Config::default()
                            };
                            let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &sd));
                            let mine = std::cell::Cell::new(false);
                            let cell = std::cell::RefCell::new((n, &mut seen, &mut samples, false));
                            let notec = std::cell::RefCell::new(&mut note);
                            let strat = proptest::collection::vec(any::<u8>(), chk.tape_len());
                            let res = runner.run(&strat, |tape| {
                                if !mine.get() {
                                    if stop.load(Ordering::Relaxed) {
                                        return Ok(());
                                    }
                                    if Instant::now() > cx.deadline {
                                        cell.borrow_mut().3 = true;
                                        return Ok(());
                                    }
                                }
                                slot.set(chk.name(), &tape, -1);
                                let case = chk.gen(&mut Tape::new(&tape));
                                let mut o = Obs::default();
                                let r = safe_test(chk, &case, &mut o);
                                slot.clear();
                                if !mine.get() {
                                    let mut c = cell.borrow_mut();
                                    c.0 += 1;
                                    let n = c.0;
                                    let (_, a, b, _) = &mut *c;
                                    (notec.borrow_mut())(o, &case, n, a, b);
                                }
                                match r {
                                    Ok(()) => Ok(()),
                                    Err(e) => {
                                        mine.set(true);
                                        stop.store(true, Ordering::Relaxed);
                                        Err(TestCaseError::fail(e))
                                    }
                                }
                            });
                            let c = cell.into_inner();
                            n = c.0;
                            cut |= c.3;
                            match res {
                                Ok(()) => {}
                                Err(TestError::Fail(why, tape)) => {
                                    let case = chk.gen(&mut Tape::new(&tape));
                                    fail = Some((serde_json::to_value(&case).unwrap(), why.message().to_string()));
                                }
                                Err(TestError::Abort(why)) => {
                                    eprintln!("proptest aborted: {}", why.message());
                                    std::process::exit(4);
                                }
                            }
                        }
                        let mut g = shared.lock().unwrap();
                        g.0.evaluations += n;
                        g.0.fixed += nf;
                        g.0.cut_short |= cut;
                        for (k, v) in classes {
                            *g.0.classes.entry(k).or_insert(0) += v;
                        }
                        g.1.extend(seen);
                        if g.0.samples.len() < 4 {
                            g.0.samples.extend(samples);
                        }
                        if g.0.failure.is_none() {
                            g.0.failure = fail;
                        }
                    })
                    .unwrap();
            }
        });
        let (mut r, seen) = shared.into_inner().unwrap();
        r.name = chk.name().into();
        r.rule = chk.rule().into();
        r.distinct_nontrivial = seen.len() as u64;
        r.samples.truncate(4);
        r.wall = t0.elapsed().as_secs_f64();
        r
    }
}

/// the same check with another budget
pub struct Scaled(pub Box<dyn DynCheck>, pub f64);
impl DynCheck for Scaled {
    fn name(&self) -> &'static str {
        self.0.name()
    }
    fn run(&self, cx: &Ctx) -> Report {
        self.0.run(&Ctx { scale: cx.scale * self.1, prop: cx.prop.clone(), tier: cx.tier.clone(), slots: cx.slots.clone(), ..*cx })
    }
    fn replay(&self, case: &Value) -> Result<(), String> {
        self.0.replay(case)
    }
    fn case_of_tape(&self, tape: &[u8]) -> Value {
        self.0.case_of_tape(tape)
    }
    fn fixed_case(&self, i: usize) -> Option<Value> {
        self.0.fixed_case(i)
    }
    fn fuzz_one(&self, tape: &[u8], o: &mut Obs, seen: Option<&mut HashSet<u64>>) -> Result<Option<usize>, (Value, String)> {
        self.0.fuzz_one(tape, o, seen)
    }
    fn tape_len(&self) -> usize {
        self.0.tape_len()
    }
    fn cases(&self, cx: &Ctx) -> u64 {
        (self.0.cases(cx) as f64 * self.1) as u64
    }
    fn guidable(&self) -> bool {
        self.0.guidable()
    }
}

pub fn write_replay(prop: &str, check: &str, case: &Value, why: &str) -> String {
    let dir = format!("{}/replays", verif_root());
    let _ = fs::create_dir_all(&dir);
    let h = hash_of(&case.to_string());
    let path = format!("{dir}/{prop}-{check}-{h:016x}.json");
    let v = json!({"property": prop, "check": check, "why": why, "case": case,
        "replay": format!("bash {}/check.sh {prop} replay {path}", verif_root())});
    let _ = fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

/// the second pass runs the library as a release build has it (no overflow checks or debug assertions)
pub fn plain_pass() -> bool {
    std::env::var("EDCHECK_PASS").is_ok_and(|v| v == "plain")
}
/// the third pass is coverage-guided
fn guided_pass() -> bool {
    cfg!(feature = "guided")
}

fn write_evidence(cx: &Ctx, reports: &[Report], extra: Value, wall: f64, violations: u64) {
    let dir = format!("{}/evidence", verif_root());
    let _ = fs::create_dir_all(&dir);
    let mut samples: Vec<Value> = vec![];
    for r in reports {
        for s in r.samples.iter().take(2) {
            samples.push(json!({"check": r.name, "case": s}));
        }
    }
    let checks: Vec<Value> = reports
        .iter()
        .map(|r| {
            json!({"check": r.name, "rule": r.rule, "evaluations": r.evaluations, "fixed_cases": r.fixed,
                "distinct_nontrivial": r.distinct_nontrivial, "classes": r.classes, "stopped_by_deadline": r.cut_short,
                "wall_s": (r.wall * 100.0).round() / 100.0})
        })
        .collect();
    let rule: Vec<String> = reports.iter().map(|r| format!("[{}] {}", r.name, r.rule)).collect();
    let v = json!({
        "property": cx.prop, "tier": cx.tier, "seed": cx.seed, "level": "exploration",
        "coverage": {
            "evaluations": reports.iter().map(|r| r.evaluations).sum::<u64>(),
            "distinct_nontrivial": reports.iter().map(|r| r.distinct_nontrivial).sum::<u64>(),
            "rule": rule.join(" "),
            "samples": samples,
            "checks": checks,
            "extra": extra,
            "exhaustive": false
        },
        "assumptions": [
            "the reference in harness/src/refed (self-tested at start-up against RFC 8032 and OpenSSL vectors) is right",
            "only generated inputs were explored"
        ],
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations
    });
    let path = format!("{dir}/{}.json", cx.prop);
    let mut v = v;
    if plain_pass() {
        // adds to what the first pass wrote
        if let Some(mut old) = fs::read_to_string(&path).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
            if old["property"] == v["property"] {
                for k in ["evaluations", "distinct_nontrivial"] {
                    old["coverage"][k] = json!(old["coverage"][k].as_u64().unwrap_or(0) + v["coverage"][k].as_u64().unwrap_or(0));
                }
                old["coverage"]["extra"]["plain_release_pass"] = json!({"checks": v["coverage"]["checks"], "wall_s": v["wall_s"], "seed": cx.seed});
                old["wall_s"] = json!(old["wall_s"].as_f64().unwrap_or(0.0) + wall.round());
                old["violations"] = json!(old["violations"].as_u64().unwrap_or(0) + violations);
                v = old;
            }
        }
    }
    let tmp = format!("{path}.tmp");
    let _ = fs::write(&tmp, serde_json::to_string_pretty(&v).unwrap());
    let _ = fs::rename(&tmp, &path);
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}
fn ctx(prop: &str) -> Ctx {
    let tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let tier = if tier == "thorough" { "thorough" } else { "quick" }.to_string();
    // a quick check has 900 s in all, builds included
    let limit = env_u64("EDCHECK_DEADLINE", if tier == "thorough" { 3 * 3600 } else if plain_pass() { 360 } else if guided_pass() { 90 } else { 220 });
    Ctx {
        prop: prop.into(),
        seed: env_u64("VERIF_SEED", 1).wrapping_add(if plain_pass() { 1 << 32 } else if guided_pass() { 2 << 32 } else { 0 }),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 32),
        deadline: Instant::now() + Duration::from_secs(limit),
        scale: std::env::var("EDCHECK_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0) * if plain_pass() { 1.0 } else if guided_pass() { 0.12 } else { 0.35 },
        slots: std::env::var("EDCHECK_SLOTS").ok(),
        tier,
    }
}

pub fn silence_panics() {
    if std::env::var("EDCHECK_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

/// runs all checks of a property; returns the exit code
pub fn run_property(prop: &str, checks: Vec<Box<dyn DynCheck>>) -> i32 {
    if std::env::var("EDCHECK_CHILD").is_ok() {
        return run_child(prop, checks);
    }
    #[cfg(feature = "guided")]
    if guided_pass() {
        return crate::guided::supervise(&ctx(prop), &checks);
    }
    // supervisor: the search runs in a child so that an abort or stack overflow is caught and attributed
    let cx = ctx(prop);
    let t0 = Instant::now();
    let scratch = std::env::temp_dir().join(format!("edcheck-{}-{}", prop, std::process::id()));
    let _ = fs::create_dir_all(&scratch);
    let slots = scratch.join("slots");
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe)
        .args(std::env::args().skip(1))
        .env("EDCHECK_CHILD", "1")
        .env("EDCHECK_SLOTS", &slots)
        .status();
    let code = match st {
        Ok(s) if s.code().is_some() => s.code().unwrap(),
        Ok(s) => {
            eprintln!("search process died: {:?} (signal {:?})", s, s.signal());
            let mut code = 3;
            for (_, name, tape, fixed) in read_slots(slots.to_str().unwrap()) {
                let Some(c) = checks.iter().find(|c| c.name() == name) else { continue };
                let case = if fixed >= 0 { c.fixed_case(fixed as usize).unwrap_or(Value::Null) } else { c.case_of_tape(&tape) };
                let why = format!("the process died ({s}) while running this case");
                let path = write_replay(prop, &name, &case, &why);
                let r = std::process::Command::new(&exe).args([prop, "replay", &path]).stdout(std::process::Stdio::null()).status();
                let died = r.as_ref().map(|r| r.code() != Some(0)).unwrap_or(false);
                if died {
                    println!("{why}");
                    println!("VIOLATION property={prop} replay={path}");
                    write_evidence(&cx, &[], json!({"note": why}), t0.elapsed().as_secs_f64(), 1);
                    code = 1;
                    break;
                }
                let _ = fs::remove_file(&path);
            }
            code
        }
        Err(e) => {
            eprintln!("cannot start the search process: {e}");
            3
        }
    };
    let _ = fs::remove_dir_all(&scratch);
    code
}

fn run_child(prop: &str, checks: Vec<Box<dyn DynCheck>>) -> i32 {
    silence_panics();
    let cx = ctx(prop);
    let t0 = Instant::now();
    if let Err(e) = crate::selftest::run() {
        eprintln!("reference self-test failed: {e}");
        return 5;
    }
    let only = std::env::var("EDCHECK_ONLY").ok();
    let names: std::sync::Arc<Vec<Box<dyn DynCheck>>> = std::sync::Arc::new(checks);
    // watchdog: a single case that never comes back is a violation of "returns a result"
    {
        let names = names.clone();
        let prop = prop.to_string();
        let slots = cx.slots.clone();
        let hang = env_u64("EDCHECK_HANG", if cx.tier == "thorough" { 1200 } else { 240 }) * 1000;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for (i, s) in STARTED.iter().enumerate() {
                let v = s.load(Ordering::Relaxed);
                if v != 0 && now_ms() > v + hang {
                    let Some(sl) = &slots else { continue };
                    let Some((_, name, tape, fixed)) = read_slots(sl).into_iter().find(|x| x.0 == i) else { continue };
                    let Some(c) = names.iter().find(|c| c.name() == name) else { continue };
                    let case = if fixed >= 0 { c.fixed_case(fixed as usize).unwrap_or(Value::Null) } else { c.case_of_tape(&tape) };
                    let path = write_replay(&prop, &name, &case, "no result within the time limit");
                    println!("{name}: no result after {} s", hang / 1000);
                    println!("VIOLATION property={prop} replay={path}");
                    let cx = ctx(&prop);
                    write_evidence(&cx, &[], json!({"note": "hang"}), hang as f64 / 1000.0, 1);
                    std::process::exit(1);
                }
            }
        });
    }
    #[cfg(feature = "guided")]
    if let Ok(w) = std::env::var("EDCHECK_WORKER") {
        let f: Vec<&str> = w.splitn(3, '/').collect();
        return crate::guided::worker(&cx, &names, f[0].parse().unwrap_or(0), f[1].parse().unwrap_or(1), &format!("/{}", f[2].trim_start_matches('/')));
    }
    let mut reports = vec![];
    let mut bad = 0;
    for c in names.iter() {
        if only.as_ref().map_or(false, |o| o != c.name()) {
            continue;
        }
        let r = c.run(&cx);
        println!(
            "{prop} {}{}: {} cases ({} fixed), {} distinct non-trivial, {:.1} s{}",
            r.name,
            if plain_pass() { " (release build)" } else { "" },
            r.evaluations,
            r.fixed,
            r.distinct_nontrivial,
            r.wall,
            if r.cut_short { " (stopped by deadline)" } else { "" }
        );
        if let Some((case, why)) = &r.failure {
            bad += 1;
            let path = write_replay(prop, &r.name, case, why);
            println!("{}: {}", r.name, why.chars().take(1500).collect::<String>());
            println!("VIOLATION property={prop} replay={path}");
        }
        let stop = r.failure.is_some();
        reports.push(r);
        if stop {
            break;
        }
    }
    let d = crate::dict::get();
    let extra = json!({"hooked": cfg!(verif_hooks), "threads": cx.threads, "changed_source_literals": d.ints.len() + d.blobs.len(),
        "checks_not_run": if bad > 0 { names.len() - reports.len() } else { 0 }, "repo": repo_root()});
    write_evidence(&cx, &reports, extra, t0.elapsed().as_secs_f64(), bad);
    if bad > 0 {
        1
    } else {
        0
    }
}

pub fn replay_file(prop: &str, checks: Vec<Box<dyn DynCheck>>, path: &str) -> i32 {
    let v: Value = match fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    let name = v["check"].as_str().unwrap_or("");
    let Some(c) = checks.iter().find(|c| c.name() == name) else {
        eprintln!("no check {name} here");
        return 2;
    };
    silence_panics();
    match c.replay(&v["case"]) {
        Ok(()) => {
            println!("{name}: the property holds on this case");
            0
        }
        Err(e) => {
            println!("{name}: {e}");
            println!("VIOLATION property={prop} replay={path}");
            1
        }
    }
}
