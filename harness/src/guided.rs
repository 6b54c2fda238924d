//! Coverage-guided search: mutates tapes and keeps those that reach new edges, edge counts or comparison distances in
//! the library under test (instrumented through covwrap.sh). Each worker is a process with its own corpus.
use crate::dict::verif_root;
use crate::run::{hash_of, read_slots, write_replay, Ctx, DynCheck, Obs, Slot};
use crate::tape::Mix;
use serde_json::{json, Value};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

static REGIONS: [(AtomicUsize, AtomicUsize); 64] = [const { (AtomicUsize::new(0), AtomicUsize::new(0)) }; 64];
static NREGIONS: AtomicUsize = AtomicUsize::new(0);
const CMP: usize = 1 << 16;
struct Cells(UnsafeCell<[u8; CMP]>);
unsafe impl Sync for Cells {}
static CMPS: Cells = Cells(UnsafeCell::new([0; CMP]));

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(a: usize, b: usize) {
    let n = NREGIONS.load(Ordering::Relaxed);
    if a == b || n >= REGIONS.len() || REGIONS[..n].iter().any(|r| r.0.load(Ordering::Relaxed) == a) {
        return;
    }
    REGIONS[n].0.store(a, Ordering::Relaxed);
    REGIONS[n].1.store(b, Ordering::Relaxed);
    NREGIONS.store(n + 1, Ordering::Relaxed);
}
/// operands of comparisons, while LOGGING: (pc, a, b)
const LOG: usize = 1 << 15;
struct Log(UnsafeCell<Vec<(usize, u64, u64)>>);
unsafe impl Sync for Log {}
static LOGGED: Log = Log(UnsafeCell::new(Vec::new()));
static LOGGING: AtomicUsize = AtomicUsize::new(0);
fn log_it(a: u64, b: u64, pc: usize) {
    // only the thread that switched logging on
    if LOGGING.load(Ordering::Relaxed) == thread_mark() {
        let v = unsafe { &mut *LOGGED.0.get() };
        if a != b && v.len() < LOG {
            v.push((pc, a, b));
        }
    }
}
fn thread_mark() -> usize {
    thread_local!(static M: u8 = const { 0 });
    M.with(|m| m as *const u8 as usize)
}
extern "C" fn record(a: u64, b: u64, pc: usize) {
    if LOGGING.load(Ordering::Relaxed) != 0 {
        log_it(a, b, pc);
    }
    // how far apart the operands are, in differing bits
    let d = (a ^ b).count_ones() as usize;
    let i = ((pc.wrapping_mul(0x9e3779b97f4a7c15) >> 48) + d * 0x3d1) % CMP;
    unsafe { (*CMPS.0.get())[i] = 1 }
}
macro_rules! hook {
    ($n:ident, $($w:literal),*) => {
        /// passes the operands and its return address (which identifies the comparison) on
        #[unsafe(naked)]
        #[no_mangle]
        pub extern "C" fn $n() {
            core::arch::naked_asm!($($w,)* "mov rdx, [rsp]", "jmp {f}", f = sym record)
        }
    };
}
hook!(__sanitizer_cov_trace_cmp1, "movzx edi, dil", "movzx esi, sil");
hook!(__sanitizer_cov_trace_cmp2, "movzx edi, di", "movzx esi, si");
hook!(__sanitizer_cov_trace_cmp4, "mov edi, edi", "mov esi, esi");
hook!(__sanitizer_cov_trace_cmp8, "");
hook!(__sanitizer_cov_trace_const_cmp1, "movzx edi, dil", "movzx esi, sil");
hook!(__sanitizer_cov_trace_const_cmp2, "movzx edi, di", "movzx esi, si");
hook!(__sanitizer_cov_trace_const_cmp4, "mov edi, edi", "mov esi, esi");
hook!(__sanitizer_cov_trace_const_cmp8, "");
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(_v: u64, _c: *const u64) {}

fn bucket(v: u8) -> u8 {
    match v {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}
#[derive(Default)]
struct Map {
    edges: Vec<u8>,
    cmps: Vec<u8>,
    pub edge_hits: u64,
    pub features: u64,
}
impl Map {
    fn reset() {
        for r in &REGIONS[..NREGIONS.load(Ordering::Relaxed)] {
            let (a, b) = (r.0.load(Ordering::Relaxed), r.1.load(Ordering::Relaxed));
            unsafe { std::ptr::write_bytes(a as *mut u8, 0, b - a) }
        }
        unsafe { std::ptr::write_bytes(CMPS.0.get() as *mut u8, 0, CMP) }
    }
    /// number of new features of the last run: 3 per new edge, 1 per new count or distance
    fn absorb(&mut self) -> u64 {
        let mut fresh = 0;
        let mut k = 0;
        for r in &REGIONS[..NREGIONS.load(Ordering::Relaxed)] {
            let (a, b) = (r.0.load(Ordering::Relaxed), r.1.load(Ordering::Relaxed));
            let s = unsafe { std::slice::from_raw_parts(a as *const u8, b - a) };
            if self.edges.len() < k + s.len() {
                self.edges.resize(k + s.len(), 0);
            }
            for (e, v) in self.edges[k..].iter_mut().zip(s) {
                let m = bucket(*v);
                if m & !*e != 0 {
                    if *e == 0 {
                        self.edge_hits += 1;
                        fresh += 2;
                    }
                    fresh += 1;
                    self.features += 1;
                    *e |= m;
                }
            }
            k += s.len();
        }
        self.cmps.resize(CMP, 0);
        let c = unsafe { &*CMPS.0.get() };
        for (w, s) in self.cmps.chunks_mut(8).zip(c.chunks(8)) {
            if s != [0; 8] && s != &*w {
                for (x, y) in w.iter_mut().zip(s) {
                    if *y & !*x != 0 {
                        *x = 1;
                        fresh += 1;
                        self.features += 1;
                    }
                }
            }
        }
        fresh
    }
}

/// changes the part of the tape that was read
fn mutate(t: &mut [u8], other: &[u8], used: usize, m: &mut Mix) {
    let n = t.len();
    let live = used.clamp(1, n);
    let at = |m: &mut Mix| {
        // generators read the front of the tape first
        let r = m.next() as usize;
        if r & 1 == 0 {
            (r >> 8) % live.min(24)
        } else {
            (r >> 8) % live
        }
    };
    for _ in 0..1 + (m.next() % 4).pow(2) {
        let i = at(m);
        match m.next() % 11 {
            0 => t[i] ^= 1 << (m.next() % 8),
            1 => t[i] = m.next() as u8,
            2 => t[i] = t[i].wrapping_add((m.next() % 17) as u8).wrapping_sub(8),
            3 => t[i] = [0, 1, 0x7f, 0x80, 0xff, 0xfe, 0x40, 0x20][(m.next() % 8) as usize],
            4 => {
                let l = (1 + m.next() as usize % 8).min(n - i);
                m.fill(&mut t[i..i + l]);
            }
            5 => m.fill(&mut t[i..]),
            6 => {
                let j = at(m);
                let l = (1 + m.next() as usize % 64).min(n - i.max(j));
                t.copy_within(i..i + l, j);
            }
            7 => {
                let l = (1 + m.next() as usize % 128).min(n - i);
                t[i..i + l].copy_from_slice(&other[i..i + l]);
            }
            8 => t[i..].copy_from_slice(&other[i..]),
            // shift what follows by a few bytes
            9 => {
                let l = 1 + m.next() as usize % 4;
                if i + l < n {
                    t.copy_within(i..n - l, i + l)
                }
            }
            _ => {
                let l = 1 + m.next() as usize % 4;
                if i + l < n {
                    t.copy_within(i + l.., i)
                }
            }
        }
    }
}

/// input-to-state: tapes in which one operand of an unequal comparison is replaced by the other
fn replacements(tape: &[u8], used: usize, m: &mut Mix) -> Vec<Vec<u8>> {
    let log = std::mem::take(unsafe { &mut *LOGGED.0.get() });
    let mut per: BTreeMap<usize, Vec<(u64, u64)>> = BTreeMap::new();
    for (pc, a, b) in log {
        let e = per.entry(pc).or_default();
        if e.len() < 400 && !e.contains(&(a, b)) {
            e.push((a, b));
        }
    }
    let mut out = vec![];
    for (_, mut v) in per {
        // few operand pairs say more about the input than many
        while v.len() > 6 {
            let i = m.next() as usize % v.len();
            v.swap_remove(i);
        }
        for (a, b) in v {
            for (x, y) in [(a, b), (b, a)] {
                let top = x.max(y);
                let w = if top > u32::MAX as u64 { 8 } else if top > 0xffff { 4 } else if top > 0xff { 2 } else { 1 };
                for be in [false, true] {
                    let enc = |v: u64| -> Vec<u8> {
                        let mut o = v.to_le_bytes()[..w].to_vec();
                        if be {
                            o.reverse()
                        }
                        o
                    };
                    if w == 1 && be {
                        continue;
                    }
                    let (fx, fy) = (enc(x), enc(y));
                    let hits: Vec<usize> = (0..used.saturating_sub(w - 1)).filter(|i| tape[*i..*i + w] == fx[..]).collect();
                    let mut used = 0;
                    for i in hits {
                        if used == 6 {
                            break;
                        }
                        used += 1;
                        let mut t = tape.to_vec();
                        t[i..i + w].copy_from_slice(&fy);
                        out.push(t);
                    }
                }
            }
        }
    }
    // in random order, not too many
    for i in (1..out.len()).rev() {
        out.swap(i, (m.next() % (i as u64 + 1)) as usize);
    }
    out.truncate(96);
    out
}

fn shrink(c: &dyn DynCheck, tape: Vec<u8>, fail: (Value, String)) -> (Value, String) {
    let until = Instant::now() + Duration::from_secs(25);
    let (mut best, mut why) = (tape, fail);
    let mut try_it = |t: &Vec<u8>, best: &mut Vec<u8>| -> bool {
        if t == best || Instant::now() > until {
            return false;
        }
        if let Err(e) = c.fuzz_one(t, &mut Obs::default(), None) {
            *best = t.clone();
            why = e;
            return true;
        }
        false
    };
    loop {
        let mut progress = false;
        let mut size = best.len();
        while size > 0 {
            let mut i = 0;
            while i < best.len() {
                let mut t = best.clone();
                let e = (i + size).min(t.len());
                t[i..e].fill(0);
                progress |= try_it(&t, &mut best);
                i += size;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            while best[i] > 0 {
                let mut t = best.clone();
                t[i] /= 2;
                if !try_it(&t, &mut best) {
                    break;
                }
                progress = true;
            }
        }
        if !progress || Instant::now() > until {
            return why;
        }
    }
}

/// one worker: all checks of the property, each for its share of cases
pub fn worker(cx: &Ctx, checks: &[Box<dyn DynCheck>], id: u64, workers: u64, out: &str) -> i32 {
    let slot = Slot::open(cx, id as usize);
    let mut reports = vec![];
    let mut code = 0;
    for c in checks.iter().filter(|c| c.guidable()) {
        let total = c.cases(cx) / workers;
        let n = c.tape_len();
        let mut m = Mix(cx.seed ^ hash_of(c.name()) ^ (id + 1).wrapping_mul(0xd1342543de82ef95));
        let mut map = Map::default();
        let mut corpus: Vec<(Vec<u8>, usize)> = vec![];
        let mut seen: HashSet<u64> = HashSet::new();
        let (mut runs, mut repeats, mut nontrivial) = (0u64, 0u64, 0u64);
        let mut cut = false;
        let mut failure = Value::Null;
        let mut todo: Vec<Vec<u8>> = vec![];
        let mut hot: Vec<usize> = vec![];
        while runs < total && repeats < 10 * total + 1000 {
            if Instant::now() > cx.deadline {
                cut = true;
                break;
            }
            let mut t = m.vec(n);
            if let (Some(x), true) = (todo.pop(), m.next() % 3 != 0) {
                t = x;
            } else if corpus.len() >= 4 && m.next() % 6 != 0 {
                let k = corpus.len() as u64;
                // finds of new edges and recent finds more often
                let i = match m.next() % 3 {
                    0 => k - 1 - m.next() % k.min(24),
                    1 if !hot.is_empty() => hot[hot.len() - 1 - m.next() as usize % hot.len().min(24)] as u64,
                    _ => m.next() % k,
                };
                let j = m.next() % k;
                let (x, used) = &corpus[i as usize];
                t = x.clone();
                mutate(&mut t, &corpus[j as usize].0, *used, &mut m);
            }
            slot.set(c.name(), &t, -1);
            let mut o = Obs::default();
            Map::reset();
            LOGGING.store(thread_mark(), Ordering::Relaxed);
            let r = c.fuzz_one(&t, &mut o, Some(&mut seen));
            LOGGING.store(0, Ordering::Relaxed);
            let fresh = map.absorb();
            slot.clear();
            runs += 1;
            let used;
            match r {
                Ok(None) => {
                    runs -= 1;
                    repeats += 1;
                    continue;
                }
                Ok(Some(u)) => {
                    used = u;
                    nontrivial += u64::from(o.nontrivial);
                }
                Err(f) => {
                    let (case, why) = shrink(c.as_ref(), t, f);
                    failure = json!({"case": case, "why": why});
                    code = 1;
                    break;
                }
            }
            if fresh > 0 && corpus.len() < 20_000 {
                if fresh >= 3 {
                    hot.push(corpus.len());
                }
                if todo.len() < 2000 {
                    todo.extend(replacements(&t, used, &mut m));
                }
                corpus.push((t, used));
            }
            unsafe { (*LOGGED.0.get()).clear() }
        }
        reports.push(json!({"check": c.name(), "evaluations": runs, "distinct_nontrivial": nontrivial, "corpus": corpus.len(),
            "edges": map.edge_hits, "edges_total": map.edges.len(), "features": map.features, "stopped_by_deadline": cut, "failure": failure}));
        if code != 0 {
            break;
        }
    }
    let tmp = format!("{out}.tmp");
    let _ = fs::write(&tmp, serde_json::to_string(&reports).unwrap());
    let _ = fs::rename(&tmp, out);
    code
}

/// starts the workers, gathers what they found, adds it to the evidence
pub fn supervise(cx: &Ctx, checks: &[Box<dyn DynCheck>]) -> i32 {
    let t0 = Instant::now();
    let scratch = std::env::temp_dir().join(format!("edcheck-guided-{}-{}", cx.prop, std::process::id()));
    let _ = fs::create_dir_all(&scratch);
    let path = |s: &str, i: usize| scratch.join(format!("{s}{i}")).to_str().unwrap().to_string();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for i in 0..cx.threads {
        match std::process::Command::new(&exe)
            .arg(&cx.prop)
            .env("EDCHECK_CHILD", "1")
            .env("EDCHECK_WORKER", format!("{i}/{}/{}", cx.threads, path("out", i)))
            .env("EDCHECK_SLOTS", path("slots", i))
            .spawn()
        {
            Ok(k) => kids.push((i, k)),
            Err(e) => {
                eprintln!("cannot start a search process: {e}");
                return 3;
            }
        }
    }
    let mut sums: BTreeMap<String, BTreeMap<&str, u64>> = BTreeMap::new();
    let mut code = 0;
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(50));
        let mut rest = vec![];
        for (i, mut k) in std::mem::take(&mut kids) {
            let Some(st) = k.try_wait().unwrap_or(None) else {
                rest.push((i, k));
                continue;
            };
            let reps: Vec<Value> = fs::read_to_string(path("out", i)).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
            for r in &reps {
                let e = sums.entry(r["check"].as_str().unwrap_or("").to_string()).or_default();
                for f in ["evaluations", "distinct_nontrivial", "corpus"] {
                    *e.entry(f).or_default() += r[f].as_u64().unwrap_or(0);
                }
                for f in ["edges", "edges_total", "features"] {
                    let x = e.entry(f).or_default();
                    *x = (*x).max(r[f].as_u64().unwrap_or(0));
                }
                if code == 0 && r["failure"].is_object() {
                    let (name, why) = (r["check"].as_str().unwrap_or(""), r["failure"]["why"].as_str().unwrap_or(""));
                    let p = write_replay(&cx.prop, name, &r["failure"]["case"], why);
                    println!("{name}: {}", why.chars().take(1500).collect::<String>());
                    println!("VIOLATION property={} replay={p}", cx.prop);
                    code = 1;
                }
            }
            if code == 0 && reps.is_empty() {
                match st.code() {
                    // a hang, reported by the worker itself
                    Some(1) => code = 1,
                    Some(c) => code = if c == 0 { 3 } else { c },
                    None => {
                        code = 3;
                        eprintln!("search process died: {st:?}");
                        for (_, name, tape, _) in read_slots(&path("slots", i)) {
                            let Some(c) = checks.iter().find(|c| c.name() == name) else { continue };
                            let why = format!("the process died ({st}) while running this case");
                            let p = write_replay(&cx.prop, &name, &c.case_of_tape(&tape), &why);
                            let r = std::process::Command::new(&exe).args([cx.prop.as_str(), "replay", &p]).stdout(std::process::Stdio::null()).status();
                            if r.map(|r| r.code() != Some(0)).unwrap_or(false) {
                                println!("{why}");
                                println!("VIOLATION property={} replay={p}", cx.prop);
                                code = 1;
                                break;
                            }
                            let _ = fs::remove_file(&p);
                        }
                    }
                }
            }
        }
        kids = rest;
        if code != 0 {
            for (_, k) in kids.iter_mut() {
                let _ = k.kill();
                let _ = k.wait();
            }
            kids.clear();
        }
    }
    let _ = fs::remove_dir_all(&scratch);
    for (n, s) in &sums {
        println!(
            "{} {n} (coverage-guided): {} cases, {} distinct non-trivial, {} of {} edges, corpus {}, {:.1} s",
            cx.prop,
            s["evaluations"],
            s["distinct_nontrivial"],
            s["edges"],
            s["edges_total"],
            s["corpus"],
            t0.elapsed().as_secs_f64()
        );
    }
    // add to what the earlier passes wrote
    let ev = format!("{}/evidence/{}.json", verif_root(), cx.prop);
    if let Some(mut old) = fs::read_to_string(&ev).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
        if old["property"] == cx.prop.as_str() {
            for k in ["evaluations", "distinct_nontrivial"] {
                let add: u64 = sums.values().map(|s| s[k]).sum();
                old["coverage"][k] = json!(old["coverage"][k].as_u64().unwrap_or(0) + add);
            }
            old["coverage"]["extra"]["coverage_guided_pass"] = json!({"checks": sums, "seed": cx.seed, "wall_s": t0.elapsed().as_secs_f64().round()});
            old["wall_s"] = json!(old["wall_s"].as_f64().unwrap_or(0.0) + t0.elapsed().as_secs_f64().round());
            if code == 1 {
                old["violations"] = json!(old["violations"].as_u64().unwrap_or(0) + 1);
            }
            let _ = fs::write(format!("{ev}.tmp"), serde_json::to_string_pretty(&old).unwrap());
            let _ = fs::rename(format!("{ev}.tmp"), &ev);
        }
    }
    code
}
