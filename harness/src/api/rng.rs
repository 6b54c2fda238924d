//! C13 key generation.
use super::keys::Mock;
use super::{guard, hx};
use crate::gen::{Msg, B};
use crate::run::{Check, Obs};
use crate::tape::{Mix, Tape};
use libgoldilocks::goldilocks as g;
use libgoldilocks::SigningKey;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

pub struct Source;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SrcCase {
    pub stream: Msg,
    pub keys: usize,
}
impl Check for Source {
    type Case = SrcCase;
    fn name(&self) -> &'static str {
        "source"
    }
    fn rule(&self) -> &'static str {
        "byte streams served by a recording random source; 1..6 keys drawn in a row must be consecutive 57-byte pieces; non-trivial: the stream is not constant"
    }
    fn tape_len(&self) -> usize {
        64
    }
    fn budget(&self) -> (u64, u64) {
        (240_000, 1_920_000)
    }
    fn fixed(&self) -> Vec<SrcCase> {
        let mut v = vec![];
        for b in 0..=255u8 {
            v.push(SrcCase { stream: Msg { len: 400, pat: B(vec![b]), seed: 0, put: vec![] }, keys: 2 });
        }
        for p in 0..57 {
            for x in [1u8, 0x80, 0xff] {
                v.push(SrcCase { stream: Msg { len: 400, pat: B(vec![0]), seed: 0, put: vec![(p, B(vec![x]))] }, keys: 2 });
            }
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> SrcCase {
        let mut m = Msg { len: 500, pat: B(vec![]), seed: t.u64(), put: vec![] };
        match t.below(6) {
            0 => m.pat = B(vec![t.u8()]),
            1 => {
                let n = 1 + t.below(12);
                m.pat = B(t.bytes(n))
            }
            _ => {}
        }
        for _ in 0..t.below(4) {
            let p = t.below(180);
            let n = 1 + t.below(6);
            let b = if t.chance(1, 2) { vec![t.pick(&[0u8, 0xff, 0x80, 0x7f]); n] } else { t.bytes(n) };
            m.put.push((p, B(b)));
        }
        if t.chance(1, 4) {
            let mut b = m.bytes();
            crate::gen::inject(t, &mut b[..57]);
            m.put.push((0, B(b[..57].to_vec())));
        }
        SrcCase { stream: m, keys: 1 + t.below(5) }
    }
    fn test(&self, c: &SrcCase, o: &mut Obs) -> Result<(), String> {
        let d = c.stream.bytes();
        if d.iter().any(|b| *b != d[0]) {
            o.hit();
        }
        let mut r = Mock { data: &d, pos: 0 };
        for i in 0..c.keys {
            let k = guard(|| SigningKey::random(&mut r)).map_err(|p| format!("SigningKey::random panicked: {p}"))?;
            let want = &d[57 * i..57 * (i + 1)];
            if k.to_bytes() != want {
                return Err(format!("key {i} drawn from the source is {} but the source yielded {}", hx(&k.to_bytes()), hx(want)));
            }
            if r.pos != 57 * (i + 1) {
                return Err(format!("key {i}: {} bytes consumed in total instead of {}", r.pos, 57 * (i + 1)));
            }
        }
        Ok(())
    }
}

pub fn genkeys_child(n: usize) {
    // keys of the main thread, then the first keys of fresh threads
    for _ in 0..n {
        println!("{}", hx(&g::ed448_generate_key()));
    }
    for _ in 0..4 {
        let v = std::thread::spawn(move || (0..n).map(|_| g::ed448_generate_key()).collect::<Vec<_>>()).join().unwrap();
        for k in v {
            println!("{}", hx(&k));
        }
    }
}

pub struct Generator;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GenCase {
    pub what: String,
    pub threads: usize,
    pub per_thread: usize,
}
fn big(x: &[u8; 57]) -> u128 {
    // fingerprint over the whole key
    let mut h: u128 = 0x6c62272e07bb014262b821756295c58d;
    for c in x.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w) as u128).wrapping_mul(0x0000000001000000000000000000013b);
        h ^= h >> 61;
    }
    h
}
fn draw(threads: usize, per: usize) -> Vec<Vec<[u8; 57]>> {
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|_| s.spawn(move || (0..per).map(|_| g::ed448_generate_key()).collect::<Vec<_>>())).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}
/// rank over GF(2)
fn rank(rows: impl Iterator<Item = Vec<u8>>) -> usize {
    let mut basis: Vec<Option<Vec<u8>>> = vec![];
    let mut n = 0;
    for mut r in rows {
        basis.resize(r.len() * 8, None);
        for b in 0..r.len() * 8 {
            if r[b / 8] >> (b % 8) & 1 == 0 {
                continue;
            }
            match &basis[b] {
                Some(v) => r.iter_mut().zip(v).for_each(|(x, y)| *x ^= y),
                None => {
                    basis[b] = Some(r);
                    n += 1;
                    break;
                }
            }
        }
    }
    n
}
/// deviation of a fair-coin count in standard deviations
fn sigma(ones: u64, n: u64) -> f64 {
    (2.0 * ones as f64 - n as f64).abs() / (n as f64).sqrt()
}
/// Whole-key features: name and value of each. Their distributions are compared with those of an independent sample.
fn features(k: &[u8; 57], prev: Option<&[u8; 57]>, out: &mut Vec<u8>) {
    out.clear();
    let cap = |x: usize| x.min(255) as u8;
    out.push((k.iter().map(|b| b.count_ones()).sum::<u32>() as i32 - 100).clamp(0, 255) as u8);
    let mut seen = [false; 256];
    k.iter().for_each(|b| seen[*b as usize] = true);
    out.push(seen.iter().filter(|x| **x).count() as u8);
    out.push(*k.iter().min().unwrap());
    out.push(*k.iter().max().unwrap());
    let bit = |i: usize| k[i / 8] >> (i % 8) & 1;
    let (mut run, mut best, mut turns) = (1, 1, 0usize);
    for i in 1..456 {
        if bit(i) == bit(i - 1) {
            run += 1;
            best = best.max(run);
        } else {
            run = 1;
            turns += 1;
        }
    }
    out.push(cap(best));
    out.push((turns as i32 - 100).clamp(0, 255) as u8);
    out.push(k.windows(2).filter(|w| w[0] == w[1]).count() as u8);
    out.push(k.windows(2).filter(|w| w[0] < w[1]).count() as u8);
    out.push(k.windows(3).filter(|w| w[0] == w[2]).count() as u8);
    out.push(k.iter().filter(|b| (0x20..0x7f).contains(*b)).count() as u8);
    out.push(k.iter().filter(|b| **b == 0).count() as u8);
    out.push(k.iter().filter(|b| **b == 255).count() as u8);
    out.push(k.iter().filter(|b| **b >= 0x80).count() as u8);
    out.push((0..57).filter(|i| k[*i] == *i as u8).count() as u8);
    out.push((0..28).filter(|i| k[*i] == k[56 - *i]).count() as u8);
    out.push((0..57).find(|i| k[*i] != 0).unwrap_or(57) as u8);
    out.push(k.iter().zip(1usize..).map(|(b, w)| *b as usize * w).sum::<usize>() as u8);
    for m in [3usize, 7, 10, 11, 97, 251, 255] {
        // the key as a number, little- and big-endian
        out.push(k.iter().rev().fold(0usize, |a, b| (a * 256 + *b as usize) % m) as u8);
        out.push(k.iter().fold(0usize, |a, b| (a * 256 + *b as usize) % m) as u8);
    }
    // running checksums of the first 56 bytes against the last, and of the last 56 against the first
    for (body, at) in [(&k[..56], k[56]), (&k[1..], k[0])] {
        let mut put = |c: u32| {
            for x in [c as u8, (c >> 8) as u8, (c >> 16) as u8, (c >> 24) as u8] {
                out.push(x.wrapping_sub(at));
                out.push(x ^ at);
            }
        };
        let mut acc8 = [0u8; 14];
        for b in body {
            for r in 0..7 {
                acc8[r] = acc8[r].rotate_left(r as u32 + 1).wrapping_add(*b);
                acc8[7 + r] = acc8[7 + r].wrapping_add(*b).rotate_left(r as u32 + 1);
            }
        }
        for q in acc8.chunks(4) {
            let mut w = [0u8; 4];
            w[..q.len()].copy_from_slice(q);
            put(u32::from_le_bytes(w));
        }
        put(body.iter().fold(5381u32, |h, b| h.wrapping_mul(33).wrapping_add(*b as u32)));
        put(body.iter().fold(0u32, |h, b| h.wrapping_mul(31).wrapping_add(*b as u32)));
        put(body.iter().fold(0x811c9dc5u32, |h, b| (h ^ *b as u32).wrapping_mul(16777619)));
        put(body.iter().fold((1u32, 0u32), |(a, s), b| ((a + *b as u32) % 65521, (s + (a + *b as u32) % 65521) % 65521)).1);
        put(body.iter().fold((0u32, 0u32), |(a, s), b| ((a + *b as u32) % 255, (s + (a + *b as u32) % 255) % 255)).1);
        put(body.iter().map(|b| *b as u32).sum::<u32>() % 255);
        put(body.iter().fold(0, |a: u32, b| a + b.count_ones()));
        put(body.iter().fold(1, |a: u8, b| a.wrapping_mul(*b | 1)) as u32);
        put(*body.iter().min().unwrap() as u32 | (*body.iter().max().unwrap() as u32) << 8);
    }
    // against the key before
    if let Some(q) = prev {
        out.push(k.iter().zip(q).filter(|(a, b)| a == b).count() as u8);
        out.push((k.iter().zip(q).map(|(a, b)| (a ^ b).count_ones()).sum::<u32>() as i32 - 100).clamp(0, 255) as u8);
        out.push((k < q) as u8);
        out.push((k.iter().rev().lt(q.iter().rev())) as u8);
        out.push(k.iter().filter(|b| q.contains(b)).count() as u8);
    }
}
type Hist = Vec<[u64; 256]>;
fn feature_hist(keys: &[Vec<[u8; 57]>]) -> Hist {
    let parts: Vec<Hist> = std::thread::scope(|s| {
        let hs: Vec<_> = keys
            .iter()
            .flat_map(|t| t.chunks(t.len() / 8 + 2))
            .map(|t| {
                s.spawn(move || {
                    let mut h: Hist = vec![];
                    let mut f = vec![];
                    for w in t.windows(2) {
                        features(&w[1], Some(&w[0]), &mut f);
                        h.resize(f.len(), [0; 256]);
                        f.iter().zip(&mut h).for_each(|(x, h)| h[*x as usize] += 1);
                    }
                    h
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut sum: Hist = vec![[0; 256]; parts[0].len()];
    for p in &parts {
        for (a, b) in sum.iter_mut().zip(p) {
            a.iter_mut().zip(b).for_each(|(x, y)| *x += y);
        }
    }
    sum
}
/// Two-sample chi-square over cells merged to at least 100 counts; how far beyond a threshold that chance passes with
/// probability below 1e-12.
fn excess(a: &[u64; 256], b: &[u64; 256]) -> f64 {
    let (na, nb) = (a.iter().sum::<u64>() as f64, b.iter().sum::<u64>() as f64);
    let mut cells: Vec<(f64, f64)> = vec![];
    let mut open = (0.0, 0.0);
    for i in 0..256 {
        open.0 += a[i] as f64;
        open.1 += b[i] as f64;
        if open.0 + open.1 >= 200.0 {
            cells.push(open);
            open = (0.0, 0.0);
        }
    }
    match cells.last_mut() {
        Some(l) => {
            l.0 += open.0;
            l.1 += open.1;
        }
        None => return -1.0,
    }
    let (ra, rb) = ((nb / na).sqrt(), (na / nb).sqrt());
    let chi: f64 = cells.iter().map(|(x, y)| (x * ra - y * rb).powi(2) / (x + y)).sum();
    let df = cells.len() as f64 - 1.0;
    chi - (df + 14.0 * (2.0 * df).sqrt() + 60.0)
}
impl Check for Generator {
    type Case = GenCase;
    fn name(&self) -> &'static str {
        "generator"
    }
    fn rule(&self) -> &'static str {
        "keys from ed448_generate_key in several threads and processes: repeats, per-bit bias, correlation of all bit pairs within a key and between consecutive keys (10 sigma), byte and byte-pair distributions (14 sigma), linear dependence over GF(2), distributions of whole-key features (weights, runs, orders, checksums) against an independent sample, shared 8-byte fragments, keys drawn between other calls; each case counts as one, its keys are counted in the classes"
    }
    fn tape_len(&self) -> usize {
        8
    }
    fn serial(&self) -> bool {
        true
    }
    fn budget(&self) -> (u64, u64) {
        (0, 0)
    }
    fn fixed(&self) -> Vec<GenCase> {
        let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
        let f = if thorough { 8 } else { 1 };
        let c = |what: &str, threads, per_thread| GenCase { what: what.into(), threads, per_thread };
        vec![c("statistics", 8, 60_000 * f), c("fragments", 8, 6_000), c("repeats", 8, 1_000_000 * f), c("threads", 400 * f, 3), c("processes", 40 * f, 3), c("statistics", 1, 100_000), c("linear", 1, 3_000), c("linear", 8, 3_000), c("features", 8, 80_000 * f), c("features", 1, 100_000), c("mixed", 8, 300 * f)]
    }
    fn gen(&self, _t: &mut Tape) -> GenCase {
        GenCase { what: "repeats".into(), threads: 2, per_thread: 1000 }
    }
    fn test(&self, c: &GenCase, o: &mut Obs) -> Result<(), String> {
        o.hit();
        match c.what.as_str() {
            "repeats" => {
                let mut v: Vec<u128> = vec![];
                for t in draw(c.threads, c.per_thread) {
                    v.extend(t.iter().map(big));
                }
                o.class(format!("{} keys compared for repeats", v.len()));
                v.sort_unstable();
                if v.windows(2).any(|w| w[0] == w[1]) {
                    return Err(format!("generated keys repeat among {} keys of {} threads", v.len(), c.threads));
                }
                Ok(())
            }
            "threads" => {
                let mut m: HashMap<[u8; 57], usize> = HashMap::new();
                for (i, t) in draw(c.threads, c.per_thread).into_iter().enumerate() {
                    for k in t {
                        if let Some(j) = m.insert(k, i) {
                            return Err(format!("threads {j} and {i} generated the same key {}", hx(&k)));
                        }
                    }
                }
                o.class(format!("first keys of {} threads", c.threads));
                Ok(())
            }
            "processes" => {
                let exe = std::env::current_exe().map_err(|e| e.to_string())?;
                let mut m: HashMap<String, usize> = HashMap::new();
                for i in 0..c.threads {
                    let out = std::process::Command::new(&exe).args(["genkeys", &c.per_thread.to_string()]).output().map_err(|e| e.to_string())?;
                    let t = String::from_utf8_lossy(&out.stdout).to_string();
                    if t.lines().count() != 5 * c.per_thread {
                        return Err(format!("key generation failed in a fresh process: {} keys, {:?}", t.lines().count(), out.status));
                    }
                    for l in t.lines() {
                        if let Some(j) = m.insert(l.into(), i) {
                            return Err(format!("process runs {j} and {i} generated the same key {l}"));
                        }
                    }
                }
                o.class(format!("first keys of {} processes", c.threads));
                Ok(())
            }
            "linear" => {
                // no XOR of bits of a key, or of a key and its successor, is constant
                for t in draw(c.threads, c.per_thread) {
                    for (what, rows) in [
                        ("a key", t.iter().map(|k| k.to_vec()).collect::<Vec<_>>()),
                        ("a key and its successor", t.windows(2).map(|w| [w[0], w[1]].concat()).collect()),
                    ] {
                        let want = rows[0].len() * 8 + 1;
                        let got = rank(rows.into_iter().map(|mut r| {
                            r.push(1);
                            r
                        }));
                        if got != want {
                            return Err(format!("the bits of {what} are linearly dependent: rank {got} instead of {want} over {} generated keys", t.len()));
                        }
                    }
                }
                o.class(format!("linear dependence over {} keys", c.threads * c.per_thread));
                Ok(())
            }
            "features" => {
                let keys = draw(c.threads, c.per_thread);
                let mut m = Mix(0x9e37_79b9 ^ c.threads as u64);
                let other: Vec<Vec<[u8; 57]>> = keys
                    .iter()
                    .map(|t| {
                        t.iter()
                            .map(|_| {
                                let mut k = [0u8; 57];
                                k.chunks_mut(8).for_each(|w| w.copy_from_slice(&m.next().to_le_bytes()[..w.len()]));
                                k
                            })
                            .collect()
                    })
                    .collect();
                let (a, b) = (feature_hist(&keys), feature_hist(&other));
                o.class(format!("{} features of {} keys", a.len(), c.threads * c.per_thread));
                for i in 0..a.len() {
                    if excess(&a[i], &b[i]) > 0.0 {
                        return Err(format!("feature {i} of generated keys is not distributed as in uniform keys: {:?} against {:?}", &a[i][..], &b[i][..]));
                    }
                }
                // values and differences of all pairs of bytes, within a key and with the key before
                let worst = std::thread::scope(|s| {
                    let keys = &keys;
                    let hs: Vec<_> = (0..8usize)
                        .map(|w| {
                            s.spawn(move || {
                                let mut worst = (-1e9f64, 0, 0, "");
                                for x in (w..57).step_by(8) {
                                    for y in 0..57 {
                                        let (mut same, mut next, mut sum) = ([0u64; 256], [0u64; 256], [0u64; 256]);
                                        for t in keys {
                                            for q in t.windows(2) {
                                                same[(q[1][x] ^ q[1][y]) as usize] += 1;
                                                sum[q[1][x].wrapping_add(q[1][y]) as usize] += 1;
                                                next[(q[1][x] ^ q[0][y]) as usize] += 1;
                                            }
                                        }
                                        for (h, what) in [(&same, "XOR"), (&sum, "sum"), (&next, "XOR with the key before")] {
                                            if x == y && what != "XOR with the key before" {
                                                continue;
                                            }
                                            let n = h.iter().sum::<u64>() as f64 / 256.0;
                                            let chi: f64 = h.iter().map(|v| (*v as f64 - n).powi(2) / n).sum();
                                            let z = (chi - 255.0) / 510f64.sqrt();
                                            if z > worst.0 {
                                                worst = (z, x, y, what);
                                            }
                                        }
                                    }
                                }
                                worst
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).max_by(|x, y| x.0.total_cmp(&y.0)).unwrap()
                });
                if worst.0 > 14.0 {
                    return Err(format!("bytes {} and {} of generated keys: {} not uniform, chi-square {:.1} sigma", worst.1, worst.2, worst.3, worst.0));
                }
                Ok(())
            }
            "mixed" => {
                // keys drawn between other calls, failing and panicking ones included
                let all: Vec<Vec<[u8; 57]>> = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..c.threads)
                        .map(|w| {
                            s.spawn(move || {
                                let mut m = Mix(w as u64);
                                let mut out: Vec<[u8; 57]> = vec![];
                                let mut k = [7u8; 57];
                                while out.len() < c.per_thread {
                                    let r = m.next();
                                    match r % 8 {
                                        0 => drop(guard(|| g::ed448_sign(&k, b"m"))),
                                        1 => drop(guard(|| g::ed448_derive_public(&k))),
                                        2 => drop(guard(|| g::ed448_verify(&k, &[1u8; 114], b"m"))),
                                        3 => drop(guard(|| SigningKey::from_bytes(&k[..(r >> 8) as usize % 58]).is_ok())),
                                        4 => drop(guard(|| SigningKey::from_slice(&k[..56]).to_bytes())),
                                        5 => drop(guard(|| SigningKey::random(&mut Mock { data: &[5; 57], pos: 0 }).to_bytes())),
                                        6 => drop(guard(|| SigningKey::random(&mut Mock { data: &[5; 3], pos: 0 }).to_bytes())),
                                        _ => {
                                            if let Ok(x) = guard(|| g::ed448_sign(&g::ed448_generate_key(), b"m")) {
                                                k.copy_from_slice(&x[..57]);
                                            }
                                        }
                                    }
                                    for _ in 0..1 + r % 3 {
                                        k = g::ed448_generate_key();
                                        out.push(k);
                                    }
                                }
                                out
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                let keys: Vec<[u8; 57]> = all.into_iter().flatten().collect();
                o.class(format!("{} keys drawn between other calls", keys.len()));
                let mut m: HashMap<&[u8], usize> = HashMap::new();
                for (i, k) in keys.iter().enumerate() {
                    for p in 0..=49 {
                        if let Some(j) = m.insert(&k[p..p + 8], i) {
                            return Err(format!("keys {j} and {i}, drawn between other calls, share 8 bytes: {} and {}", hx(&keys[j]), hx(k)));
                        }
                    }
                }
                for b in 0..456 {
                    let ones = keys.iter().filter(|k| k[b / 8] >> (b % 8) & 1 == 1).count() as u64;
                    if sigma(ones, keys.len() as u64) > 9.0 {
                        return Err(format!("bit {b} of keys generated between other calls is biased: set in {ones} of {}", keys.len()));
                    }
                }
                Ok(())
            }
            "fragments" => {
                let mut v: Vec<(u64, u32, u8)> = vec![];
                let mut id = 0u32;
                for t in draw(c.threads, c.per_thread) {
                    for k in t {
                        for p in 0..=49 {
                            v.push((u64::from_le_bytes(k[p..p + 8].try_into().unwrap()), id, p as u8));
                        }
                        id += 1;
                    }
                }
                v.sort_unstable();
                for w in v.windows(2) {
                    if w[0].0 == w[1].0 {
                        return Err(format!("keys {} and {} share the 8 bytes {:016x} at offsets {} and {}", w[0].1, w[1].1, w[0].0, w[0].2, w[1].2));
                    }
                }
                o.class(format!("{} 8-byte fragments compared", v.len()));
                Ok(())
            }
            _ => {
                let all = draw(c.threads, c.per_thread);
                let keys: Vec<[u8; 57]> = all.into_iter().flatten().collect();
                let n = keys.len();
                let words = (n + 63) / 64;
                // bit-sliced: col[b] = bit b of every key
                let mut col = vec![vec![0u64; words]; 456];
                for (i, k) in keys.iter().enumerate() {
                    for b in 0..456 {
                        if k[b / 8] >> (b % 8) & 1 == 1 {
                            col[b][i / 64] |= 1 << (i % 64);
                        }
                    }
                }
                o.class(format!("{n} keys in bit statistics"));
                for b in 0..456 {
                    let ones: u64 = col[b].iter().map(|w| w.count_ones() as u64).sum();
                    if sigma(ones, n as u64) > 9.0 {
                        return Err(format!("bit {b} of generated keys is biased: set in {ones} of {n} keys"));
                    }
                }
                let mut worst = (0.0f64, 0, 0, "");
                // all pairs within a key, and between a key and its successor
                let shift: Vec<Vec<u64>> = col
                    .iter()
                    .map(|c| (0..words).map(|i| c[i] >> 1 | if i + 1 < words { c[i + 1] << 63 } else { 0 }).collect())
                    .collect();
                let res: Vec<(f64, usize, usize, &str)> = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..8)
                        .map(|w| {
                            let (col, shift) = (&col, &shift);
                            s.spawn(move || {
                                let mut worst = (0.0f64, 0, 0, "");
                                for a in (w..456).step_by(8) {
                                    for b in 0..456 {
                                        if b > a {
                                            let d: u64 = col[a].iter().zip(&col[b]).map(|(x, y)| (x ^ y).count_ones() as u64).sum();
                                            let z = sigma(d, n as u64);
                                            if z > worst.0 {
                                                worst = (z, a, b, "same key")
                                            }
                                        }
                                        let mut d: u64 = col[b].iter().zip(&shift[a]).map(|(x, y)| (x ^ y).count_ones() as u64).sum();
                                        // the last key has no successor
                                        let last = n - 1;
                                        d -= (col[b][last / 64] >> (last % 64) & 1) ^ (shift[a][last / 64] >> (last % 64) & 1);
                                        let z = sigma(d, n as u64 - 1);
                                        if z > worst.0 {
                                            worst = (z, b, a, "next key")
                                        }
                                    }
                                }
                                worst
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                for r in res {
                    if r.0 > worst.0 {
                        worst = r
                    }
                }
                if worst.0 > 10.0 {
                    return Err(format!("bits {} and {} ({}) of generated keys are correlated: {:.1} sigma over {n} keys", worst.1, worst.2, worst.3, worst.0));
                }
                // joint distribution of every pair of bytes
                let keys = &keys;
                let pair: Option<(f64, usize, usize)> = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..8usize)
                        .map(|w| {
                            s.spawn(move || {
                                let mut worst: Option<(f64, usize, usize)> = None;
                                let mut h = vec![0u32; 65536];
                                for a in (w..57).step_by(8) {
                                    for b in 0..a {
                                        h.fill(0);
                                        for k in keys {
                                            h[(k[a] as usize) << 8 | k[b] as usize] += 1;
                                        }
                                        let e = n as f64 / 65536.0;
                                        let chi: f64 = h.iter().map(|x| (*x as f64 - e).powi(2) / e).sum();
                                        let z = (chi - 65535.0) / (2.0 * 65535.0f64).sqrt();
                                        if worst.map_or(true, |x| z > x.0) {
                                            worst = Some((z, a, b));
                                        }
                                    }
                                }
                                worst
                            })
                        })
                        .collect();
                    hs.into_iter().filter_map(|h| h.join().unwrap()).max_by(|x, y| x.0.total_cmp(&y.0))
                });
                if let Some((z, a, b)) = pair {
                    if z > 14.0 {
                        return Err(format!("bytes {b} and {a} of generated keys depend on each other: chi-square {z:.1} sigma over {n} keys"));
                    }
                }
                for p in 0..57 {
                    let mut h = [0u64; 256];
                    for k in keys {
                        h[k[p] as usize] += 1;
                    }
                    let e = n as f64 / 256.0;
                    let chi: f64 = h.iter().map(|x| (*x as f64 - e).powi(2) / e).sum();
                    if (chi - 255.0) / (2.0 * 255.0f64).sqrt() > 14.0 {
                        return Err(format!("byte {p} of generated keys is not uniform: chi-square {chi:.0} with 255 degrees of freedom over {n} keys"));
                    }
                }
                Ok(())
            }
        }
    }
}
