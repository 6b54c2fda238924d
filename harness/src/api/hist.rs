//! C14 purity: call histories, sequential and concurrent, each in a fresh process. The oracle is what the same
//! call returns alone in a fresh process; the reference is only a fast first comparison.
use super::keys::{build, Mock};
use super::verify::{verify, Out};
use super::{guard, hx};
use crate::gen::{self, Msg, B};
use crate::refed;
use crate::run::{Check, Obs};
use crate::tape::{Mix, Tape};
use libgoldilocks::goldilocks as g;
use libgoldilocks::{PrehashSigner, SecretKey, SigningKey, VerifyingKey};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Op {
    Derive(u8),
    PrivToPub(u8),
    SecToPub(u8),
    PrivToSec(u8),
    Sign(u8, u8),
    SignPriv(u8, u8),
    SignNonce(u8, u8, u8),
    /// function, key whose public key is used, signing key, signed message, offered message, defect
    Verify(u8, u8, u8, u8, u8, u8),
    Prehash(u8, u8, u8),
    Serialize(u8, u8),
    Deserialize(u8, u8),
    BadDeserialize(u8),
    BadHex(u8),
    BadBytes(u8),
    Hex(u8),
    Random(u8),
    Generate,
    /// the same with keys and messages numbered rather than taken from the pool
    DeriveX(u32),
    SignX(u32, u32),
    /// key, signed message, offered message
    VerifyX(u32, u32, u32),
}
fn key_x(n: u32) -> [u8; 57] {
    Mix(0x6b65_7900_0000_0000 + n as u64).vec(57).try_into().unwrap()
}
fn msg_x(n: u32) -> Vec<u8> {
    Mix(0x6d73_6700_0000_0000 + n as u64).vec(n as usize * 7 % 290)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub keys: Vec<B>,
    pub msgs: Vec<Msg>,
    pub ops: Vec<Op>,
    pub repeat: u32,
    /// 1: sequential only; otherwise the history also runs in this many threads at once
    pub threads: u8,
    pub concurrent_first: bool,
    /// operation additionally compared with its result in a fresh process
    pub probe: u8,
}
struct Pool {
    keys: Vec<[u8; 57]>,
    msgs: Vec<Vec<u8>>,
}
impl Pool {
    fn new(h: &Hist) -> Pool {
        Pool { keys: h.keys.iter().map(|k| k.k()).collect(), msgs: h.msgs.iter().map(|m| m.bytes()).collect() }
    }
    fn k(&self, i: u8) -> &[u8; 57] {
        &self.keys[i as usize % self.keys.len()]
    }
    fn m(&self, i: u8) -> &[u8] {
        &self.msgs[i as usize % self.msgs.len()]
    }
    /// public key, signature, message of a verification, made by the reference
    fn triple(&self, op: &Op) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
        if let Op::VerifyX(k, sm, m) = op {
            return (refed::derive_public(&key_x(*k)).to_vec(), refed::sign(&key_x(*k), &msg_x(*sm)).to_vec(), msg_x(*m));
        }
        let Op::Verify(_, pk, sk, sm, m, d) = op else { unreachable!() };
        let mut p = refed::derive_public(self.k(*pk)).to_vec();
        let mut s = refed::sign(self.k(*sk), self.m(*sm)).to_vec();
        match d % 10 {
            1 => s.truncate(113),
            2 => s[57 + (*sm as usize % 50)] ^= 1,
            3 => p.push(0),
            4 => p[56] |= 1,
            5 => p = vec![0; 57],
            6 => s[56] ^= 0x80,
            // a weak digest of key or signature stays the same
            7 => gen::collide(*d as usize / 10, *m as usize * 257 + 3, &mut p),
            8 => gen::collide(*d as usize / 10, *m as usize * 257 + 3, &mut s),
            _ => {}
        }
        (p, s, self.m(*m).to_vec())
    }
}
type Prep = HashMap<Op, (Vec<u8>, Vec<u8>, Vec<u8>)>;

fn exec(op: &Op, p: &Pool, prep: &Prep) -> String {
    let r = guard(|| {
        let same = |before: &[u8; 57], after: &[u8; 57], out: String| if before == after { out } else { format!("{out} INPUT MODIFIED") };
        let mut k = *p.k(match op {
            Op::Derive(k) | Op::PrivToPub(k) | Op::SecToPub(k) | Op::PrivToSec(k) | Op::Sign(k, _) | Op::SignPriv(k, _) | Op::SignNonce(k, _, _) => *k,
            Op::Prehash(k, _, _) | Op::Serialize(k, _) | Op::Deserialize(k, _) | Op::Hex(k) | Op::Random(k) => *k,
            _ => 0,
        });
        let k0 = k;
        let kk = &mut k;
        let out = match op {
            Op::Derive(_) => hx(&g::ed448_derive_public(kk)),
            Op::PrivToPub(_) => hx(&g::private_to_public(kk)),
            Op::SecToPub(_) => hx(&g::secret_to_public(kk)),
            Op::PrivToSec(_) => hx(&g::private_to_secret(kk)),
            Op::Sign(_, m) => hx(&g::ed448_sign(kk, p.m(*m))),
            Op::SignPriv(_, m) => hx(&g::sign_by_private(kk, p.m(*m))),
            Op::SignNonce(_, n, m) => hx(&g::sign_with_secret_and_nonce(kk, p.k(*n), p.m(*m))),
            Op::DeriveX(k) => hx(&g::ed448_derive_public(&key_x(*k))),
            Op::SignX(k, m) => hx(&g::ed448_sign(&key_x(*k), &msg_x(*m))),
            Op::Verify(..) | Op::VerifyX(..) => {
                let f = if let Op::Verify(f, ..) = op { *f } else { 0 };
                let (a, b, c) = &prep[op];
                match verify(1 + f % 2, a, b, c) {
                    Out::Panic(_) => "panic".into(),
                    x => format!("{x:?}"),
                }
            }
            Op::Prehash(_, m, r) => {
                let s = build(*r as usize, kk);
                match s.sign_prehash(p.m(*m)) {
                    Ok(x) => hx(x.as_slice()),
                    Err(e) => format!("{e:?}"),
                }
            }
            Op::Serialize(_, t) => match t % 3 {
                0 => serde_json::to_string(&SecretKey::from_bytes(kk)).unwrap_or_default(),
                1 => serde_json::to_string(&VerifyingKey::from_bytes(kk)).unwrap_or_default(),
                _ => serde_json::to_string(&SigningKey::from_slice(kk)).unwrap_or_default(),
            },
            Op::Deserialize(_, t) => {
                let s = format!("\"{}\"", hx(kk));
                match t % 3 {
                    0 => serde_json::from_str::<SecretKey>(&s).map(|x| serde_json::to_string(&x).unwrap()).unwrap_or("refused".into()),
                    1 => serde_json::from_str::<VerifyingKey>(&s).map(|x| hx(x.as_bytes())).unwrap_or("refused".into()),
                    _ => serde_json::from_str::<SigningKey>(&s).map(|x| hx(&x.to_bytes()) + &hx(x.verifying_key().as_bytes())).unwrap_or("refused".into()),
                }
            }
            Op::BadDeserialize(t) => {
                let s = ["\"00\"", "\"zz\"", "7", "\""][*t as usize / 3 % 4];
                match t % 3 {
                    0 => serde_json::from_str::<SecretKey>(s).is_ok(),
                    1 => serde_json::from_str::<VerifyingKey>(s).is_ok(),
                    _ => serde_json::from_str::<SigningKey>(s).is_ok(),
                }
                .to_string()
            }
            Op::BadHex(t) => {
                let s = ["", "0", "zz", &"0".repeat(113), &"g".repeat(114)][*t as usize / 3 % 5].to_string();
                match t % 3 {
                    0 => hx(&g::hex_to_private_key(&s)),
                    1 => hx(&g::hex_to_signature(&s)),
                    _ => hx(&SigningKey::from_str(&s).to_bytes()),
                }
            }
            Op::BadBytes(n) => {
                let b = vec![7u8; if *n == 57 { 58 } else { *n as usize }];
                match SigningKey::from_bytes(&b) {
                    Ok(_) => "key".into(),
                    Err(e) => format!("{e:?}"),
                }
            }
            Op::Hex(_) => hx(&g::hex_to_private_key(&hx(kk))),
            Op::Random(_) => {
                let s = SigningKey::random(&mut Mock { data: &kk[..], pos: 0 });
                hx(&s.to_bytes()) + &hx(s.verifying_key().as_bytes())
            }
            Op::Generate => {
                let _ = g::ed448_generate_key();
                "-".into()
            }
        };
        same(&k0, &k, out)
    });
    r.unwrap_or_else(|_| "panic".into())
}

/// what the reference expects; only a filter, see above
fn expect(op: &Op, p: &Pool, prep: &Prep) -> String {
    let q = |k: &[u8; 57]| format!("\"{}\"", hx(k));
    match op {
        Op::Derive(k) => hx(&refed::derive_public(p.k(*k))),
        Op::PrivToPub(k) => hx(&refed::private_to_public(p.k(*k))),
        Op::SecToPub(k) => hx(&refed::public_of_scalar(p.k(*k))),
        Op::PrivToSec(k) => hx(&refed::private_to_secret(p.k(*k))),
        Op::Sign(k, m) => hx(&refed::sign(p.k(*k), p.m(*m))),
        Op::SignPriv(k, m) => hx(&refed::sign_private(p.k(*k), p.m(*m))),
        Op::SignNonce(k, n, m) => hx(&refed::sign_secret_nonce(p.k(*k), p.k(*n), p.m(*m))),
        Op::DeriveX(k) => hx(&refed::derive_public(&key_x(*k))),
        Op::SignX(k, m) => hx(&refed::sign(&key_x(*k), &msg_x(*m))),
        Op::Verify(..) | Op::VerifyX(..) => {
            let f = if let Op::Verify(f, ..) = op { *f } else { 0 };
            let (a, b, c) = &prep[op];
            let x = refed::analyse(a, b, c);
            let al = super::verify::allowed(&x, b.len());
            let bad = Out::Err("InvalidSignatureError".into());
            let o = if f % 2 == 0 { al.iter().find(|o| **o == Out::Rej).unwrap_or(&al[0]) } else { al.iter().find(|o| **o == bad).unwrap_or(&al[0]) };
            format!("{o:?}")
        }
        Op::Prehash(k, m, _) => hx(&refed::sign(p.k(*k), p.m(*m))) + &hx(&refed::derive_public(p.k(*k))),
        Op::Serialize(k, _) => q(p.k(*k)),
        Op::Deserialize(k, t) => match t % 3 {
            0 => q(p.k(*k)),
            1 => hx(p.k(*k)),
            _ => hx(p.k(*k)) + &hx(&refed::derive_public(p.k(*k))),
        },
        Op::BadDeserialize(_) => "false".into(),
        Op::BadHex(_) => "panic".into(),
        Op::BadBytes(n) => format!("InvalidPrivKeyLengthErrro({})", if *n == 57 { 58 } else { *n }),
        Op::Hex(k) => hx(p.k(*k)),
        Op::Random(k) => hx(p.k(*k)) + &hx(&refed::derive_public(p.k(*k))),
        Op::Generate => "-".into(),
    }
}

#[derive(Serialize, Deserialize, Debug)]
struct Mismatch {
    phase: String,
    at: usize,
    op: Op,
    got: String,
}

fn prepare(ops: &[Op], p: &Pool) -> Prep {
    let mut prep = Prep::new();
    for o in ops {
        if matches!(o, Op::Verify(..) | Op::VerifyX(..)) && !prep.contains_key(o) {
            prep.insert(o.clone(), p.triple(o));
        }
    }
    prep
}

/// child process: runs the history, prints the calls whose result was not the expected one
pub fn history_child() {
    crate::run::silence_panics();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let h: Hist = serde_json::from_str(&s).unwrap();
    let p = Pool::new(&h);
    let prep = prepare(&h.ops, &p);
    let mut memo: HashMap<&Op, String> = HashMap::new();
    for o in &h.ops {
        if !memo.contains_key(o) {
            memo.insert(o, expect(o, &p, &prep));
        }
    }
    let n = h.ops.len() * h.repeat as usize;
    let seq = |phase: &str, off: usize| {
        let mut bad: Vec<Mismatch> = vec![];
        for i in 0..n {
            let op = &h.ops[(i + off) % h.ops.len()];
            let got = exec(op, &p, &prep);
            if got != memo[op] && bad.len() < 4 {
                bad.push(Mismatch { phase: phase.into(), at: i, op: op.clone(), got });
            }
        }
        bad
    };
    let conc = || {
        let mut bad = vec![];
        if h.threads > 1 {
            let bar = std::sync::Barrier::new(h.threads as usize);
            std::thread::scope(|sc| {
                let hs: Vec<_> = (0..h.threads as usize)
                    .map(|t| {
                        let (bar, seq) = (&bar, &seq);
                        sc.spawn(move || {
                            bar.wait();
                            seq(&format!("thread {t} of several"), t)
                        })
                    })
                    .collect();
                for h in hs {
                    bad.extend(h.join().unwrap());
                }
            });
        }
        bad
    };
    let mut bad = vec![];
    if h.concurrent_first {
        bad.extend(conc());
    }
    bad.extend(seq("sequence", 0));
    if !h.concurrent_first {
        bad.extend(conc());
    }
    println!("{}", serde_json::to_string(&bad).unwrap());
}
/// child process: the first operation of the history alone
pub fn solo_child() {
    crate::run::silence_panics();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let h: Hist = serde_json::from_str(&s).unwrap();
    let p = Pool::new(&h);
    let prep = prepare(&h.ops, &p);
    println!("{}", exec(&h.ops[0], &p, &prep));
}
fn child(mode: &str, h: &Hist) -> Result<String, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(exe)
        .arg(mode)
        .env("EDCHECK_CHILD", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("spawn: {e}"))?;
    let mut si = c.stdin.take().unwrap();
    si.write_all(serde_json::to_string(h).unwrap().as_bytes()).map_err(|e| e.to_string())?;
    drop(si);
    let o = c.wait_with_output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Ok(format!("died: {:?}", o.status));
    }
    Ok(String::from_utf8_lossy(&o.stdout).trim_end().to_string())
}

pub struct Purity;
fn op(t: &mut Tape) -> Op {
    let (a, b, c) = (t.below(6) as u8, t.below(6) as u8, t.below(6) as u8);
    match t.below(20) {
        0 | 1 => Op::Derive(a),
        2 => Op::PrivToPub(a),
        3 => Op::SecToPub(a),
        4 => Op::PrivToSec(a),
        5 | 6 => Op::Sign(a, b),
        7 => Op::SignPriv(a, b),
        8 => Op::SignNonce(a, c, b),
        9 | 10 | 11 => {
            // mostly matching, sometimes another key or message, sometimes a defect
            let pk = if t.chance(1, 4) { t.below(6) as u8 } else { a };
            let m = if t.chance(1, 4) { t.below(6) as u8 } else { b };
            let d = if t.chance(1, 3) { t.below(10) as u8 } else if t.chance(1, 6) { (7 + t.below(2) + 10 * t.below(25)) as u8 } else { 0 };
            Op::Verify(c % 2, pk, a, b, m, d)
        }
        12 => Op::Prehash(a, b, t.below(8) as u8),
        13 => Op::Serialize(a, c),
        14 => Op::Deserialize(a, c),
        15 => Op::BadDeserialize(t.below(12) as u8),
        16 => Op::BadHex(t.below(15) as u8),
        17 => Op::BadBytes(t.u8()),
        18 => {
            if t.chance(1, 2) {
                Op::Hex(a)
            } else {
                Op::Random(a)
            }
        }
        _ => Op::Generate,
    }
}
impl Check for Purity {
    type Case = Hist;
    fn name(&self) -> &'static str {
        "purity"
    }
    fn rule(&self) -> &'static str {
        "histories of 2..24 calls (derive, sign, verify, serde, constructors, failing and panicking calls) over a small pool of related keys and messages, repeated, run in a fresh process sequentially and in up to 8 threads; every result must equal the result of that call alone in a fresh process; non-trivial: at least two different operations"
    }
    fn tape_len(&self) -> usize {
        760
    }
    fn guidable(&self) -> bool {
        false
    }
    fn budget(&self) -> (u64, u64) {
        (7_000, 120_000)
    }
    fn fixed(&self) -> Vec<Hist> {
        let mut v = vec![];
        let keys = |n: u64| -> Vec<B> {
            let mut k = Mix(n).vec(57);
            k[56] &= 0x7f;
            let mut l = k.clone();
            l[56] |= 0x80;
            let mut m = k.clone();
            m[0] ^= 1;
            let mut q = k.clone();
            q[30] ^= 0x10;
            vec![B(k), B(l), B(m), B(q)]
        };
        let msgs = || vec![Msg::of(b"a"), Msg::of(b"b"), Msg { len: 200, pat: B(vec![]), seed: 1, put: vec![] }, Msg { len: 200, pat: B(vec![]), seed: 1, put: vec![(199, B(vec![0]))] }];
        // the long ones at full length on the plain build only, where calls are several times faster
        let plain = crate::run::plain_pass();
        let h = |n: u64, ops: Vec<Op>, repeat: u32, threads: u8| Hist { repeat: if plain || repeat < 1500 { repeat } else { repeat / 8 }, ..Hist { keys: keys(n), msgs: msgs(), ops, repeat, threads, concurrent_first: n % 2 == 0, probe: 0 } };
        // long runs of one kind of call: counters, caches filling up, wrap-around after 2^8 and 2^16 calls
        v.push(h(1, vec![Op::Derive(0), Op::Derive(1), Op::Derive(2)], 22_500, 1));
        v.push(h(2, vec![Op::Sign(0, 0), Op::Sign(1, 1), Op::Sign(2, 2), Op::Sign(0, 3)], 16_500, 1));
        v.push(h(3, vec![Op::Verify(0, 0, 0, 0, 0, 0), Op::Verify(1, 1, 1, 1, 1, 0), Op::Verify(0, 0, 0, 0, 1, 0), Op::Verify(1, 2, 0, 0, 0, 0)], 2_100, 8));
        v.push(h(4, vec![Op::Derive(0), Op::Sign(0, 0), Op::Verify(0, 0, 0, 0, 0, 0), Op::Serialize(0, 2), Op::Deserialize(1, 2)], 300, 8));
        v.push(h(5, vec![Op::Serialize(0, 0), Op::Serialize(1, 1), Op::Deserialize(2, 0), Op::Deserialize(3, 1), Op::Hex(0)], 14_000, 2));
        v.push(h(6, vec![Op::BadHex(2), Op::BadDeserialize(3), Op::BadBytes(3), Op::Verify(0, 0, 0, 0, 0, 1), Op::Verify(0, 0, 0, 0, 0, 0), Op::Derive(0)], 260, 4));
        v.push(h(7, vec![Op::Verify(0, 0, 0, 0, 0, 4), Op::Verify(1, 0, 0, 0, 0, 3), Op::Verify(0, 0, 0, 0, 0, 2), Op::Verify(0, 0, 0, 0, 0, 0)], 300, 4));
        v.push(h(8, vec![Op::Prehash(0, 0, 0), Op::Prehash(1, 1, 3), Op::Prehash(2, 2, 6), Op::Random(0), Op::Generate], 1200, 2));
        // keys, messages, public keys and signatures that a weak digest does not tell apart, right after each other
        for i in 0..gen::COLLISIONS as u8 * 5 {
            let kind = i / 5;
            let at = [3, 1009, 20011, 40009, 65003][i as usize % 5] + i as usize;
            let k = Mix(i as u64).vec(57);
            let mut l = k.clone();
            gen::collide(kind as usize, at, &mut l);
            let m: Vec<u8> = if i % 2 == 0 { b"transfer 100 coins to the account of alice, 17 Nov".to_vec() } else { Mix(!(i as u64)).vec(150) };
            let mut n = m.clone();
            gen::collide(kind as usize, at, &mut n);
            let f = i % 2;
            let d = kind.min(24) * 10;
            let good = Op::Verify(f, 0, 0, 0, 0, 0);
            v.push(Hist {
                keys: vec![B(k), B(l)],
                msgs: vec![Msg::of(&m), Msg::of(&n)],
                ops: vec![
                    good.clone(),
                    Op::Verify(f, 0, 0, 0, 1, 0),
                    good.clone(),
                    Op::Verify(f, 0, 0, 0, 0, d + 7),
                    good.clone(),
                    Op::Verify(f, 0, 0, 0, 0, d + 8),
                    Op::Derive(0),
                    Op::Derive(1),
                    Op::Sign(0, 0),
                    Op::Sign(0, 1),
                    Op::Sign(1, 1),
                    Op::SignNonce(0, 0, 0),
                    Op::SignNonce(0, 1, 0),
                    Op::PrivToSec(0),
                    Op::PrivToSec(1),
                    Op::Deserialize(0, 2),
                    Op::Deserialize(1, 2),
                ],
                repeat: 1,
                threads: 1,
                concurrent_first: false,
                probe: i,
            });
        }
        // many different keys and messages in one process: tables and caches overflow, collide, evict
        v.push(h(9, (0..16_000).map(Op::DeriveX).collect(), 2, 1));
        v.push(h(11, (0..6_000).map(|i| Op::SignX(i, i)).collect(), 2, 1));
        v.push(h(13, (0..6_000).map(|i| Op::SignX(i % 3, i)).collect(), 2, 1));
        v.push(h(15, (0..3_000).map(|i| Op::VerifyX(i, i, i)).chain((0..1_000).map(|i| Op::VerifyX(i, i, i + 1))).collect(), 1, 1));
        v.push(h(16, (0..400).flat_map(|i| [Op::DeriveX(i), Op::SignX(i, 1), Op::VerifyX(i, 1, 1), Op::VerifyX(i, 1, i + 2)]).collect(), 1, 8));
        v
    }
    fn simpler(&self, c: &Hist) -> Vec<Hist> {
        let mut v = vec![];
        let n = c.ops.len();
        let mut cut = n / 2;
        while cut > 0 && n > 1 {
            for i in (0..n).step_by(cut) {
                let mut h = c.clone();
                h.ops.drain(i..(i + cut).min(n));
                if !h.ops.is_empty() {
                    v.push(h);
                }
            }
            cut /= 2;
            if v.len() > 64 {
                break;
            }
        }
        for r in [1, c.repeat / 2] {
            if r > 0 && r < c.repeat {
                v.push(Hist { repeat: r, ..c.clone() });
            }
        }
        for t in [1, c.threads / 2] {
            if t > 0 && t < c.threads {
                v.push(Hist { threads: t, ..c.clone() });
            }
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> Hist {
        let nk = 1 + t.below(4);
        let mut keys = vec![gen::key(t)];
        for _ in 1..nk {
            let base = keys[t.below(keys.len())];
            keys.push(if t.chance(4, 5) { gen::related_key(t, &base) } else { gen::key(t) });
        }
        let nm = 1 + t.below(3);
        let mut msgs = vec![gen::msg_max(t, &[&keys[0]], 2048)];
        for _ in 1..nm {
            let mut m = msgs[t.below(msgs.len())].clone();
            match t.below(6) {
                4 | 5 => {
                    let mut b = m.bytes();
                    gen::collide(t.below(gen::COLLISIONS), t.below(1 << 16), &mut b);
                    m = Msg::of(&b)
                }
                0 => m = gen::msg_max(t, &[], 2048),
                1 => m.len += 1 + t.below(3),
                2 => m.len = t.below(m.len + 1),
                _ => {
                    let p = gen::msg_pos(t, m.len);
                    m.put.push((p, B(vec![t.u8()])))
                }
            }
            msgs.push(m);
        }
        let no = 2 + t.below(20);
        let mut ops: Vec<Op> = vec![];
        for _ in 0..no {
            // immediate repetition is a common trigger
            if !ops.is_empty() && t.chance(1, 6) {
                ops.push(ops[t.below(ops.len())].clone());
            } else {
                ops.push(op(t));
            }
        }
        let repeat = if t.chance(1, 30) { 1 + t.below(40) } else { 1 + t.below(2) } as u32;
        let threads = match t.below(4) {
            0 | 1 => 1,
            2 => 2,
            _ => 2 + t.below(7) as u8,
        };
        Hist { keys: keys.into_iter().map(|k| k.into()).collect(), msgs, ops, repeat, threads, concurrent_first: t.chance(1, 2), probe: t.below(24) as u8 }
    }
    fn test(&self, c: &Hist, o: &mut Obs) -> Result<(), String> {
        let mut u = c.ops.clone();
        u.dedup();
        if u.len() > 1 {
            o.hit();
        }
        o.class(if c.threads > 1 { "concurrent" } else { "sequential" });
        for x in &u {
            let d = format!("{x:?}");
            o.class(d.split('(').next().unwrap().to_string());
        }
        let solo = |op: &Op| {
            let mut h = c.clone();
            h.ops = vec![op.clone()];
            child("solo", &h)
        };
        let out = child("history", c)?;
        let bad: Vec<Mismatch> = match serde_json::from_str(&out) {
            Ok(b) => b,
            Err(_) => return Err(format!("the process running the history ended abnormally: {}", out.chars().take(200).collect::<String>())),
        };
        for m in &bad {
            let alone = solo(&m.op)?;
            if alone != m.got {
                return Err(format!("{:?} returned {} at position {} ({}), but alone in a fresh process {}", m.op, m.got, m.at, m.phase, alone));
            }
            o.class("differs from the reference but not from a fresh process");
        }
        // the other direction: a fresh process that disagrees with what every call of the history returned
        let pr = &c.ops[c.probe as usize % c.ops.len()];
        if !bad.iter().any(|m| m.op == *pr) {
            let p = Pool::new(c);
            let prep = prepare(std::slice::from_ref(pr), &p);
            let e = expect(pr, &p, &prep);
            let alone = solo(pr)?;
            if alone != e {
                return Err(format!("{pr:?} alone in a fresh process returned {alone}, within the history {e}"));
            }
        }
        Ok(())
    }
}
