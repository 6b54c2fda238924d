//! C03 completeness, C04 tampering, C05 verdict, C06 encodings, C07 totality, C08 agreement.
use super::keys::{build, BUILD};
use super::{guard, hx, placed};
use crate::gen::{self, cat, Msg, VCase, B};
use crate::refed::{self, sc, sc::Sc, Analysis};
use crate::run::{Check, Obs};
use crate::tape::{Mix, Tape};
use libgoldilocks::errors::LibgoldilockErrors as E;
use libgoldilocks::goldilocks as g;
use libgoldilocks::PrehashSigner;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Acc,
    Rej,
    Err(String),
    Panic(String),
}
/// f = 1: boolean function, 2: error-returning function
pub fn verify(f: u8, pk: &[u8], sig: &[u8], m: &[u8]) -> Out {
    if f == 1 {
        match guard(|| g::ed448_verify(&placed(pk), &placed(sig), &placed(m))) {
            Ok(Ok(true)) => Out::Acc,
            Ok(Ok(false)) => Out::Rej,
            Ok(Err(e)) => Out::Err(format!("{e:?}")),
            Err(p) => Out::Panic(p),
        }
    } else {
        match guard(|| g::ed448_verify_with_error(&placed(pk), &placed(sig), &placed(m))) {
            Ok(Ok(())) => Out::Acc,
            Ok(Err(e)) => Out::Err(format!("{e:?}")),
            Err(p) => Out::Panic(p),
        }
    }
}
pub fn fs(f: u8) -> &'static [u8] {
    match f {
        0 => &[1, 2],
        1 => &[1],
        _ => &[2],
    }
}
pub fn fname(f: u8) -> &'static str {
    if f == 1 {
        "ed448_verify"
    } else {
        "ed448_verify_with_error"
    }
}

// ------------------------------------------------------------------------------- C03
pub struct Complete;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CmpCase {
    pub key: B,
    pub nonce: B,
    pub msg: Msg,
    /// signing routes, see ROUTES
    pub routes: Vec<u8>,
    pub f: u8,
}
const ROUTES: [&str; 7] =
    ["ed448_sign", "sign_by_private", "secret form of the private key", "explicit nonce", "explicit nonce with the secret form", "sign_prehash", "sign_prehash of the secret form"];
impl Check for Complete {
    type Case = CmpCase;
    fn name(&self) -> &'static str {
        "complete"
    }
    fn rule(&self) -> &'static str {
        "key, nonce, message and 1..7 signing routes, each signature verified by one or both functions under the derived public key; non-trivial: at least one signature was made and verified"
    }
    fn tape_len(&self) -> usize {
        330
    }
    fn budget(&self) -> (u64, u64) {
        (100_000, 900_000)
    }
    fn fixed(&self) -> Vec<CmpCase> {
        let mut v = vec![];
        for (i, k) in super::keys::edge_keys().into_iter().enumerate() {
            if i < 70 || i % 8 == 0 {
                let r = (i % 7) as u8;
                v.push(CmpCase { key: k.into(), nonce: k.into(), msg: Msg { len: i, pat: B(vec![]), seed: i as u64, put: vec![] }, routes: if i < 60 { (0..7).collect() } else { vec![r] }, f: (i % 3) as u8 });
            }
        }
        for len in [1usize << 16, (1 << 16) + 1, 1 << 20] {
            v.push(CmpCase { key: B(vec![7; 57]), nonce: B(vec![8; 57]), msg: Msg { len, pat: B(vec![]), seed: 3, put: vec![] }, routes: vec![0, 3], f: 0 });
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> CmpCase {
        let key = gen::key(t);
        let nonce = if t.chance(1, 2) { gen::bytes57(t) } else { key };
        let n = 1 + t.below(2);
        let routes = (0..n).map(|_| t.below(7) as u8).collect();
        let f = if t.chance(1, 6) { 0 } else { 1 + t.below(2) as u8 };
        CmpCase { msg: gen::msg_max(t, &[&key, &nonce], 1 << 16), key: key.into(), nonce: nonce.into(), routes, f }
    }
    fn test(&self, c: &CmpCase, o: &mut Obs) -> Result<(), String> {
        let k = c.key.k();
        let n = c.nonce.k();
        let m = placed(&c.msg.bytes());
        o.hit();
        for r in &c.routes {
            o.class(ROUTES[*r as usize % 7]);
            let sec = || g::private_to_secret(&k);
            let (pk, sig) = match r {
                0 => (g::ed448_derive_public(&k), g::ed448_sign(&k, &m).to_vec()),
                1 => (g::private_to_public(&k), g::sign_by_private(&k, &m).to_vec()),
                2 => (g::private_to_public(&k), g::ed448_sign(&sec(), &m).to_vec()),
                3 => (g::secret_to_public(&k), g::sign_with_secret_and_nonce(&k, &n, &m).to_vec()),
                4 => (g::private_to_public(&k), g::sign_with_secret_and_nonce(&sec(), &n, &m).to_vec()),
                5 => {
                    let s = build(c.key.0[0] as usize % BUILD.len(), &k);
                    let sig = s.sign_prehash(&m).map_err(|e| format!("sign_prehash failed: {e:?}"))?;
                    (s.verifying_key().as_bytes().try_into().unwrap(), sig.as_slice()[..114].to_vec())
                }
                _ => {
                    let s = build(c.key.0[0] as usize % BUILD.len(), &sec());
                    let sig = s.sign_prehash(&m).map_err(|e| format!("sign_prehash failed: {e:?}"))?;
                    (g::private_to_public(&k), sig.as_slice()[..114].to_vec())
                }
            };
            // the key object's signature also as returned, with the public key behind it
            let mut forms = vec![sig];
            if *r > 4 {
                forms.push([&forms[0][..], &pk].concat());
            }
            for (f, sig) in fs(c.f).iter().flat_map(|f| forms.iter().map(move |s| (f, s))) {
                let out = verify(*f, &pk, sig, &m);
                if out != Out::Acc {
                    return Err(format!("{} of a signature made by {} (key {}, public key {}, signature {}, {}-byte message): {out:?}", fname(*f), ROUTES[*r as usize % 7], hx(&k), hx(&pk), hx(&sig), m.len()));
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------- C04
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    MsgXor(usize, u8),
    MsgTrunc(usize),
    MsgDropFront(usize),
    MsgExt(B),
    MsgPrefix(B),
    MsgInsert(usize, u8),
    MsgDelete(usize),
    MsgSwap(usize, usize),
    MsgBlockSwap(usize, usize, usize),
    MsgOther(Msg),
    MsgMap(usize),
    SigXor(usize, u8),
    SigSetS(B),
    SigOtherR,
    SigOtherS,
    SigSwapHalves,
    SigAddL(u64),
    RTorsion(usize),
    RNeg,
    SNeg,
    RShift(u8),
    SShift(u8),
    PkXor(usize, u8),
    PkKey(B),
    PkTorsion(usize),
    PkNeg,
    SigTrunc(usize),
    PkTrunc(usize),
    /// parts of the triple in each other's place
    Move(usize),
    /// message, signature or key changed so that a weak digest stays the same
    Collide(u8, usize, usize),
}
const MOVES: usize = 24;
fn moved(i: usize, k: &[u8; 57], pk: &mut Vec<u8>, sig: &mut Vec<u8>, m: &mut Vec<u8>) {
    let (r, s) = (sig[..57].to_vec(), sig[57..].to_vec());
    let cat = |x: &[&[u8]]| x.concat();
    match i % MOVES {
        0 => sig[..57].copy_from_slice(pk),
        1 => sig[57..].copy_from_slice(pk),
        2 => *pk = r,
        3 => *pk = s,
        4 => {
            sig[..57].copy_from_slice(pk);
            *pk = r
        }
        5 => sig[57..].copy_from_slice(&r),
        6 => sig[..57].copy_from_slice(&s),
        7 => *m = pk.clone(),
        8 => *m = r,
        9 => *m = s,
        10 => *m = sig.clone(),
        11 => *m = cat(&[pk, m]),
        12 => *m = cat(&[m, pk]),
        13 => *m = cat(&[sig, m]),
        14 => *m = cat(&[m, sig]),
        15 => *m = cat(&[&r, pk, m]),
        16 => *m = cat(&[refed::DOM, &r, pk, m]),
        17 => *m = cat(&[m, m]),
        18 => *m = refed::private_to_secret(k).to_vec(),
        19 => *pk = k.to_vec(),
        20 => sig[57..].copy_from_slice(&refed::key_scalar(k).to_bytes()),
        21 => sig[57..].copy_from_slice(&refed::challenge(&r, pk, m).to_bytes()),
        // S - h*a, the nonce; and h*a alone
        22 => {
            let x = Sc::reduce(&s).sub(refed::challenge(&r, pk, m).mul(refed::key_scalar(k)));
            sig[57..].copy_from_slice(&x.to_bytes())
        }
        _ => {
            let x = refed::challenge(&r, pk, m).mul(refed::key_scalar(k));
            sig[57..].copy_from_slice(&x.to_bytes());
            sig[..57].copy_from_slice(&refed::identity().encode())
        }
    }
}
pub struct Tamper;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TamperCase {
    pub key: B,
    pub msg: Msg,
    /// each inner list is applied together to the valid triple
    pub edits: Vec<Vec<Edit>>,
    pub f: u8,
    /// the untouched triple is verified first
    #[serde(default)]
    pub warm: bool,
}
fn apply(e: &Edit, k: &[u8; 57], pk: &mut Vec<u8>, sig: &mut Vec<u8>, m: &mut Vec<u8>) {
    let dec = |b: &[u8]| -> Option<refed::Point> { refed::decode(b.get(..57)?.try_into().ok()?).ok() };
    let pos = |p: usize, n: usize| p.min(n.saturating_sub(1));
    match e {
        Edit::MsgXor(p, x) => {
            if !m.is_empty() {
                let i = pos(*p, m.len());
                m[i] ^= x
            }
        }
        Edit::MsgTrunc(n) => m.truncate(m.len().saturating_sub(*n)),
        Edit::MsgDropFront(n) => {
            let n = (*n).min(m.len());
            m.drain(..n);
        }
        Edit::MsgExt(b) => m.extend_from_slice(&b.0),
        Edit::MsgPrefix(b) => {
            let mut v = b.0.clone();
            v.extend_from_slice(m);
            *m = v
        }
        Edit::MsgInsert(p, b) => {
            let i = (*p).min(m.len());
            m.insert(i, *b)
        }
        Edit::MsgDelete(p) => {
            if !m.is_empty() {
                let i = pos(*p, m.len());
                m.remove(i);
            }
        }
        Edit::MsgSwap(a, b) => {
            if !m.is_empty() {
                let (a, b) = (pos(*a, m.len()), pos(*b, m.len()));
                m.swap(a, b)
            }
        }
        Edit::MsgBlockSwap(a, b, n) => {
            for i in 0..*n {
                if a + i < m.len() && b + i < m.len() {
                    m.swap(a + i, b + i)
                }
            }
        }
        Edit::MsgOther(x) => *m = x.bytes(),
        Edit::MsgMap(i) => *m = gen::map_msg(*i, m),
        Edit::SigXor(p, x) => {
            let i = pos(*p, sig.len());
            sig[i] ^= x
        }
        Edit::SigSetS(b) => sig[57..].copy_from_slice(&b.0),
        Edit::SigOtherR | Edit::SigOtherS => {
            let mut m2 = m.clone();
            m2.push(0);
            let s2 = refed::sign(k, &m2);
            if matches!(e, Edit::SigOtherR) {
                sig[..57].copy_from_slice(&s2[..57])
            } else {
                sig[57..].copy_from_slice(&s2[57..])
            }
        }
        Edit::SigSwapHalves => sig.rotate_left(57),
        Edit::SigAddL(n) => {
            let s = Sc::reduce(&sig[57..]);
            if let Some(b) = sc::add_multiple_of_l(&s, *n) {
                sig[57..].copy_from_slice(&b)
            }
        }
        Edit::RTorsion(i) => {
            if let Some(p) = dec(sig) {
                sig[..57].copy_from_slice(&p.add(&refed::torsion(*i)).encode())
            }
        }
        Edit::RNeg => {
            if let Some(p) = dec(sig) {
                sig[..57].copy_from_slice(&p.neg().encode())
            }
        }
        Edit::SNeg => {
            let s = Sc::reduce(&sig[57..]).neg().to_bytes();
            sig[57..].copy_from_slice(&s)
        }
        Edit::RShift(d) => {
            if let Some(p) = dec(sig) {
                sig[..57].copy_from_slice(&p.add(&refed::mul_base(&Sc::from_u64(*d as u64))).encode())
            }
        }
        Edit::SShift(d) => {
            let s = Sc::reduce(&sig[57..]).add(Sc::from_u64(*d as u64)).to_bytes();
            sig[57..].copy_from_slice(&s)
        }
        Edit::PkXor(p, x) => {
            let i = pos(*p, pk.len());
            pk[i] ^= x
        }
        Edit::PkKey(b) => *pk = refed::derive_public(&b.k()).to_vec(),
        Edit::PkTorsion(i) => {
            if let Some(p) = dec(pk) {
                *pk = p.add(&refed::torsion(*i)).encode().to_vec()
            }
        }
        Edit::PkNeg => {
            if let Some(p) = dec(pk) {
                *pk = p.neg().encode().to_vec()
            }
        }
        Edit::SigTrunc(n) => sig.truncate(114usize.saturating_sub(*n)),
        Edit::PkTrunc(n) => pk.truncate(57usize.saturating_sub(*n)),
        Edit::Move(i) => moved(*i, k, pk, sig, m),
        Edit::Collide(w, kind, at) => match w % 4 {
            0 => gen::collide(*kind, *at, m),
            1 => gen::collide(*kind, *at, pk),
            2 => gen::collide(*kind, *at, sig),
            _ => {
                let i = sig.len() / 2 * (*at % 2);
                let e = (i + 57).min(sig.len());
                gen::collide(*kind, *at / 2, &mut sig[i..e])
            }
        },
    }
}
fn edit(t: &mut Tape, k: &[u8; 57], m: &Msg) -> Edit {
    let bitmask = |t: &mut Tape| if t.chance(1, 4) { t.u8() } else { 1 << t.below(8) };
    match t.below(36) {
        33 => Edit::Collide(0, t.below(gen::COLLISIONS), t.below(1 << 16)),
        34 => Edit::Collide(1, t.below(gen::COLLISIONS), t.below(1 << 16)),
        35 => Edit::Collide(2 + t.below(2) as u8, t.below(gen::COLLISIONS), t.below(1 << 16)),
        31 | 32 => Edit::Move(t.below(MOVES)),
        28 | 29 | 30 => Edit::MsgMap(t.below(gen::MAPS)),
        0 | 1 | 2 | 3 | 4 => Edit::MsgXor(gen::msg_pos(t, m.len), bitmask(t)),
        5 => Edit::MsgTrunc(1 + gen::msg_pos(t, m.len.max(1))),
        6 => {
            let n = 1 + t.below(5);
            let b = match t.below(3) {
                0 => vec![0; n],
                1 => vec![0xff; n],
                _ => t.bytes(n),
            };
            Edit::MsgExt(B(b))
        }
        7 => Edit::MsgPrefix(B(if t.chance(1, 2) { vec![0; 1 + t.below(3)] } else { t.bytes(2) })),
        8 => Edit::MsgInsert(gen::msg_pos(t, m.len), if t.chance(1, 2) { 0 } else { t.u8() }),
        9 => Edit::MsgDelete(gen::msg_pos(t, m.len)),
        10 => match t.below(3) {
            0 => Edit::MsgSwap(gen::msg_pos(t, m.len), gen::msg_pos(t, m.len)),
            1 => Edit::MsgDropFront(1 + t.below(4)),
            _ => Edit::MsgBlockSwap(gen::msg_pos(t, m.len), gen::msg_pos(t, m.len), 1 + t.below(140)),
        },
        11 => Edit::MsgOther(gen::msg_max(t, &[k], 4096)),
        12 | 13 | 14 => Edit::SigXor(t.below(114), bitmask(t)),
        15 => Edit::SigXor(t.pick(&[55, 56, 57, 112, 113, 111, 0, 58]), bitmask(t)),
        16 => match t.below(6) {
            0 => Edit::SigSetS(gen::scalar(t).to_bytes().into()),
            1 => Edit::SigOtherR,
            2 => Edit::SigOtherS,
            3 => Edit::SigSwapHalves,
            4 => Edit::SigSetS(gen::bytes57(t).into()),
            _ => Edit::SigTrunc(1 + t.below(114)),
        },
        17 => Edit::SigAddL(1 + if t.chance(3, 4) { t.below(4) } else { t.below(1023) } as u64),
        18 => Edit::RTorsion(1 + t.below(3)),
        19 => Edit::RNeg,
        20 => Edit::SNeg,
        21 => Edit::RShift(1 + t.below(8) as u8),
        22 => Edit::SShift(1 + t.below(8) as u8),
        23 => Edit::PkXor(t.below(57), bitmask(t)),
        24 => Edit::PkKey(if t.chance(3, 4) { gen::related_key(t, k) } else { gen::key(t) }.into()),
        25 => Edit::PkTorsion(1 + t.below(3)),
        26 => Edit::PkNeg,
        _ => {
            if t.chance(1, 2) {
                Edit::PkXor(56, bitmask(t))
            } else {
                Edit::PkTrunc(1 + t.below(57))
            }
        }
    }
}
impl Check for Tamper {
    type Case = TamperCase;
    fn name(&self) -> &'static str {
        "tamper"
    }
    fn rule(&self) -> &'static str {
        "a signature made by the library, then up to 4 tampered variants (edits of message, R, S and key, message normalisations, parts in each other's place, combinations); non-trivial: at least one variant really differs from the signed triple"
    }
    fn tape_len(&self) -> usize {
        420
    }
    fn budget(&self) -> (u64, u64) {
        (72_000, 500_000)
    }
    fn fixed(&self) -> Vec<TamperCase> {
        let mut v = vec![];
        // every single-bit change of signature and public key, of a short and of a longer message
        for (ki, mlen) in [(1u64, 0usize), (2, 43), (3, 300)] {
            let mut key = Mix(ki).vec(57);
            key[56] = if ki % 2 == 0 { key[56] | 0x80 } else { key[56] & 0x7f };
            let msg = Msg { len: mlen, pat: B(vec![]), seed: ki, put: vec![] };
            let mut es = vec![];
            for p in 0..114 {
                for b in 0..8 {
                    es.push(vec![Edit::SigXor(p, 1 << b)]);
                }
            }
            for p in 0..57 {
                for b in 0..8 {
                    es.push(vec![Edit::PkXor(p, 1 << b)]);
                }
            }
            for p in 0..mlen {
                es.push(vec![Edit::MsgXor(p, 1 << (p % 8))]);
                if p % 3 == 0 {
                    es.push(vec![Edit::MsgDelete(p)]);
                    es.push(vec![Edit::MsgInsert(p, 0)]);
                    es.push(vec![Edit::MsgTrunc(p + 1)]);
                }
            }
            for i in 1..4 {
                es.push(vec![Edit::PkTorsion(i)]);
                es.push(vec![Edit::RTorsion(i)]);
                for j in 1..4 {
                    es.push(vec![Edit::PkTorsion(i), Edit::RTorsion(j)]);
                }
            }
            for i in 0..MOVES {
                es.push(vec![Edit::Move(i)]);
            }
            for i in 0..4 * gen::COLLISIONS {
                es.push(vec![Edit::Collide(i as u8, i / 4, i * 1009)]);
            }
            es.push(vec![Edit::PkNeg, Edit::RNeg, Edit::SNeg]);
            es.push(vec![Edit::RNeg, Edit::SNeg]);
            es.push(vec![Edit::PkNeg]);
            for n in 0..1024 {
                if n < 8 || n % 100 == 0 || n > 1018 {
                    es.push(vec![Edit::SigAddL(n)]);
                }
            }
            for d in 1..5 {
                es.push(vec![Edit::RShift(d), Edit::SShift(d)]);
            }
            for (i, c) in es.chunks(16).enumerate() {
                v.push(TamperCase { key: B(key.clone()), msg: msg.clone(), edits: c.to_vec(), f: 1 + ((i as u64 + ki) % 2) as u8, warm: i % 2 == 0 });
            }
        }
        // normalisations, and every byte value at both ends of a text
        for (ki, text) in [
            &b"pay 100 to Alice"[..], b"", b"line\n", b" a\r\nb  c\n", b"0xdeadBEEF00", b"DEADbeef", b"\0\0x\0", b"\xef\xbb\xbfbom", b"caf\xc3\xa9 \xff", &[0x61; 200], &[0x30; 64],
        ]
        .into_iter()
        .enumerate()
        {
            let mut key = Mix(ki as u64 + 50).vec(57);
            key[56] ^= (ki as u8) << 7;
            let mut es: Vec<Vec<Edit>> = (0..gen::MAPS).map(|i| vec![Edit::MsgMap(i)]).collect();
            if ki < 2 {
                for b in 0..=255u8 {
                    es.push(vec![Edit::MsgExt(B(vec![b]))]);
                    es.push(vec![Edit::MsgPrefix(B(vec![b]))]);
                    es.push(vec![Edit::MsgExt(B(vec![b, b]))]);
                }
            }
            for (i, c) in es.chunks(16).enumerate() {
                v.push(TamperCase { key: B(key.clone()), msg: Msg::of(text), edits: c.to_vec(), f: 1 + ((i + ki) % 2) as u8, warm: i % 4 < 2 });
            }
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> TamperCase {
        let key = gen::key(t);
        let msg = gen::msg_max(t, &[&key], 1 << 15);
        let n = 1 + t.below(4);
        let edits = (0..n)
            .map(|_| {
                let k = if t.chance(1, 4) { 2 + t.below(2) } else { 1 };
                (0..k).map(|_| edit(t, &key, &msg)).collect()
            })
            .collect();
        TamperCase { key: key.into(), msg, edits, f: if t.chance(1, 8) { 0 } else { 1 + t.below(2) as u8 }, warm: t.chance(1, 2) }
    }
    fn test(&self, c: &TamperCase, o: &mut Obs) -> Result<(), String> {
        let k = c.key.k();
        if refed::key_scalar(&k) == sc::ZERO {
            o.class("excluded: scalar 0");
            return Ok(());
        }
        let m0 = c.msg.bytes();
        let pk0 = g::ed448_derive_public(&k).to_vec();
        let sig0 = g::ed448_sign(&k, &placed(&m0)).to_vec();
        if c.warm {
            for f in fs(c.f) {
                let _ = verify(*f, &pk0, &sig0, &m0);
            }
        }
        for es in &c.edits {
            let (mut pk, mut sig, mut m) = (pk0.clone(), sig0.clone(), m0.clone());
            for e in es {
                if sig.len() < 114 || pk.len() < 57 {
                    break;
                }
                apply(e, &k, &mut pk, &mut sig, &mut m);
            }
            if (&pk, &sig, &m) == (&pk0, &sig0, &m0) {
                o.class("no-op");
                continue;
            }
            o.hit();
            o.class(format!("{}{}{}", if pk != pk0 { "pk " } else { "" }, if sig != sig0 { "sig " } else { "" }, if m != m0 { "msg" } else { "" }));
            for f in fs(c.f) {
                if verify(*f, &pk, &sig, &m) == Out::Acc {
                    if refed::analyse(&pk, &sig, &m).accept() {
                        // the edits use the private key, and can make another signature of the message
                        o.class("a signature made with the key again");
                        continue;
                    }
                    return Err(format!("{} accepted a tampered triple: edits {es:?}, key {}, public key {}, signature {}, message ({} bytes) {}", fname(*f), hx(&k), hx(&pk), hx(&sig), m.len(), hx(&m[..m.len().min(300)])));
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------- C05
pub struct Verdict;
pub fn smallorder_fixed() -> Vec<VCase> {
    let mut v = vec![];
    let scs: Vec<Sc> = {
        let mut x: Vec<Sc> = (0..6u64).map(Sc::from_u64).collect();
        x.extend((1..6u64).map(|i| Sc::from_u64(i).neg()));
        x.push(sc::ONE.halve());
        x.push(sc::ONE.halve().halve());
        for b in [31, 32, 63, 64, 223, 224, 255, 256, 444, 445] {
            let mut y = [0u8; 57];
            y[b / 8] = 1 << (b % 8);
            x.push(Sc::reduce(&y));
        }
        x
    };
    let mut n = 0u8;
    for i in 0..4 {
        for s in &scs {
            for j in 0..4 {
                n = n.wrapping_add(1);
                let r = gen::point_rt(s, j);
                v.push(VCase { label: format!("A=T{i} R=sB+T{j}"), pk: refed::torsion(i).encode().into(), sig: cat(&r.encode(), &s.to_bytes()), msg: Msg::of(&[n]), f: 1 + n % 2 });
            }
        }
    }
    for a in &scs {
        for r in scs.iter().take(14) {
            n = n.wrapping_add(1);
            let (i, j) = ((n % 4) as usize, (n / 4 % 4) as usize);
            let pk = gen::point_rt(a, i).encode();
            let rb = gen::point_rt(r, j).encode();
            let k = refed::challenge(&rb, &pk, &[n]);
            let s = r.add(k.mul(*a));
            v.push(VCase { label: format!("extreme scalars T{i} T{j}"), pk: pk.into(), sig: cat(&rb, &s.to_bytes()), msg: Msg::of(&[n]), f: 1 + n % 2 });
        }
    }
    v
}
impl Check for Verdict {
    type Case = VCase;
    fn name(&self) -> &'static str {
        "verdict"
    }
    fn rule(&self) -> &'static str {
        "57-byte key, 114-byte signature, message, mostly satisfying the group equation by construction (A=aB+T_i, R=rB+T_j, extreme scalars, small-order A) and then disguised; non-trivial: key, R and S all decode, so the group equation decides, or the reference accepts"
    }
    fn tape_len(&self) -> usize {
        520
    }
    fn budget(&self) -> (u64, u64) {
        (200_000, 1_200_000)
    }
    fn fixed(&self) -> Vec<VCase> {
        smallorder_fixed()
    }
    fn gen(&self, t: &mut Tape) -> VCase {
        gen::vcase(t)
    }
    fn test(&self, c: &VCase, o: &mut Obs) -> Result<(), String> {
        if c.pk.0.len() != 57 || c.sig.0.len() != 114 {
            return Ok(());
        }
        let m = c.msg.bytes();
        let a = refed::analyse(&c.pk.0, &c.sig.0, &m);
        if !a.pk_bad && !a.r_bad && !a.s_range {
            o.hit();
            o.class(if a.accept() { "accept" } else { "equation fails" });
        } else {
            o.class("malformed");
        }
        for f in fs(c.f) {
            let out = verify(*f, &c.pk.0, &c.sig.0, &m);
            if (out == Out::Acc) != a.accept() {
                return Err(format!("{} -> {out:?}, RFC 8032 verdict: {} ({a:?}); {}; pk {} sig {} msg {}", fname(*f), if a.accept() { "accept" } else { "refuse" }, c.label, hx(&c.pk.0), hx(&c.sig.0), hx(&m[..m.len().min(200)])));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------- C06
pub struct Encodings;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EncCase {
    /// true: the string is R, false: the public key
    pub as_r: bool,
    pub enc: B,
    pub f: u8,
}
impl Check for Encodings {
    type Case = EncCase;
    fn name(&self) -> &'static str {
        "encodings"
    }
    fn rule(&self) -> &'static str {
        "57-byte strings as public key or R (values around 0, p, 2^448, structured limbs, torsion points, spare bits, off-curve points with single-limb residual); decoding observed through the decode errors; all non-zero strings count as non-trivial"
    }
    fn tape_len(&self) -> usize {
        200
    }
    fn budget(&self) -> (u64, u64) {
        (160_000, 2_500_000)
    }
    fn fixed(&self) -> Vec<EncCase> {
        let mut v = vec![];
        let mut push = |e: [u8; 57]| {
            let n = v.len() as u8;
            v.push(EncCase { as_r: false, enc: e.into(), f: 1 + n % 2 });
            v.push(EncCase { as_r: true, enc: e.into(), f: 1 + n / 2 % 2 });
        };
        for (_, e) in gen::nearmiss() {
            push(e);
        }
        for top in [0u8, 0x80] {
            for y in 0..48u64 {
                let mut b = [0u8; 57];
                b[..8].copy_from_slice(&y.to_le_bytes());
                b[56] = top;
                push(b);
            }
            for d in -48..49i64 {
                let mut b = gen::p_plus(d);
                b[56] |= top;
                push(b);
            }
            for i in 0..56 {
                // limb patterns around the prime: one byte off
                for x in [1u8, 0x80, 0xff] {
                    let mut b = gen::p_plus(0);
                    b[i] ^= x;
                    b[56] = top;
                    push(b);
                }
            }
            for i in 0..4 {
                let mut e = refed::torsion(i).encode();
                e[56] ^= top;
                push(e);
            }
        }
        for bit in 0..7 {
            for s in 1..4u64 {
                let mut e = refed::mul_base(&Sc::from_u64(s)).encode();
                e[56] |= 1 << bit;
                push(e);
            }
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> EncCase {
        let as_r = t.chance(1, 2);
        let f = 1 + t.below(2) as u8;
        EncCase { as_r, enc: gen::weird_encoding(t).into(), f }
    }
    fn test(&self, c: &EncCase, o: &mut Obs) -> Result<(), String> {
        let e = c.enc.k();
        if e.iter().all(|b| *b == 0) && !c.as_r {
            return Ok(());
        }
        o.hit();
        let good = refed::base().encode();
        let want = refed::decode(&e);
        o.class(format!("{}: {}", if c.as_r { "R" } else { "key" }, match &want {
            Ok(_) => "canonical".to_string(),
            Err(x) => format!("{x:?}"),
        }));
        let one = sc::ONE.to_bytes();
        let (pk, sig, err) = if c.as_r { (good, cat(&e, &one), "DecodeSignatureError") } else { (e, cat(&good, &one), "DecodePubkeyError") };
        let out = verify(c.f, &pk, &sig.0, b"x");
        let refused = out == Out::Err(err.into());
        match (&want, refused) {
            (Ok(_), true) => Err(format!("{}: canonical encoding {} of a curve point refused with {err}", fname(c.f), hx(&e))),
            (Err(w), false) => Err(format!("{}: {} is no canonical encoding ({w:?}) but was not refused: {out:?}", fname(c.f), hx(&e))),
            _ => {
                if let Out::Panic(p) = out {
                    return Err(format!("{} panicked on {}: {p}", fname(c.f), hx(&e)));
                }
                Ok(())
            }
        }
    }
}

pub struct Malleable;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MalCase {
    pub key: B,
    pub msg: Msg,
    pub how: Mal,
    pub f: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mal {
    SPlusL(u64),
    SpareS(u8),
    RPlusP,
    RSpare(u8),
    PkPlusP,
    PkSpare(u8),
    PkTorsion(usize),
    RTorsion(usize),
    /// honest signature for the torsioned key, offered under the plain key, and the other way round
    CrossTorsion(usize, bool),
    /// key with small y chosen so that y+p fits (small-order points): honest equation, disguised encoding
    SmallOrder { i: usize, s: B, j: usize, pk_plus_p: bool, r_plus_p: bool, pk_sign: bool, r_sign: bool, s_plus: u64 },
}
impl Check for Malleable {
    type Case = MalCase;
    fn name(&self) -> &'static str {
        "malleability"
    }
    fn rule(&self) -> &'static str {
        "an honest signature turned into a different key or signature string with the same meaning (S+mL, y+p, spare bits, torsion, sign of zero); non-trivial: the variant differs from the honest strings"
    }
    fn tape_len(&self) -> usize {
        300
    }
    fn budget(&self) -> (u64, u64) {
        (80_000, 800_000)
    }
    fn fixed(&self) -> Vec<MalCase> {
        let mut v = vec![];
        let key = B(Mix(77).vec(57));
        for m in 1..1024u64 {
            v.push(MalCase { key: key.clone(), msg: Msg::of(b"m"), how: Mal::SPlusL(m), f: 1 + (m % 2) as u8 });
        }
        for i in 1..4 {
            for f in 1..3 {
                v.push(MalCase { key: key.clone(), msg: Msg::of(b"m"), how: Mal::PkTorsion(i), f });
                v.push(MalCase { key: key.clone(), msg: Msg::of(b"m"), how: Mal::RTorsion(i), f });
                v.push(MalCase { key: key.clone(), msg: Msg::of(b"m"), how: Mal::CrossTorsion(i, f == 1), f });
            }
        }
        for i in 0..4 {
            for b in 0..32u8 {
                let how = Mal::SmallOrder { i, s: [b % 3; 57].into(), j: (b / 16) as usize, pk_plus_p: b & 1 != 0, r_plus_p: b & 2 != 0, pk_sign: b & 4 != 0, r_sign: b & 8 != 0, s_plus: (b / 16) as u64 };
                v.push(MalCase { key: key.clone(), msg: Msg::of(b"m"), how, f: 1 + b % 2 });
            }
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> MalCase {
        let key = gen::key(t);
        let how = match t.below(11) {
            0 => Mal::SPlusL(1 + t.below(4) as u64),
            1 => Mal::SPlusL(1 + t.below(1023) as u64),
            2 => Mal::SpareS(1 + t.below(255) as u8),
            3 => Mal::RPlusP,
            4 => Mal::RSpare(1 + t.below(127) as u8),
            5 => Mal::PkPlusP,
            6 => Mal::PkSpare(1 + t.below(127) as u8),
            7 => Mal::PkTorsion(1 + t.below(3)),
            8 => Mal::RTorsion(1 + t.below(3)),
            9 => Mal::CrossTorsion(1 + t.below(3), t.chance(1, 2)),
            _ => Mal::SmallOrder {
                i: t.below(4),
                s: if t.chance(1, 2) { special57(t) } else { B(t.arr57().to_vec()) },
                j: t.below(4),
                pk_plus_p: t.chance(1, 2),
                r_plus_p: t.chance(1, 2),
                pk_sign: t.chance(1, 2),
                r_sign: t.chance(1, 2),
                s_plus: if t.chance(1, 2) { t.below(5) as u64 } else { 0 },
            },
        };
        MalCase { msg: gen::msg_max(t, &[&key], 4096), key: key.into(), how, f: 1 + t.below(2) as u8 }
    }
    fn test(&self, c: &MalCase, o: &mut Obs) -> Result<(), String> {
        let k = c.key.k();
        let s = refed::key_scalar(&k);
        if s == sc::ZERO {
            return Ok(());
        }
        let m = c.msg.bytes();
        let mut pk = refed::derive_public(&k);
        let sig = refed::sign(&k, &m);
        let mut r: [u8; 57] = sig[..57].try_into().unwrap();
        let mut sb: [u8; 57] = sig[57..].try_into().unwrap();
        let tor = |e: &[u8; 57], i: usize| refed::decode(e).unwrap().add(&refed::torsion(i)).encode();
        let mut expect_diff = true;
        match &c.how {
            Mal::SPlusL(n) => match sc::add_multiple_of_l(&Sc::reduce(&sb), *n) {
                Some(b) => sb = b,
                None => return Ok(()),
            },
            Mal::SpareS(x) => sb[56] ^= x,
            Mal::RPlusP => match gen::add_p(&r) {
                Some(x) => r = x,
                None => return Ok(()),
            },
            Mal::RSpare(x) => r[56] ^= x & 0x7f,
            Mal::PkPlusP => match gen::add_p(&pk) {
                Some(x) => pk = x,
                None => return Ok(()),
            },
            Mal::PkSpare(x) => pk[56] ^= x & 0x7f,
            Mal::PkTorsion(i) => pk = tor(&pk, *i),
            Mal::RTorsion(i) => r = tor(&r, *i),
            Mal::CrossTorsion(i, dir) => {
                // valid signature for one of A, A+T, presented under the other
                let at = tor(&pk, *i);
                let n = Sc::reduce(&refed::clamp(&k)).add(sc::ONE);
                let rb = refed::mul_base(&n).encode();
                let (signed, shown) = if *dir { (at, pk) } else { (pk, at) };
                let ch = refed::challenge(&rb, &signed, &m);
                r = rb;
                sb = n.add(ch.mul(s)).to_bytes();
                pk = shown;
                expect_diff = false;
            }
            Mal::SmallOrder { i, s, j, pk_plus_p, r_plus_p, pk_sign, r_sign, s_plus } => {
                let s = Sc::reduce(&s.0);
                pk = refed::torsion(*i).encode();
                r = gen::point_rt(&s, *j).encode();
                sb = sc::add_multiple_of_l(&s, *s_plus).unwrap();
                if *pk_plus_p {
                    pk = gen::add_p(&pk).unwrap_or(pk)
                }
                if *r_plus_p {
                    r = gen::add_p(&r).unwrap_or(r)
                }
                if *pk_sign {
                    pk[56] ^= 0x80
                }
                if *r_sign {
                    r[56] ^= 0x80
                }
                expect_diff = false;
                let a = refed::analyse(&pk, &cat(&r, &sb).0, &m);
                if !(a.pk_bad || a.r_bad || a.s_range) {
                    // a legitimate encoding after all: not a disguise
                    o.class("small order, canonical");
                    return Ok(());
                }
            }
        }
        if expect_diff && (pk, r, sb) == (refed::derive_public(&k), sig[..57].try_into().unwrap(), sig[57..].try_into().unwrap()) {
            return Ok(());
        }
        o.hit();
        let d = format!("{:?}", c.how);
        o.class(d.split(|x: char| !x.is_alphanumeric()).next().unwrap_or("").to_string());
        let sig2 = cat(&r, &sb);
        if verify(c.f, &pk, &sig2.0, &m) == Out::Acc && !refed::analyse(&pk, &sig2.0, &m).accept() {
            return Err(format!("{} accepts a second encoding ({:?}): public key {}, signature {}, message {}", fname(c.f), c.how, hx(&pk), hx(&sig2.0), hx(&m[..m.len().min(200)])));
        }
        Ok(())
    }
}
fn special57(t: &mut Tape) -> B {
    gen::special_scalar(t).to_bytes().into()
}

// ------------------------------------------------------------------------------- C07
/// the outcomes the statement allows
pub fn allowed(a: &Analysis, siglen: usize) -> Vec<Out> {
    let e = |s: &str| Out::Err(s.into());
    let mut v = vec![];
    if a.pk_len {
        v.push(e("InvalidPubkeyLengthError"))
    }
    if a.sig_len {
        v.push(e("InvalidSignatureLengthError"))
    }
    if a.pk_zero || a.sig_zero {
        v.push(e("InvalidSignatureError"))
    }
    if a.pk_bad {
        v.push(e("DecodePubkeyError"))
    }
    if a.r_bad {
        v.push(e("DecodeSignatureError"))
    }
    if a.s_range {
        v.extend([Out::Rej, e("InvalidSignatureError"), e("DecodeSignatureError")])
    }
    if a.equation {
        v.extend([Out::Rej, e("InvalidSignatureError")])
    }
    if v.is_empty() {
        v.push(Out::Acc)
    }
    if siglen > 114 {
        // what trailing bytes mean is not specified: refusing them is as good as ignoring them
        v.extend([Out::Rej, e("InvalidSignatureError"), e("InvalidSignatureLengthError")])
    }
    v
}
pub struct Total;
impl Check for Total {
    type Case = VCase;
    fn name(&self) -> &'static str {
        "total"
    }
    fn rule(&self) -> &'static str {
        "key, signature, message of arbitrary lengths and content (adversarial, re-sized, all-zero), outcome must be one the defects present allow; non-trivial: at least one defect, or accepted"
    }
    fn tape_len(&self) -> usize {
        560
    }
    fn budget(&self) -> (u64, u64) {
        (150_000, 1_200_000)
    }
    fn fixed(&self) -> Vec<VCase> {
        let mut v = vec![];
        let k = [3u8; 57];
        let pk = refed::derive_public(&k).to_vec();
        let sig = refed::sign(&k, b"m").to_vec();
        let lens: Vec<usize> = (0..240).chain([255, 256, 257, 1000, 4096, 65536]).collect();
        for n in lens {
            for fill in 0..2u8 {
                let mut p = pk.clone();
                p.resize(n, 0xff * fill);
                let mut s = sig.clone();
                s.resize(n, 0xff * fill);
                v.push(VCase { label: format!("pk {n}"), pk: B(p.clone()), sig: B(sig.clone()), msg: Msg::of(b"m"), f: 0 });
                v.push(VCase { label: format!("sig {n}"), pk: B(pk.clone()), sig: B(s.clone()), msg: Msg::of(b"m"), f: 0 });
                v.push(VCase { label: format!("both {n}"), pk: B(p), sig: B(s), msg: Msg::of(b"m"), f: 0 });
                v.push(VCase { label: format!("const {n}"), pk: B(vec![0xff * fill; n]), sig: B(vec![0xff * fill; n]), msg: Msg::of(b"m"), f: 0 });
                v.push(VCase { label: format!("const sig {n}"), pk: B(pk.clone()), sig: B(vec![0xff * fill; n]), msg: Msg::of(b""), f: 0 });
                v.push(VCase { label: format!("const pk {n}"), pk: B(vec![0xff * fill; n]), sig: B(sig.clone()), msg: Msg::of(b""), f: 0 });
            }
        }
        for len in [0usize, 1 << 20, (1 << 24) + 1] {
            v.push(VCase { label: "long message".into(), pk: B(pk.clone()), sig: B(sig.clone()), msg: Msg { len, pat: B(vec![1]), seed: 0, put: vec![] }, f: 1 });
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> VCase {
        let mut v = gen::vcase_any_len(t);
        v.f = if t.chance(1, 6) { 0 } else { 1 + t.below(2) as u8 };
        v
    }
    fn test(&self, c: &VCase, o: &mut Obs) -> Result<(), String> {
        let m = c.msg.bytes();
        let a = refed::analyse(&c.pk.0, &c.sig.0, &m);
        let al = allowed(&a, c.sig.0.len());
        o.hit();
        if a.pk_len {
            o.class("key length")
        }
        if a.sig_len {
            o.class("signature length")
        }
        if a.pk_zero || a.sig_zero {
            o.class("all zero")
        }
        if a.pk_bad {
            o.class("bad key")
        }
        if a.r_bad {
            o.class("bad R")
        }
        if a.s_range {
            o.class("S out of range")
        }
        if a.equation {
            o.class("equation fails")
        }
        if a.accept() {
            o.class("accept")
        }
        for f in fs(c.f) {
            let out = verify(*f, &c.pk.0, &c.sig.0, &m);
            if !al.contains(&out) {
                return Err(format!("{} -> {out:?}, allowed {al:?} ({a:?}); {}; pk {} sig {} msg {} bytes", fname(*f), c.label, hx(&c.pk.0), hx(&c.sig.0), m.len()));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------- C08
pub struct Agree;
impl Check for Agree {
    type Case = VCase;
    fn name(&self) -> &'static str {
        "agree"
    }
    fn rule(&self) -> &'static str {
        "the inputs of the verdict and totality checks (honest, adversarial, malformed, any length) through both functions; all count as non-trivial"
    }
    fn tape_len(&self) -> usize {
        560
    }
    fn budget(&self) -> (u64, u64) {
        (120_000, 1_000_000)
    }
    fn fixed(&self) -> Vec<VCase> {
        let mut v = Total.fixed();
        v.retain(|c| c.msg.len < 1 << 20);
        v.extend(smallorder_fixed());
        for (_, e) in gen::nearmiss().into_iter().step_by(8) {
            v.push(VCase { label: "near miss".into(), pk: e.into(), sig: cat(&refed::base().encode(), &[0; 57]), msg: Msg::of(b""), f: 0 });
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> VCase {
        if t.chance(1, 3) {
            gen::vcase(t)
        } else {
            gen::vcase_any_len(t)
        }
    }
    fn test(&self, c: &VCase, o: &mut Obs) -> Result<(), String> {
        let m = c.msg.bytes();
        let a = verify(1, &c.pk.0, &c.sig.0, &m);
        let b = verify(2, &c.pk.0, &c.sig.0, &m);
        o.hit();
        o.class(match &a {
            Out::Acc => "true".into(),
            Out::Rej => "false".into(),
            Out::Err(e) => e.clone(),
            Out::Panic(_) => "panic".to_string(),
        });
        let ok = match (&a, &b) {
            (Out::Acc, Out::Acc) => true,
            (Out::Rej, Out::Err(e)) => e == &format!("{:?}", E::InvalidSignatureError),
            (Out::Err(x), Out::Err(y)) => x == y,
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            Err(format!("ed448_verify -> {a:?} but ed448_verify_with_error -> {b:?}; {}; pk {} sig {} msg {} bytes", c.label, hx(&c.pk.0), hx(&c.sig.0), m.len()))
        }
    }
}
