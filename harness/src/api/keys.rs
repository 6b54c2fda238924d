//! C01 derivation, C02 signing, C12 signing-key coherence.
use super::{guard, hx, placed};
use crate::gen::{self, Msg, B};
use crate::refed;
use crate::run::{Check, Obs};
use crate::tape::Tape;
use libgoldilocks::goldilocks as g;
use libgoldilocks::{PrehashSigner, SecretKey, Signature, SigningKey, VerifyingKey};
use serde::{Deserialize, Serialize};

pub fn edge_keys() -> Vec<[u8; 57]> {
    use crate::refed::sc;
    let mut v = vec![];
    for top in [0u8, 0x7f, 0x80, 0xff] {
        for fill in [0u8, 0xff, 0x55, 0x01] {
            let mut k = [fill; 57];
            k[56] = top;
            v.push(k);
        }
    }
    for m in 2..5u64 {
        for d in -8..9i64 {
            let mut k = sc::multiple_of_l(m, d);
            k[56] |= 0x80;
            v.push(k);
        }
    }
    for bit in 0..456 {
        let mut k = [0u8; 57];
        k[bit / 8] |= 1 << (bit % 8);
        v.push(k);
        k[56] ^= 0x80;
        v.push(k);
    }
    v
}

pub struct Derive;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KeyCase {
    pub key: B,
}
impl Check for Derive {
    type Case = KeyCase;
    fn name(&self) -> &'static str {
        "derive"
    }
    fn rule(&self) -> &'static str {
        "57-byte keys (uniform, sparse, dense, bit runs, extreme residues mod L, literals of changed source) in both forms through all derivation functions; all count as non-trivial, each compares 6 library results with the reference"
    }
    fn tape_len(&self) -> usize {
        160
    }
    fn budget(&self) -> (u64, u64) {
        (320_000, 4_000_000)
    }
    fn fixed(&self) -> Vec<KeyCase> {
        edge_keys().into_iter().map(|k| KeyCase { key: k.into() }).collect()
    }
    fn gen(&self, t: &mut Tape) -> KeyCase {
        KeyCase { key: gen::key(t).into() }
    }
    fn test(&self, c: &KeyCase, o: &mut Obs) -> Result<(), String> {
        let k = c.key.k();
        o.hit();
        o.class(if refed::is_secret_form(&k) { "secret-form" } else { "private-form" });
        let pp = refed::private_to_public(&k);
        let sp = refed::public_of_scalar(&k);
        let dp = if refed::is_secret_form(&k) { sp } else { pp };
        let eq = |what: &str, got: [u8; 57], want: [u8; 57]| {
            if got == want {
                Ok(())
            } else {
                Err(format!("{what}({}) = {}, RFC 8032 gives {}", hx(&k), hx(&got), hx(&want)))
            }
        };
        eq("ed448_derive_public", g::ed448_derive_public(&k), dp)?;
        eq("private_to_public", g::private_to_public(&k), pp)?;
        eq("secret_to_public", g::secret_to_public(&k), sp)?;
        let s = g::private_to_secret(&k);
        if s[56] & 0x80 == 0 {
            return Err(format!("private_to_secret({}) = {} is not in secret form", hx(&k), hx(&s)));
        }
        eq("ed448_derive_public . private_to_secret", g::ed448_derive_public(&s), pp)?;
        eq("secret_to_public . private_to_secret", g::secret_to_public(&s), pp)
    }
}

pub struct Sign;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SignCase {
    /// 0 ed448_sign, 1 sign_by_private, 2 sign_with_secret_and_nonce
    pub route: u8,
    pub key: B,
    pub nonce: B,
    pub msg: Msg,
}
impl Check for Sign {
    type Case = SignCase;
    fn name(&self) -> &'static str {
        "sign"
    }
    fn rule(&self) -> &'static str {
        "key in either form, message of 0..1 MiB (block boundaries, powers of two, structured content), one of three signing routes, signed twice; non-trivial: the signature was compared byte for byte with the reference"
    }
    fn tape_len(&self) -> usize {
        300
    }
    fn budget(&self) -> (u64, u64) {
        (480_000, 3_600_000)
    }
    fn fixed(&self) -> Vec<SignCase> {
        let mut v = vec![];
        for n in 0..600usize {
            let mut k = crate::tape::Mix(n as u64).vec(57);
            k[56] = (k[56] & 0x7f) | if n % 2 == 0 { 0x80 } else { 0 };
            let route = (n % 3) as u8;
            v.push(SignCase { route, key: B(k.clone()), nonce: B(crate::tape::Mix(n as u64 + 7000).vec(57)), msg: Msg { len: n, pat: B(vec![]), seed: n as u64, put: vec![] } });
        }
        for (i, len) in [65535usize, 65536, 65537, 1 << 20, (1 << 20) + 1, 3 << 20, (1 << 24) + 3].into_iter().enumerate() {
            for route in 0..3 {
                v.push(SignCase { route, key: B(vec![i as u8 + 1; 57]), nonce: B(vec![9; 57]), msg: Msg { len, pat: B(vec![]), seed: 5, put: vec![] } });
            }
        }
        for (i, k) in edge_keys().into_iter().enumerate() {
            if i % 3 == 0 || i < 80 {
                v.push(SignCase { route: if i % 2 == 0 { 0 } else { 2 }, key: k.into(), nonce: k.into(), msg: Msg::of(b"edge") });
            }
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> SignCase {
        let route = t.below(3) as u8;
        let key = gen::key(t);
        let nonce = if route == 2 { gen::bytes57(t) } else { [0; 57] };
        let big = if t.chance(1, 40) { 1 << 20 } else { 1 << 16 };
        let msg = gen::msg_max(t, &[&key, &nonce, &key[..32]], big);
        SignCase { route, key: key.into(), nonce: nonce.into(), msg }
    }
    fn test(&self, c: &SignCase, o: &mut Obs) -> Result<(), String> {
        let k = c.key.k();
        let n = c.nonce.k();
        let m = c.msg.bytes();
        o.hit();
        o.class(format!("route{}", c.route));
        o.class(format!("len<2^{}", 64 - (m.len() as u64).leading_zeros()));
        let pm = placed(&m);
        let (a, b, want) = match c.route {
            0 => (g::ed448_sign(&k, &pm), g::ed448_sign(&k, &m), refed::sign(&k, &m)),
            1 => (g::sign_by_private(&k, &pm), g::sign_by_private(&k, &m), refed::sign_private(&k, &m)),
            _ => (
                g::sign_with_secret_and_nonce(&k, &n, &pm),
                g::sign_with_secret_and_nonce(&k, &n, &m),
                refed::sign_secret_nonce(&k, &n, &m),
            ),
        };
        if a != want {
            return Err(format!("route {} signature {} differs from RFC 8032: {}", c.route, hx(&a), hx(&want)));
        }
        if a != b {
            return Err(format!("second signature differs: {} then {}", hx(&a), hx(&b)));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------- C12
pub struct Mock<'a> {
    pub data: &'a [u8],
    pub pos: usize,
}
impl rand::RngCore for Mock<'_> {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            *x = self.data.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand::CryptoRng for Mock<'_> {}

/// the ways to build a signing key from 57 bytes
pub const BUILD: [&str; 8] =
    ["from_str", "from_slice", "from_bytes", "From<SecretKey::from_bytes>", "From<SecretKey::from_str>", "random", "serde", "serde upper case"];
pub fn build(route: usize, k: &[u8; 57]) -> SigningKey {
    match route % BUILD.len() {
        0 => SigningKey::from_str(&hex::encode(k)),
        1 => SigningKey::from_slice(k),
        2 => SigningKey::from_bytes(k).expect("from_bytes refused 57 bytes"),
        3 => SigningKey::from(SecretKey::from_bytes(k)),
        4 => SecretKey::from_str(&hex::encode(k)).into(),
        5 => SigningKey::random(&mut Mock { data: k, pos: 0 }),
        6 => serde_json::from_str(&format!("\"{}\"", hex::encode(k))).expect("deserialization refused a well-formed key"),
        _ => serde_json::from_str(&format!("\"{}\"", hex::encode_upper(k))).expect("deserialization refused a well-formed key"),
    }
}

pub struct Coherence;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CoCase {
    pub key: B,
    pub other: B,
    /// chain of construction routes, each built from the bytes of the previous key
    pub chain: Vec<u8>,
    pub msg: Msg,
    /// when set, the message is signed by every member of the chain
    pub all: bool,
}
impl Check for Coherence {
    type Case = CoCase;
    fn name(&self) -> &'static str {
        "coherence"
    }
    fn rule(&self) -> &'static str {
        "57 bytes, a second (usually closely related) key, a chain of 1..8 construction routes and a message; non-trivial: at least two different routes were compared"
    }
    fn tape_len(&self) -> usize {
        330
    }
    fn budget(&self) -> (u64, u64) {
        (160_000, 1_280_000)
    }
    fn fixed(&self) -> Vec<CoCase> {
        let mut v = vec![];
        for (i, k) in edge_keys().into_iter().enumerate() {
            let mut o = k;
            o[i % 57] ^= 1 << (i % 8);
            v.push(CoCase { key: k.into(), other: o.into(), chain: (0..8).map(|j| ((i + j) % 8) as u8).collect(), msg: Msg { len: i % 300, pat: B(vec![]), seed: i as u64, put: vec![] }, all: i % 8 == 0 });
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> CoCase {
        let key = gen::key(t);
        let other = if t.chance(3, 4) { gen::related_key(t, &key) } else { gen::key(t) };
        let n = 1 + t.below(6);
        let chain = (0..n).map(|_| t.below(BUILD.len()) as u8).collect();
        let msg = gen::msg_max(t, &[&key, &other], 1 << 15);
        CoCase { key: key.into(), other: other.into(), chain, msg, all: t.chance(1, 8) }
    }
    fn test(&self, c: &CoCase, o: &mut Obs) -> Result<(), String> {
        let k = c.key.k();
        let ok = c.other.k();
        let m = c.msg.bytes();
        let mut uniq = c.chain.clone();
        uniq.sort();
        uniq.dedup();
        if uniq.len() > 1 {
            o.hit();
        }
        let pk = g::ed448_derive_public(&k);
        let sk = SecretKey::from_bytes(&k);
        let vk = VerifyingKey::from_bytes(&pk);
        let mut cur = k;
        let mut prev: Option<SigningKey> = None;
        for (i, r) in c.chain.iter().enumerate() {
            let name = BUILD[*r as usize % BUILD.len()];
            o.class(name);
            let s = build(*r as usize, &cur);
            if s.to_bytes() != k {
                return Err(format!("{name}: to_bytes() = {}, built from {}", hx(&s.to_bytes()), hx(&k)));
            }
            if *s.secret_key() != sk {
                return Err(format!("{name}: secret_key() differs from SecretKey::from_bytes of the same bytes"));
            }
            if s.verifying_key().as_bytes() != pk || *s.verifying_key() != vk {
                return Err(format!("{name}: verifying key {} but derivation gives {}", hx(s.verifying_key().as_bytes()), hx(&pk)));
            }
            if let Some(p) = prev {
                if p != s || !(p == s) {
                    return Err(format!("{name}: not equal to the previous key of the chain"));
                }
            }
            if ok != k {
                let other = build(*r as usize, &ok);
                if other == s {
                    return Err(format!("{name}: keys of different bytes {} and {} are equal", hx(&k), hx(&ok)));
                }
                if *other.secret_key() == *s.secret_key() {
                    return Err(format!("{name}: secret keys of different bytes are equal"));
                }
                if *other.verifying_key() == *s.verifying_key() && g::ed448_derive_public(&ok) != pk {
                    return Err(format!("{name}: verifying keys of different bytes are equal"));
                }
            }
            if i + 1 == c.chain.len() || c.all {
                let before = s;
                let sig: Signature = s.sign_prehash(&placed(&m)).map_err(|e| format!("{name}: sign_prehash failed: {e:?}"))?;
                if before != s {
                    return Err("sign_prehash changed the key".into());
                }
                let mut want = g::ed448_sign(&k, &m).to_vec();
                want.extend_from_slice(&pk);
                if sig.as_slice() != &want[..] {
                    return Err(format!("{name}: sign_prehash gives {} instead of signature || public key {}", hx(sig.as_slice()), hx(&want)));
                }
                o.class("prehash");
            }
            cur = s.to_bytes();
            prev = Some(s);
        }
        let _ = guard(|| ());
        Ok(())
    }
}

// ------------------------------------------------------------- messages beyond 4 GiB (thorough only)
/// lengths that do not fit 32 bits; about 13 GiB of memory
pub struct Huge(pub u8);
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HugeCase {
    pub key: B,
    pub len: u64,
    pub seed: u64,
}
impl Check for Huge {
    type Case = HugeCase;
    fn name(&self) -> &'static str {
        ["huge-sign", "huge-tamper", "huge-verify"][self.0 as usize]
    }
    fn rule(&self) -> &'static str {
        "a message just beyond 4 GiB (thorough only): signed (C02), verified after signing by the reference (C05), or offered with the signature of the part that a 32-bit length would leave and with its last byte changed (C04); every case is non-trivial"
    }
    fn tape_len(&self) -> usize {
        1
    }
    fn budget(&self) -> (u64, u64) {
        (0, 0)
    }
    fn serial(&self) -> bool {
        true
    }
    fn gen(&self, _: &mut Tape) -> HugeCase {
        HugeCase { key: B(vec![3; 57]), len: (1 << 32) + 5, seed: 1 }
    }
    fn fixed(&self) -> Vec<HugeCase> {
        let free = std::fs::read_to_string("/proc/meminfo")
            .ok()
            .and_then(|s| s.lines().find(|l| l.starts_with("MemAvailable:")).and_then(|l| l.split_whitespace().nth(1)?.parse::<u64>().ok()))
            .unwrap_or(0);
        if !crate::run::plain_pass() || free < 22 << 20 {
            return vec![];
        }
        let mut k = crate::tape::Mix(77).vec(57);
        k[56] &= 0x7f;
        let mut l = k.clone();
        l[56] |= 0x80;
        vec![HugeCase { key: B(k), len: (1 << 32) + 5, seed: 1 }, HugeCase { key: B(l), len: (1 << 32) + 70_001, seed: 2 }]
    }
    fn test(&self, c: &HugeCase, o: &mut Obs) -> Result<(), String> {
        let k = c.key.k();
        o.hit();
        let mut m = crate::tape::Mix(c.seed).vec(c.len as usize);
        let pk = refed::derive_public(&k);
        match self.0 {
            0 => {
                let (got, want) = std::thread::scope(|s| {
                    let r = s.spawn(|| refed::sign(&k, &m));
                    (g::ed448_sign(&k, &m), r.join().unwrap())
                });
                if got != want {
                    return Err(format!("signature {} of {} bytes differs from RFC 8032: {}", hx(&got), c.len, hx(&want)));
                }
            }
            1 => {
                let cut = (c.len & 0xffff_ffff) as usize;
                if let Ok(true) = g::ed448_verify(&pk, &refed::sign(&k, &m[..cut]), &m) {
                    return Err(format!("the signature of the first {cut} of {} bytes is accepted for all", c.len));
                }
                let s = refed::sign(&k, &m);
                *m.last_mut().unwrap() ^= 1;
                if let Ok(true) = g::ed448_verify(&pk, &s, &m) {
                    return Err(format!("a change of the last of {} bytes is not noticed", c.len));
                }
            }
            _ => {
                let s = refed::sign(&k, &m);
                if g::ed448_verify(&pk, &s, &m) != Ok(true) {
                    return Err(format!("the RFC 8032 signature of {} bytes is refused", c.len));
                }
            }
        }
        Ok(())
    }
}
