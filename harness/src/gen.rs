//! Shared generators: keys, messages, scalars, adversarial verification inputs.
use crate::dict;
use crate::refed::{self, sc, sc::Sc, Point};
use crate::tape::{Mix, Tape};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// bytes shown as hex in samples and replay files
#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
pub struct B(pub Vec<u8>);
impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex::encode(&self.0))
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        hex::decode(s).map(B).map_err(serde::de::Error::custom)
    }
}
impl From<&[u8]> for B {
    fn from(b: &[u8]) -> B {
        B(b.to_vec())
    }
}
impl<const N: usize> From<[u8; N]> for B {
    fn from(b: [u8; N]) -> B {
        B(b.to_vec())
    }
}
impl B {
    pub fn k(&self) -> [u8; 57] {
        self.0[..].try_into().expect("57 bytes")
    }
}

/// A message, described compactly so that long ones can be shrunk and replayed.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Msg {
    pub len: usize,
    /// repeated pattern; when empty, a pseudo-random stream from `seed`
    pub pat: B,
    pub seed: u64,
    /// (position, bytes) overlaid in order, clipped to the length
    pub put: Vec<(usize, B)>,
}
impl Msg {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = if self.pat.0.is_empty() {
            Mix(self.seed).vec(self.len)
        } else {
            self.pat.0.iter().copied().cycle().take(self.len).collect()
        };
        for (p, b) in &self.put {
            for (i, x) in b.0.iter().enumerate() {
                if p + i < v.len() {
                    v[p + i] = *x;
                }
            }
        }
        v
    }
    pub fn of(b: &[u8]) -> Msg {
        Msg { len: b.len(), pat: if b.is_empty() { B(vec![0]) } else { b.into() }, seed: 0, put: vec![] }
    }
}

pub fn dict_int(t: &mut Tape) -> Option<u64> {
    let d = dict::get();
    if d.ints.is_empty() || t.chance(1, 16) {
        if d.old_ints.is_empty() {
            return None;
        }
        return Some(d.old_ints[t.below(d.old_ints.len())]);
    }
    if d.derived.is_empty() || !t.chance(1, 4) {
        Some(d.ints[t.below(d.ints.len())])
    } else {
        Some(d.derived[t.below(d.derived.len())])
    }
}
/// a value near a literal of the changed source, below `lim`
pub fn dict_near(t: &mut Tape, lim: usize) -> Option<usize> {
    let v = dict_int(t)?;
    let v = match t.below(6) {
        0 | 1 | 2 => v,
        3 => v.wrapping_add(1),
        4 => v.wrapping_sub(1),
        _ => v.wrapping_add(t.below(64) as u64),
    };
    if (v as u128) < lim as u128 {
        Some(v as usize)
    } else {
        None
    }
}

/// Overwrites parts of buf with values taken from the changed source, or with related bytes.
pub fn inject(t: &mut Tape, buf: &mut [u8]) {
    if buf.is_empty() {
        return;
    }
    let d = dict::get();
    let n = buf.len();
    for _ in 0..1 + t.below(4) {
        let pos = match t.below(5) {
            0 => 0,
            1 => n - 1,
            2 => t.below(n),
            _ => dict_near(t, n).unwrap_or(0),
        };
        match t.below(6) {
            0 | 1 => {
                let v = dict_int(t).unwrap_or(t.u8() as u64);
                buf[pos] = v as u8;
            }
            2 | 3 => {
                let v = dict_int(t).unwrap_or(t.u64());
                let w = t.pick(&[2usize, 4, 8]);
                let mut b = v.to_le_bytes()[..w].to_vec();
                if t.chance(1, 2) {
                    b.reverse();
                }
                let pos = if t.chance(1, 2) { pos.min(n.saturating_sub(w)) } else { n.saturating_sub(w) };
                for (i, x) in b.iter().enumerate() {
                    if pos + i < n {
                        buf[pos + i] = *x;
                    }
                }
            }
            4 if !d.blobs.is_empty() || !d.old_blobs.is_empty() => {
                let bs = if d.blobs.is_empty() || (!d.old_blobs.is_empty() && t.chance(1, 4)) { &d.old_blobs } else { &d.blobs };
                let bl = &bs[t.below(bs.len())];
                let pos = match t.below(3) {
                    0 => 0,
                    1 => n.saturating_sub(bl.len()),
                    _ => pos,
                };
                for (i, x) in bl.iter().enumerate() {
                    if pos + i < n {
                        buf[pos + i] = *x;
                    }
                }
            }
            _ => {
                let q = t.below(n);
                buf[pos] = buf[q];
            }
        }
    }
}

fn dict_weight() -> (usize, usize) {
    if dict::get().is_empty() {
        (1, 16)
    } else {
        (2, 5)
    }
}

/// 57 structured bytes, no particular meaning
pub fn bytes57(t: &mut Tape) -> [u8; 57] {
    let mut k = [0u8; 57];
    match t.below(10) {
        9 => {
            // begins or ends like something that is hashed elsewhere
            k = t.arr57();
            let w: &[u8] = t.pick(&[&b"SigEd448"[..], &b"SigEd448\0\0"[..], &b"SigEd448\x01\0"[..], &b"\0\0"[..], &b"Ed448"[..]]);
            let at = if t.chance(2, 3) { 0 } else { 57 - w.len() };
            k[at..at + w.len()].copy_from_slice(w);
        }
        0 => {
            // sparse
            for _ in 0..1 + t.below(4) {
                let p = t.below(57);
                k[p] = t.u8();
            }
        }
        1 => k = [t.u8(); 57],
        2 => {
            // dense ones
            k = [0xff; 57];
            for _ in 0..t.below(4) {
                let p = t.below(57);
                k[p] = t.u8();
            }
        }
        3 => {
            // runs of equal bits
            let mut pos = 0;
            let mut bit = t.below(2) as u8;
            while pos < 456 {
                let run = 1 + match t.below(3) {
                    0 => t.below(8),
                    1 => t.below(40),
                    _ => t.below(200),
                };
                for i in pos..(pos + run).min(456) {
                    k[i / 8] |= bit << (i % 8);
                }
                pos += run;
                bit ^= 1;
            }
        }
        4 => {
            // 32-bit words from a small set
            for w in k.chunks_mut(4) {
                let v = t.pick(&[0u32, 1, 0xffffffff, 0x80000000, 0x7fffffff, 0xfffffffe, 0x10000000, 0x0fffffff, 0x55555555, 0xaaaaaaaa]);
                let v = if t.chance(1, 5) { t.u32() } else { v };
                w.copy_from_slice(&v.to_le_bytes()[..w.len()]);
            }
        }
        _ => k = t.arr57(),
    }
    let (a, b) = dict_weight();
    if a > 0 && t.chance(a, b) {
        inject(t, &mut k);
    }
    k
}

/// value of a secret-form key (bit 447 set, low two bits clear) congruent to an extreme residue
fn special_secret(t: &mut Tape) -> [u8; 57] {
    let mut k = match t.below(6) {
        0 => sc::multiple_of_l(4, 0),
        1 => sc::multiple_of_l(4, 4 * (t.below(64) as i64)),
        2 => sc::multiple_of_l(4, -4 * (t.below(64) as i64)),
        3 => sc::multiple_of_l(3, 4 * (t.below(64) as i64) - 1),
        4 => {
            let s = special_scalar(t);
            sc::add_multiple_of_l(&s, 2 + t.below(2) as u64).unwrap()
        }
        _ => {
            let mut b = [0u8; 57];
            let p = t.below(448);
            b[p / 8] |= 1 << (p % 8);
            b
        }
    };
    k[56] |= 0x80;
    if t.chance(1, 3) {
        k[56] |= t.u8();
    }
    k
}

/// 57-byte library key in either form
pub fn key(t: &mut Tape) -> [u8; 57] {
    match t.below(8) {
        0 | 1 => t.arr57(),
        2 => {
            let mut k = t.arr57();
            k[56] |= 0x80;
            k
        }
        3 => special_secret(t),
        4 => {
            let mut k = bytes57(t);
            k[56] |= 0x80;
            k
        }
        5 => {
            let mut k = bytes57(t);
            k[56] &= 0x7f;
            k
        }
        _ => bytes57(t),
    }
}

/// a key that shares a lot with k
pub const COLLISIONS: usize = 28;
/// Changes a string so that some weak digest of it (sum, XOR, CRC, polynomial hash ...) stays the same.
pub fn collide(kind: usize, at: usize, b: &mut [u8]) {
    let n = b.len();
    if n < 12 {
        if n >= 2 {
            b.swap(at % n, n - 1 - at % n);
        }
        return;
    }
    let p = at % (n - 10);
    let d = 1 + at / n % (n - p - 1);
    let m = 1u8 << (at / 7 % 8);
    // + and - without wrapping, so that wide sums stay the same as well
    let shift = |b: &mut [u8], w: &[(usize, i32)]| {
        for sign in [1, -1] {
            if w.iter().all(|(i, x)| (0..256).contains(&(b[*i] as i32 + sign * x))) {
                w.iter().for_each(|(i, x)| b[*i] = (b[*i] as i32 + sign * x) as u8);
                return;
            }
        }
    };
    let poly = |b: &mut [u8], bits: u128, msb: bool| {
        let off = p * 8 + at / 11 % 8;
        for i in 0..80 {
            let q = off + i;
            if bits >> i & 1 == 1 && q < n * 8 {
                b[q / 8] ^= if msb { 0x80 >> (q % 8) } else { 1 << (q % 8) };
            }
        }
    };
    let rev = |x: u128, n: u32| x.reverse_bits() >> (128 - n);
    match kind % COLLISIONS {
        0 => b.swap(p, p + d),
        1 => b.swap(p, p + 1),
        k @ 2..=5 => {
            let d = [1, 4, 8, d][k - 2];
            b[p] ^= m;
            b[p + d] ^= m;
        }
        6 => shift(b, &[(p, 1), (p + d, -1)]),
        7 => shift(b, &[(p, 1), (p + 1, -2), (p + 2, 1)]),
        8 => shift(b, &[(p, 1), (p + 1, -1), (p + 2, -1), (p + 3, 1)]),
        k @ 9..=15 => shift(b, &[(p, 1), (p + 1, -[31, 33, 37, 65, 101, 131, 137][k - 9])]),
        // CRC-32, CRC-32C, CRC-64, CRC-16 (IBM, CCITT), CRC-8: the generator polynomial, least significant bit first
        16 => poly(b, 1 | 0xedb88320 << 1, false),
        17 => poly(b, 1 | 0x82f63b78 << 1, false),
        18 => poly(b, 1 | 0xc96c5795d7870f42 << 1, false),
        19 => poly(b, 1 | 0xa001 << 1, false),
        20 => poly(b, rev(0x11021, 17), true),
        21 => poly(b, rev(0x104c11db7, 33), true),
        22 => poly(b, rev(0x107, 9), true),
        23 => b.rotate_left(1 + at % (n - 1)),
        24 => {
            let q = n - n % 8;
            if q >= 16 {
                let (x, y) = (at % (q / 8), at / 5 % (q / 8));
                for i in 0..8 {
                    b.swap(x * 8 + i, y * 8 + i);
                }
            }
        }
        k => {
            // (acc rotated left by r) ^ byte
            let r = [1, 3, 5][k - 25];
            let m = 1 + (at / 7) as u8 % (255 >> r);
            b[p] ^= m;
            b[p + 1] ^= m << r;
        }
    }
}

pub fn related_key(t: &mut Tape, k: &[u8; 57]) -> [u8; 57] {
    let mut r = *k;
    match t.below(10) {
        7 | 8 | 9 => collide(t.below(COLLISIONS), t.below(1 << 16), &mut r),
        0 => r[56] ^= 0x80,
        1 => {
            let p = t.below(456);
            r[p / 8] ^= 1 << (p % 8)
        }
        2 => {
            let p = t.below(57);
            let n = t.arr57();
            r[p..].copy_from_slice(&n[p..])
        }
        3 => {
            let p = t.below(57);
            let n = t.arr57();
            r[..p].copy_from_slice(&n[..p])
        }
        4 => r.reverse(),
        5 => r = refed::private_to_secret(k),
        _ => {
            let p = t.below(57);
            r[p] = r[p].wrapping_add(1)
        }
    }
    r
}

pub fn special_scalar(t: &mut Tape) -> Sc {
    match t.below(9) {
        0 => Sc::from_u64(t.below(40) as u64),
        1 => Sc::from_u64(1 + t.below(40) as u64).neg(),
        2 => {
            let p = t.below(446);
            let mut b = [0u8; 57];
            b[p / 8] = 1 << (p % 8);
            let s = Sc::reduce(&b);
            match t.below(3) {
                0 => s,
                1 => s.add(sc::ONE),
                _ => s.sub(sc::ONE),
            }
        }
        3 => {
            let mut s = sc::ONE;
            for _ in 0..1 + t.below(3) {
                s = s.halve();
            }
            s
        }
        4 => Sc::reduce(&[t.u8(); 57]),
        5 | 6 => Sc::reduce(&bytes57(t)),
        7 => {
            // sparse signed digits
            let mut s = sc::ZERO;
            for _ in 0..1 + t.below(4) {
                let p = t.below(446);
                let mut b = [0u8; 57];
                b[p / 8] = 1 << (p % 8);
                let v = Sc::reduce(&b).mul(Sc::from_u64(1 + t.below(31) as u64));
                s = if t.chance(1, 2) { s.sub(v) } else { s.add(v) };
            }
            s
        }
        _ => Sc::reduce(&t.arr57()),
    }
}
pub fn scalar(t: &mut Tape) -> Sc {
    if t.chance(1, 2) {
        special_scalar(t)
    } else {
        Sc::reduce(&t.arr57())
    }
}

pub fn msg_len(t: &mut Tape, max_big: usize) -> usize {
    let (a, b) = dict_weight();
    if t.chance(a, b) {
        let lim = if max_big >= 1 << 15 && t.chance(1, 40) { 1 << 23 } else { 1 << 17 };
        if let Some(v) = dict_near(t, lim + 1) {
            return v;
        }
    }
    match t.below(16) {
        0 => t.below(5),
        1 => t.pick(&[32usize, 57, 64, 114, 43, 171, 56, 58, 31, 33]),
        2 => {
            // SHAKE256 block boundaries behind the 67- and 124-byte headers, and the plain rate
            let k = 1 + t.below(8);
            let h = t.pick(&[67usize, 124, 0, 57, 114, 10]);
            (136 * k + t.below(5)).saturating_sub(h + 2)
        }
        3 => ((1usize << t.below(13)) + t.below(3)).saturating_sub(1),
        4 => t.below(2049),
        5 => {
            if t.chance(1, 2) {
                t.pick(&[100usize, 128, 200, 250, 255, 256, 257, 300, 500, 512, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 5000])
            } else {
                t.below(600)
            }
        }
        6 => {
            if max_big > 0 && t.chance(1, 6) {
                match t.below(4) {
                    0 => ((1usize << (13 + t.below(5))) + t.below(3)).saturating_sub(1),
                    1 => t.pick(&[8192usize, 10000, 16384, 20000, 32768, 50000, 65535, 65536, 65537, 100000]),
                    2 => 8192 + t.below(60000),
                    _ => t.below(max_big + 1),
                }
            } else {
                t.below(300)
            }
        }
        7 => t.below(137),
        _ => t.below(200),
    }
}

/// text a person or a program might sign
pub fn text(t: &mut Tape) -> Vec<u8> {
    let words: [&str; 22] = [
        "transfer", "100", "to", "Alice", "BOB", "ok", "0x", "deadBEEF", "0123456789abcdef", "\n", "\r\n", "\t", " ", "  ", "\0", "{\"a\": 1}", "caf\u{e9}", "\u{feff}",
        "c3RyaW5nIQ==", "%20", ".", "ed448",
    ];
    let mut v = vec![];
    for _ in 0..t.below(8) {
        v.extend_from_slice(words[t.below(words.len())].as_bytes());
        if t.chance(1, 2) {
            v.push(b' ');
        }
    }
    match t.below(8) {
        0 => v = hex::encode(&v).into_bytes(),
        1 => v.push(b'\n'),
        2 => {
            let n = t.pick(&[20usize, 28, 32, 32, 48, 57, 64]);
            v = hex::encode(t.bytes(n)).into_bytes()
        }
        _ => {}
    }
    v
}
/// Number of message transformations below.
pub const MAPS: usize = 48;
/// What careless code might treat as the same message.
pub fn map_msg(i: usize, m: &[u8]) -> Vec<u8> {
    let app = |b: &[u8]| -> Vec<u8> { [m, b].concat() };
    let pre = |b: &[u8]| -> Vec<u8> { [b, m].concat() };
    let strip = |f: &dyn Fn(u8) -> bool, front: bool, back: bool| -> Vec<u8> {
        let mut s = m;
        while back && !s.is_empty() && f(s[s.len() - 1]) {
            s = &s[..s.len() - 1];
        }
        while front && !s.is_empty() && f(s[0]) {
            s = &s[1..];
        }
        s.to_vec()
    };
    let ws = |b: u8| b.is_ascii_whitespace();
    let repl = |a: &[u8], b: &[u8]| -> Vec<u8> {
        let mut v = vec![];
        let mut i = 0;
        while i < m.len() {
            if m[i..].starts_with(a) {
                v.extend_from_slice(b);
                i += a.len();
            } else {
                v.push(m[i]);
                i += 1;
            }
        }
        v
    };
    let shake = |n: usize| -> Vec<u8> {
        let mut o = vec![0; n];
        refed::keccak::shake256(&[m], &mut o);
        o
    };
    match i {
        0 => app(b"\n"),
        1 => app(b"\r\n"),
        2 => app(b" "),
        3 => app(b"\0"),
        4 => app(b"\x80"),
        5 => app(b"\x1f"),
        6 => app(&m.len().to_le_bytes()),
        7 => app(m),
        8 => pre(b"\0"),
        9 => pre(b"\xef\xbb\xbf"),
        10 => pre(refed::DOM),
        11 => pre(b"0x"),
        12 => pre(&[m.len() as u8]),
        13 => pre(&(m.len() as u32).to_be_bytes()),
        14 => pre(b"\n"),
        15 => strip(&ws, false, true),
        16 => strip(&ws, true, false),
        17 => strip(&ws, true, true),
        18 => strip(&|b| b == 0, false, true),
        19 => strip(&|b| b == 0, true, false),
        20 => strip(&|b| b == b'\n' || b == b'\r', false, true),
        21 => m.strip_prefix(b"0x").unwrap_or(m).to_vec(),
        22 => m.strip_prefix(b"\xef\xbb\xbf").unwrap_or(m).to_vec(),
        23 => m.to_ascii_lowercase(),
        24 => m.to_ascii_uppercase(),
        25 => repl(b"\r\n", b"\n"),
        26 => repl(b"\n", b"\r\n"),
        27 => repl(b" ", b""),
        28 => repl(b"\0", b""),
        29 => repl(b"  ", b" "),
        30 => hex::encode(m).into_bytes(),
        31 => hex::encode_upper(m).into_bytes(),
        32 => hex::decode(m).unwrap_or_else(|_| m.to_vec()),
        33 => hex::decode(m.strip_prefix(b"0x").unwrap_or(m)).unwrap_or_else(|_| m.to_vec()),
        34 => m.iter().rev().copied().collect(),
        35 => shake(32),
        36 => shake(64),
        37 => shake(57),
        38 => shake(114),
        39 => m.iter().map(|b| b & 0x7f).collect(),
        40 => m[..m.len().min(32)].to_vec(),
        41 => m[..m.len().min(64)].to_vec(),
        42 => {
            let mut v = m.to_vec();
            v.resize(v.len().max(32), 0);
            v
        }
        43 => {
            let mut v = m.to_vec();
            let n = (v.len() + 135) / 136 * 136;
            v.resize(n, 0);
            v
        }
        44 => String::from_utf8_lossy(m).into_owned().into_bytes(),
        45 => m.split(|b| *b == 0).next().unwrap_or(&[]).to_vec(),
        46 => m.iter().map(|b| !b).collect(),
        _ => {
            let mut v = m.to_vec();
            if !v.is_empty() {
                v.pop();
            }
            v
        }
    }
}

pub fn msg(t: &mut Tape, ctx: &[&[u8]]) -> Msg {
    msg_max(t, ctx, 1 << 17)
}
pub fn msg_max(t: &mut Tape, ctx: &[&[u8]], max_big: usize) -> Msg {
    if t.chance(1, 10) {
        return Msg::of(&text(t));
    }
    if t.chance(1, 14) {
        if let Some(k) = ctx.first().and_then(|c| <[u8; 57]>::try_from(*c).ok()) {
            // made of the key's own material
            let piece = |t: &mut Tape| match t.below(9) {
                0 | 1 | 2 => refed::derive_public(&k).to_vec(),
                3 => refed::private_to_secret(&k).to_vec(),
                4 => refed::clamp(&k).to_vec(),
                5 => hex::encode(if t.chance(1, 2) { refed::derive_public(&k) } else { k }).into_bytes(),
                6 => refed::DOM.to_vec(),
                7 => text(t),
                _ => ctx[t.below(ctx.len())].to_vec(),
            };
            let mut v = piece(t);
            if t.chance(1, 3) {
                v.extend(piece(t));
            }
            if t.chance(1, 8) {
                v.truncate(t.below(v.len() + 1));
            }
            return Msg::of(&v);
        }
    }
    let len = msg_len(t, max_big);
    let mut m = Msg { len, pat: B(vec![]), seed: 0, put: vec![] };
    match t.below(8) {
        0 => m.pat = B(vec![0]),
        1 => m.pat = B(vec![0xff]),
        2 => m.pat = B(vec![t.u8()]),
        3 => {
            let n = 1 + t.below(9);
            m.pat = B(t.bytes(n))
        }
        4 => {
            m.pat = B(refed::DOM.to_vec());
        }
        5 if !ctx.is_empty() => {
            let c = ctx[t.below(ctx.len())];
            m.pat = if c.is_empty() { B(vec![0]) } else { B(c.to_vec()) };
        }
        _ => m.seed = t.u64(),
    }
    for _ in 0..t.below(3) {
        let p = msg_pos(t, len);
        let n = 1 + t.below(4);
        m.put.push((p, B(t.bytes(n))));
    }
    let (a, b) = dict_weight();
    if a > 0 && len > 0 && t.chance(a, b) {
        // injected values are kept as overlays so that the message stays compact
        let old = m.bytes();
        let mut new = old.clone();
        inject(t, &mut new);
        let mut i = 0;
        while i < len {
            if new[i] != old[i] {
                let st = i;
                while i < len && new[i] != old[i] {
                    i += 1;
                }
                m.put.push((st, B(new[st..i].to_vec())));
            } else {
                i += 1;
            }
        }
    }
    m
}
pub fn msg_pos(t: &mut Tape, len: usize) -> usize {
    if len == 0 {
        return 0;
    }
    match t.below(7) {
        0 => 0,
        1 => len - 1,
        2 => len.saturating_sub(1 + t.below(16)),
        3 => t.below(16).min(len - 1),
        4 => ((1usize << t.below(18)) + t.below(3)).saturating_sub(1).min(len - 1),
        5 => dict_near(t, len).unwrap_or(0),
        _ => t.below(len),
    }
}

// ---------------------------------------------------------------- points and verification inputs

/// r*B + T_i
pub fn point_rt(r: &Sc, i: usize) -> Point {
    let p = refed::mul_base(r);
    if i & 3 == 0 {
        p
    } else {
        p.add(&refed::torsion(i))
    }
}

/// 57 bytes at or around the set of valid encodings; mostly with unusual y
pub fn weird_encoding(t: &mut Tape) -> [u8; 57] {
    let mut b = [0u8; 57];
    match t.below(11) {
        0 => {
            // small y
            let v = t.below(600) as u64;
            b[..8].copy_from_slice(&v.to_le_bytes());
        }
        1 => {
            // p + delta, p - delta
            let d = t.below(600) as i64;
            b = p_plus(if t.chance(1, 2) { -d } else { d });
        }
        2 => {
            // structured limbs: 28-bit pieces from a small set
            for i in 0..16 {
                let v: u32 = match t.below(6) {
                    0 => 0,
                    1 => 0xfffffff,
                    2 => 0xffffffe,
                    3 => 1 << t.below(28),
                    4 => t.below(4) as u32,
                    _ => t.u32() & 0xfffffff,
                };
                put_limb(&mut b, i, v);
            }
        }
        3 => {
            // all-ones limbs above, something small below, and the other way round
            let c = t.below(17);
            for i in 0..16 {
                put_limb(&mut b, i, if i < c { 0xfffffff } else { 0 });
            }
            if t.chance(1, 2) {
                for x in b[..56].iter_mut() {
                    *x ^= 0xff;
                }
            }
            if t.chance(1, 2) {
                let i = t.below(16);
                put_limb(&mut b, i, t.u32() & 0xfffffff);
            }
        }
        4 => {
            // values around p with one limb disturbed
            b = p_plus(0);
            let i = t.below(16);
            let v = match t.below(4) {
                0 => 0xffffffd,
                1 => 0xffffffe,
                2 => 0xfffffff,
                _ => t.u32() & 0xfffffff,
            };
            put_limb(&mut b, i, v);
            if t.chance(1, 3) {
                let i = t.below(16);
                put_limb(&mut b, i, t.u32() & 0xfffffff);
            }
        }
        5 => {
            let i = t.below(4);
            b = refed::torsion(i).encode();
        }
        6 => b = point_rt(&scalar(t), t.below(4)).encode(),
        7 => b = NEAR.with(|n| if n.is_empty() { [0; 57] } else { n[t.below(n.len())] }),
        8 => b = bytes57(t),
        9 => {
            // top limbs small or zero, rest random
            b = t.arr57();
            let z = t.below(30);
            for x in b[56 - z..56].iter_mut() {
                *x = 0;
            }
        }
        _ => {
            b = t.arr57();
        }
    }
    match t.below(8) {
        0 => b[56] = 0,
        1 => b[56] = 0x80,
        2 => b[56] ^= 0x80,
        3 => b[56] ^= 1 << t.below(8),
        4 => b[56] &= 0x80,
        5 => b[56] &= 0x80,
        6 => {
            // add p when there is room
            if let Some(x) = add_p(&b) {
                b = x
            }
        }
        _ => {}
    }
    b
}

pub fn put_limb(b: &mut [u8; 57], i: usize, v: u32) {
    for k in 0..28 {
        let bit = 28 * i + k;
        b[bit / 8] &= !(1 << (bit % 8));
        b[bit / 8] |= (((v >> k) & 1) as u8) << (bit % 8);
    }
}
/// p + d as 56 little-endian bytes (wrapping at 2^448)
pub fn p_plus(d: i64) -> [u8; 57] {
    let mut b = [0xffu8; 57];
    b[28] = 0xfe;
    b[56] = 0;
    let mut c = d as i128;
    for x in b[..56].iter_mut() {
        c += *x as i128;
        *x = c as u8;
        c >>= 8;
    }
    b
}
/// the same residue, plus p; None if it does not fit in 448 bits
pub fn add_p(b: &[u8; 57]) -> Option<[u8; 57]> {
    let p = p_plus(0);
    let mut o = *b;
    let mut c = 0u32;
    for i in 0..56 {
        c += b[i] as u32 + p[i] as u32;
        o[i] = c as u8;
        c >>= 8;
    }
    if c == 0 {
        Some(o)
    } else {
        None
    }
}

thread_local! {
    pub static NEAR: Vec<[u8; 57]> = nearmiss().iter().map(|x| x.1).collect();
}
/// off-curve encodings whose curve-equation residual lives in one limb of the decoder's comparison
pub fn nearmiss() -> Vec<(usize, [u8; 57])> {
    let t = std::fs::read_to_string(format!("{}/corpus/nearmiss.txt", dict::verif_root())).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let (a, b) = l.split_once(' ')?;
            Some((a.parse().ok()?, hex::decode(b.trim()).ok()?.try_into().ok()?))
        })
        .collect()
}

/// a verification input
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VCase {
    pub label: String,
    pub pk: B,
    pub sig: B,
    pub msg: Msg,
    /// 0: both verification functions, 1: boolean, 2: error-returning
    pub f: u8,
}

/// 57 bytes for S: honest s, and how to disguise it
pub fn s_variant(t: &mut Tape, s: &Sc) -> ([u8; 57], &'static str) {
    match t.below(10) {
        0 => {
            let m = 1 + t.below(4) as u64;
            (sc::add_multiple_of_l(s, m).unwrap_or(s.to_bytes()), "s+mL")
        }
        1 => {
            let m = 1 + t.below(1023) as u64;
            (sc::add_multiple_of_l(s, m).unwrap_or(s.to_bytes()), "s+mL")
        }
        2 => {
            let mut b = s.to_bytes();
            let p = t.below(456);
            b[p / 8] ^= 1 << (p % 8);
            (b, "s-bitflip")
        }
        3 => (special_scalar(t).to_bytes(), "s-special"),
        4 => (s.neg().to_bytes(), "s-negated"),
        5 => (sc::multiple_of_l(t.below(5) as u64, t.below(9) as i64 - 4), "s-near-mL"),
        6 => (bytes57(t), "s-structured"),
        _ => (s.to_bytes(), "s-honest"),
    }
}
fn enc_variant(t: &mut Tape, p: &Point) -> ([u8; 57], &'static str) {
    let e = p.encode();
    match t.below(14) {
        0 => (p.neg().encode(), "negated"),
        1 => {
            let mut e = e;
            e[56] ^= 1 << t.below(7);
            (e, "spare-bit")
        }
        2 => {
            let mut e = e;
            let b = t.below(448);
            e[b / 8] ^= 1 << (b % 8);
            (e, "y-bitflip")
        }
        3 => match add_p(&e) {
            Some(x) => (x, "y+p"),
            None => (e, "honest-enc"),
        },
        4 => {
            let mut e = e;
            e[56] ^= 0x80;
            (e, "sign-flip")
        }
        _ => (e, "honest-enc"),
    }
}

/// 57x2 bytes and message only an attacker (or nobody) would send
pub fn vcase(t: &mut Tape) -> VCase {
    let f = t.below(3) as u8;
    let mut lab = String::new();
    match t.below(12) {
        0 => {
            // honest
            let k = key(t);
            let m = msg_max(t, &[&k], 1 << 14);
            let pk = refed::derive_public(&k);
            let sig = refed::sign(&k, &m.bytes());
            VCase { label: "honest".into(), pk: pk.into(), sig: sig.into(), msg: m, f }
        }
        1 => {
            // weird key or R, rest plausible
            let a = scalar(t);
            let m = msg_max(t, &[], 1 << 12);
            let mut pk = refed::mul_base(&a).encode();
            let mut r = pk;
            let s = scalar(t).to_bytes();
            let which = t.below(3);
            if which != 1 {
                pk = weird_encoding(t);
                lab += "weird-A ";
            }
            if which != 0 {
                r = weird_encoding(t);
                lab += "weird-R ";
            }
            VCase { label: lab, pk: pk.into(), sig: cat(&r, &s), msg: m, f }
        }
        2 => {
            // small-order key: any S with R = S*B (+ torsion) satisfies the cofactored equation
            let i = t.below(4);
            let a = refed::torsion(i);
            let (pk, l1) = enc_variant(t, &a);
            let s = scalar(t);
            let r = point_rt(&s, t.below(4));
            let (rb, l2) = enc_variant(t, &r);
            let (sb, l3) = s_variant(t, &s);
            let m = msg_max(t, &[], 1 << 12);
            VCase { label: format!("small-order-A {l1} {l2} {l3}"), pk: pk.into(), sig: cat(&rb, &sb), msg: m, f }
        }
        3 => {
            // unstructured but decodable by chance
            let pk = weird_encoding(t);
            let r = weird_encoding(t);
            let s = bytes57(t);
            let m = msg_max(t, &[], 1 << 12);
            VCase { label: "unstructured".into(), pk: pk.into(), sig: cat(&r, &s), msg: m, f }
        }
        _ => {
            // A = aB + T_i, R = rB + T_j, S solves the equation (before disguises)
            let a = scalar(t);
            let i = if t.chance(1, 2) { t.below(4) } else { 0 };
            let ap = point_rt(&a, i);
            let (pk, l1) = enc_variant(t, &ap);
            let r = scalar(t);
            let j = if t.chance(1, 2) { t.below(4) } else { 0 };
            let rp = point_rt(&r, j);
            let (rb, l2) = enc_variant(t, &rp);
            let m = msg_max(t, &[&pk, &rb], 1 << 14);
            // the challenge may be computed over the bytes sent, or over the honest encodings
            let (ca, cr, l4) = match t.below(6) {
                0 => (ap.encode(), rb, "k(honest A)"),
                1 => (pk, rp.encode(), "k(honest R)"),
                2 => (point_rt(&a, 0).encode(), rb, "k(A without torsion)"),
                3 => (pk, point_rt(&r, 0).encode(), "k(R without torsion)"),
                _ => (pk, rb, "k(as sent)"),
            };
            let mb = m.bytes();
            let (k, l5) = match t.below(24) {
                // challenges of other messages, orders and domains than the standard's
                0 | 1 => (refed::challenge(&cr, &ca, &map_msg(t.below(MAPS), &mb)), " other message"),
                2 => (refed::challenge(&ca, &cr, &mb), " A before R"),
                3 => {
                    let dom: &[u8] = t.pick(&[&b""[..], &b"SigEd448\x01\0"[..], &b"SigEd448\0\x01x"[..], &b"SigEd448"[..], &b"SigEd448\0"[..], &b"SigEd25519 no Ed25519 collisions"[..]]);
                    let mut h = [0u8; 114];
                    refed::keccak::shake256(&[dom, &cr, &ca, &mb], &mut h);
                    (Sc::reduce(&h), " other domain")
                }
                4 => {
                    let mut h = [0u8; 64];
                    refed::keccak::shake256(&[&mb], &mut h);
                    let mut o = [0u8; 114];
                    refed::keccak::shake256(&[b"SigEd448\x01\0", &cr, &ca, &h], &mut o);
                    (Sc::reduce(&o), " Ed448ph")
                }
                _ => (refed::challenge(&cr, &ca, &mb), ""),
            };
            let s = r.add(k.mul(a));
            let (sb, l3) = s_variant(t, &s);
            VCase { label: format!("A=aB+T{i} R=rB+T{j} {l1} {l2} {l3} {l4}{l5}"), pk: pk.into(), sig: cat(&rb, &sb), msg: m, f }
        }
    }
}

pub fn cat(a: &[u8], b: &[u8]) -> B {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    B(v)
}

/// verification input of arbitrary lengths
pub fn vcase_any_len(t: &mut Tape) -> VCase {
    let mut v = vcase(t);
    if t.chance(1, 3) {
        return v;
    }
    let relen = |t: &mut Tape, b: &mut Vec<u8>, full: usize| {
        let n = match t.below(8) {
            0 => t.pick(&[0usize, 1, 56, 57, 58, 113, 114, 115, 170, 171, 172, 228]),
            1 => (full + t.below(5)).saturating_sub(2),
            2 => t.below(2 * full + 3),
            3 => t.below(full),
            4 => full + t.below(200),
            5 => dict_near(t, 5000).unwrap_or(2 * full),
            6 => t.below(3000),
            _ => full,
        };
        let fill = match t.below(3) {
            0 => 0,
            1 => 0xff,
            _ => t.u8(),
        };
        b.resize(n, fill);
        if t.chance(1, 6) {
            for x in b.iter_mut() {
                *x = 0;
            }
        }
    };
    match t.below(4) {
        0 => relen(t, &mut v.pk.0, 57),
        1 => relen(t, &mut v.sig.0, 114),
        2 => {
            relen(t, &mut v.pk.0, 57);
            relen(t, &mut v.sig.0, 114);
        }
        _ => {
            // all-zero values of the right length
            if t.chance(1, 2) {
                v.pk.0 = vec![0; 57];
            }
            if t.chance(1, 2) {
                v.sig.0 = vec![0; 114];
            }
            if t.chance(1, 3) {
                let n = v.sig.0.len();
                v.sig.0[t.below(57)] = 0;
                if n > 57 {
                    for x in v.sig.0[57..].iter_mut() {
                        *x = 0
                    }
                }
            }
        }
    }
    v.label = format!("len {}/{} {}", v.pk.0.len(), v.sig.0.len(), v.label);
    v
}
