//! Integers modulo L = 2^446 - 138180668098951153520073867485154268803366924748821786098945475038 85,
//! by schoolbook multiplication and bitwise shift-subtract reduction. Reference only.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sc(pub [u64; 8]);

pub const L: [u64; 8] = [
    0x2378c292ab5844f3,
    0x216cc2728dc58f55,
    0xc44edb49aed63690,
    0xffffffff7cca23e9,
    0xffffffffffffffff,
    0xffffffffffffffff,
    0x3fffffffffffffff,
    0,
];
pub const ZERO: Sc = Sc([0; 8]);
pub const ONE: Sc = Sc([1, 0, 0, 0, 0, 0, 0, 0]);

fn ge(a: &[u64; 8], b: &[u64; 8]) -> bool {
    for i in (0..8).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_in(a: &mut [u64; 8], b: &[u64; 8]) {
    let mut br = false;
    for i in 0..8 {
        let (x, c1) = a[i].overflowing_sub(b[i]);
        let (y, c2) = x.overflowing_sub(br as u64);
        a[i] = y;
        br = c1 | c2;
    }
}
fn add_in(a: &mut [u64; 8], b: &[u64; 8]) {
    let mut c = 0u128;
    for i in 0..8 {
        c += a[i] as u128 + b[i] as u128;
        a[i] = c as u64;
        c >>= 64;
    }
}

/// value of little-endian words modulo L
fn reduce_words(w: &[u64]) -> Sc {
    let mut r = [0u64; 8];
    for i in (0..w.len()).rev() {
        for bit in (0..64).rev() {
            for k in (1..8).rev() {
                r[k] = (r[k] << 1) | (r[k - 1] >> 63);
            }
            r[0] = (r[0] << 1) | ((w[i] >> bit) & 1);
            if ge(&r, &L) {
                sub_in(&mut r, &L);
            }
        }
    }
    Sc(r)
}

impl Sc {
    pub fn from_u64(x: u64) -> Sc {
        Sc([x, 0, 0, 0, 0, 0, 0, 0])
    }
    pub fn reduce(b: &[u8]) -> Sc {
        let mut w = vec![0u64; (b.len() + 7) / 8];
        for (i, &x) in b.iter().enumerate() {
            w[i / 8] |= (x as u64) << (8 * (i % 8));
        }
        reduce_words(&w)
    }
    /// None when the value is not below L.
    pub fn canonical(b: &[u8; 57]) -> Option<Sc> {
        let r = Sc::reduce(b);
        if &r.to_bytes() == b {
            Some(r)
        } else {
            None
        }
    }
    pub fn to_bytes(self) -> [u8; 57] {
        let mut o = [0u8; 57];
        for i in 0..57 {
            o[i] = (self.0[i / 8] >> (8 * (i % 8))) as u8;
        }
        o
    }
    pub fn from_words32(w: &[u32; 14]) -> Sc {
        let mut b = vec![];
        for x in w {
            b.extend_from_slice(&x.to_le_bytes());
        }
        Sc::reduce(&b)
    }
    pub fn to_words32(self) -> [u32; 14] {
        let mut o = [0u32; 14];
        for i in 0..14 {
            o[i] = (self.0[i / 2] >> (32 * (i % 2))) as u32;
        }
        o
    }
    pub fn add(self, b: Sc) -> Sc {
        let mut r = self.0;
        add_in(&mut r, &b.0);
        if ge(&r, &L) {
            sub_in(&mut r, &L);
        }
        Sc(r)
    }
    pub fn neg(self) -> Sc {
        if self == ZERO {
            return ZERO;
        }
        let mut r = L;
        sub_in(&mut r, &self.0);
        Sc(r)
    }
    pub fn sub(self, b: Sc) -> Sc {
        self.add(b.neg())
    }
    pub fn mul(self, b: Sc) -> Sc {
        let mut w = [0u64; 16];
        for i in 0..8 {
            let mut c = 0u128;
            for j in 0..8 {
                c += w[i + j] as u128 + self.0[i] as u128 * b.0[j] as u128;
                w[i + j] = c as u64;
                c >>= 64;
            }
            w[i + 8] = c as u64;
        }
        reduce_words(&w[..14])
    }
    /// x/2 mod L
    pub fn halve(self) -> Sc {
        let mut r = self.0;
        if r[0] & 1 == 1 {
            add_in(&mut r, &L);
        }
        for k in 0..7 {
            r[k] = (r[k] >> 1) | (r[k + 1] << 63);
        }
        r[7] >>= 1;
        Sc(r)
    }
}

/// m*L + delta as 57 little-endian bytes (truncated to 456 bits)
pub fn multiple_of_l(m: u64, delta: i64) -> [u8; 57] {
    let mut r = [0u64; 8];
    for _ in 0..m {
        add_in(&mut r, &L);
    }
    if delta >= 0 {
        add_in(&mut r, &[delta as u64, 0, 0, 0, 0, 0, 0, 0]);
    } else {
        sub_in(&mut r, &[(-delta) as u64, 0, 0, 0, 0, 0, 0, 0]);
    }
    Sc(r).to_bytes()
}
/// s + m*L as 57 bytes, unreduced; None if it does not fit in 456 bits
pub fn add_multiple_of_l(s: &Sc, m: u64) -> Option<[u8; 57]> {
    let mut r = s.0;
    for _ in 0..m {
        add_in(&mut r, &L);
    }
    if r[7] >> 8 != 0 {
        None
    } else {
        Some(Sc(r).to_bytes())
    }
}
