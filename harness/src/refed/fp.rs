//! GF(2^448 - 2^224 - 1) on eight 56-bit limbs, always fully reduced. Reference only.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fp(pub [u64; 8]);

const M: u64 = (1 << 56) - 1;
const P: [u64; 8] = [M, M, M, M, M - 1, M, M, M];

pub const ZERO: Fp = Fp([0; 8]);
pub const ONE: Fp = Fp([1, 0, 0, 0, 0, 0, 0, 0]);

fn ge_p(r: &[u64; 8]) -> bool {
    for i in (0..8).rev() {
        if r[i] != P[i] {
            return r[i] > P[i];
        }
    }
    true
}

fn normalise(r: &mut [u128; 8]) -> Fp {
    loop {
        let mut c = 0u128;
        for x in r.iter_mut() {
            let v = *x + c;
            *x = v & M as u128;
            c = v >> 56;
        }
        if c == 0 {
            break;
        }
        r[0] += c;
        r[4] += c;
    }
    let mut o = [0u64; 8];
    for i in 0..8 {
        o[i] = r[i] as u64;
    }
    if ge_p(&o) {
        let mut borrow = 0i128;
        for i in 0..8 {
            let v = o[i] as i128 - P[i] as i128 + borrow;
            o[i] = (v & M as i128) as u64;
            borrow = v >> 56;
        }
    }
    Fp(o)
}

impl Fp {
    pub fn from_u64(x: u64) -> Fp {
        Fp([x & M, x >> 56, 0, 0, 0, 0, 0, 0])
    }
    /// Little-endian bytes (any value below 2^448) reduced modulo p.
    pub fn reduce_bytes(b: &[u8]) -> Fp {
        let mut r = [0u128; 8];
        for i in 0..56 {
            r[i / 7] |= (b[i] as u128) << (8 * (i % 7));
        }
        normalise(&mut r)
    }
    /// Sum of 28-bit-weighted limbs (each any u32), reduced modulo p.
    pub fn from_limbs28(l: &[u32; 16]) -> Fp {
        let mut r = [0u128; 8];
        for i in 0..8 {
            r[i] = l[2 * i] as u128 + ((l[2 * i + 1] as u128) << 28);
        }
        normalise(&mut r)
    }
    pub fn to_limbs28(self) -> [u32; 16] {
        let mut o = [0u32; 16];
        for i in 0..8 {
            o[2 * i] = (self.0[i] & 0xfffffff) as u32;
            o[2 * i + 1] = (self.0[i] >> 28) as u32;
        }
        o
    }
    /// None when the value is >= p.
    pub fn from_bytes_canonical(b: &[u8]) -> Option<Fp> {
        let mut r = [0u64; 8];
        for i in 0..56 {
            r[i / 7] |= (b[i] as u64) << (8 * (i % 7));
        }
        if ge_p(&r) {
            None
        } else {
            Some(Fp(r))
        }
    }
    pub fn to_bytes(self) -> [u8; 56] {
        let mut o = [0u8; 56];
        for i in 0..56 {
            o[i] = (self.0[i / 7] >> (8 * (i % 7))) as u8;
        }
        o
    }
    pub fn add(self, b: Fp) -> Fp {
        let mut r = [0u128; 8];
        for i in 0..8 {
            r[i] = self.0[i] as u128 + b.0[i] as u128;
        }
        normalise(&mut r)
    }
    pub fn neg(self) -> Fp {
        ZERO.sub(self)
    }
    pub fn sub(self, b: Fp) -> Fp {
        // a + 2p - b, limb-wise non-negative
        let mut r = [0u128; 8];
        for i in 0..8 {
            r[i] = self.0[i] as u128 + 2 * P[i] as u128 - b.0[i] as u128;
        }
        normalise(&mut r)
    }
    pub fn mul(self, b: Fp) -> Fp {
        let mut r = [0u128; 15];
        for i in 0..8 {
            for j in 0..8 {
                r[i + j] += self.0[i] as u128 * b.0[j] as u128;
            }
        }
        // 2^448 = 2^224 + 1 (mod p)
        for k in (8..15).rev() {
            let v = r[k];
            r[k - 8] += v;
            r[k - 4] += v;
        }
        let mut o = [0u128; 8];
        o.copy_from_slice(&r[..8]);
        normalise(&mut o)
    }
    pub fn sq(self) -> Fp {
        self.mul(self)
    }
    pub fn is_zero(self) -> bool {
        self == ZERO
    }
    pub fn lsb(self) -> u8 {
        (self.0[0] & 1) as u8
    }
    fn pow_be(self, e: &[u8; 56]) -> Fp {
        let mut tab = [ONE; 16];
        for i in 1..16 {
            tab[i] = tab[i - 1].mul(self);
        }
        let mut r = ONE;
        for &byte in e {
            for nib in [byte >> 4, byte & 15] {
                r = r.sq().sq().sq().sq();
                if nib != 0 {
                    r = r.mul(tab[nib as usize]);
                }
            }
        }
        r
    }
    /// self^(p-2); zero maps to zero.
    pub fn inv(self) -> Fp {
        self.pow_be(&exp_bytes(2, 0))
    }
    /// self^((p-3)/4)
    pub fn pow_p34(self) -> Fp {
        self.pow_be(&exp_bytes(3, 2))
    }
    /// Euler criterion: is this a non-zero square?
    pub fn is_square(self) -> bool {
        self.pow_be(&exp_bytes(1, 1)) == ONE
    }
    /// 1/sqrt(x) candidate the usual way: x^((p-3)/4)
    pub fn sqrt(self) -> Option<Fp> {
        let r = self.pow_p34().mul(self);
        if r.sq() == self {
            Some(r)
        } else {
            None
        }
    }
}

/// (p - sub) >> sh as 56 big-endian bytes
fn exp_bytes(sub: u64, sh: u32) -> [u8; 56] {
    let mut l = P;
    l[0] -= sub;
    let mut o = [0u8; 56];
    for i in 0..56 {
        o[55 - i] = (l[i / 7] >> (8 * (i % 7))) as u8;
    }
    if sh > 0 {
        let mut carry = 0u16;
        for b in o.iter_mut() {
            let v = (carry << 8) | *b as u16;
            *b = (v >> sh) as u8;
            carry = v & ((1 << sh) - 1);
        }
    }
    o
}
