//! Independent RFC 8032 Ed448 reference: untwisted Edwards curve, RFC projective formulas.
pub mod fp;
pub mod keccak;
pub mod sc;
use fp::Fp;
pub use keccak::shake256;
use sc::Sc;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug)]
pub struct Point {
    pub x: Fp,
    pub y: Fp,
    pub z: Fp,
}

fn d() -> Fp {
    static D: OnceLock<Fp> = OnceLock::new();
    *D.get_or_init(|| Fp::from_u64(39081).neg())
}

pub fn identity() -> Point {
    Point { x: fp::ZERO, y: fp::ONE, z: fp::ONE }
}

impl PartialEq for Point {
    fn eq(&self, o: &Point) -> bool {
        self.x.mul(o.z) == o.x.mul(self.z) && self.y.mul(o.z) == o.y.mul(self.z)
    }
}

impl Point {
    pub fn affine(x: Fp, y: Fp) -> Point {
        Point { x, y, z: fp::ONE }
    }
    // RFC 8032, 5.2.4
    pub fn add(&self, o: &Point) -> Point {
        let a = self.z.mul(o.z);
        let b = a.sq();
        let c = self.x.mul(o.x);
        let dd = self.y.mul(o.y);
        let e = d().mul(c).mul(dd);
        let f = b.sub(e);
        let g = b.add(e);
        let h = self.x.add(self.y).mul(o.x.add(o.y));
        Point { x: a.mul(f).mul(h.sub(c).sub(dd)), y: a.mul(g).mul(dd.sub(c)), z: f.mul(g) }
    }
    pub fn double(&self) -> Point {
        let b = self.x.add(self.y).sq();
        let c = self.x.sq();
        let dd = self.y.sq();
        let e = c.add(dd);
        let h = self.z.sq();
        let j = e.sub(h.add(h));
        Point { x: b.sub(e).mul(j), y: e.mul(c.sub(dd)), z: e.mul(j) }
    }
    pub fn neg(&self) -> Point {
        Point { x: self.x.neg(), y: self.y, z: self.z }
    }
    pub fn mul_bytes(&self, le: &[u8]) -> Point {
        let mut tab = vec![identity(); 16];
        for i in 1..16 {
            tab[i] = tab[i - 1].add(self);
        }
        let mut r = identity();
        for &b in le.iter().rev() {
            for nib in [b >> 4, b & 15] {
                r = r.double().double().double().double();
                if nib != 0 {
                    r = r.add(&tab[nib as usize]);
                }
            }
        }
        r
    }
    pub fn mul(&self, s: &Sc) -> Point {
        self.mul_bytes(&s.to_bytes()[..56])
    }
    pub fn mul4(&self) -> Point {
        self.double().double()
    }
    pub fn is_identity(&self) -> bool {
        *self == identity()
    }
    pub fn xy(&self) -> (Fp, Fp) {
        let zi = self.z.inv();
        (self.x.mul(zi), self.y.mul(zi))
    }
    pub fn encode(&self) -> [u8; 57] {
        let (x, y) = self.xy();
        let mut o = [0u8; 57];
        o[..56].copy_from_slice(&y.to_bytes());
        o[56] = x.lsb() << 7;
        o
    }
    /// Projection on the prime-order subgroup.
    pub fn prime_part(&self) -> Point {
        let inv4 = sc::ONE.halve().halve();
        self.mul4().mul(&inv4)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DecErr {
    SpareBits,
    YTooBig,
    NotOnCurve,
    SignOfZero,
}

// RFC 8032, 5.2.3
pub fn decode(b: &[u8; 57]) -> Result<Point, DecErr> {
    if b[56] & 0x7f != 0 {
        return Err(DecErr::SpareBits);
    }
    let y = Fp::from_bytes_canonical(&b[..56]).ok_or(DecErr::YTooBig)?;
    decode_y(y, b[56] >> 7)
}

pub fn decode_y(y: Fp, sign: u8) -> Result<Point, DecErr> {
    let y2 = y.sq();
    let u = y2.sub(fp::ONE);
    let v = d().mul(y2).sub(fp::ONE);
    let u3v = u.sq().mul(u).mul(v);
    let u5v3 = u3v.mul(u.sq()).mul(v.sq());
    let mut x = u3v.mul(u5v3.pow_p34());
    if v.mul(x.sq()) != u {
        return Err(DecErr::NotOnCurve);
    }
    if x.is_zero() && sign == 1 {
        return Err(DecErr::SignOfZero);
    }
    if x.lsb() != sign {
        x = x.neg();
    }
    Ok(Point::affine(x, y))
}

pub fn base() -> Point {
    static B: OnceLock<Point> = OnceLock::new();
    *B.get_or_init(|| {
        let mut b = [0u8; 57];
        // y of the base point, RFC 8032 table 2 / 7748
        let y = hex::decode("14fa30f25b790898adc8d74e2c13bdfdc4397ce61cffd33ad7c2a0051e9c78874098a36c7373ea4b62c7c9563720768824bcb66e71463f69").unwrap();
        b[..56].copy_from_slice(&y);
        decode(&b).expect("base point")
    })
}

/// torsion points: index 0..4 = 0, T, 2T, 3T with T of order 4
pub fn torsion(i: usize) -> Point {
    let one = fp::ONE;
    let m1 = fp::ONE.neg();
    match i & 3 {
        0 => identity(),
        1 => Point::affine(one, fp::ZERO),
        2 => Point::affine(fp::ZERO, m1),
        _ => Point::affine(m1, fp::ZERO),
    }
}

pub fn mul_base(s: &Sc) -> Point {
    static T: OnceLock<Vec<[Point; 16]>> = OnceLock::new();
    let t = T.get_or_init(|| {
        let mut v = vec![];
        let mut b = base();
        for _ in 0..112 {
            let mut row = [identity(); 16];
            for i in 1..16 {
                row[i] = row[i - 1].add(&b);
            }
            b = row[15].add(&b);
            v.push(row);
        }
        v
    });
    let bytes = s.to_bytes();
    let mut r = identity();
    for i in 0..112 {
        let nib = (bytes[i / 2] >> (4 * (i % 2))) & 15;
        if nib != 0 {
            r = r.add(&t[i][nib as usize]);
        }
    }
    r
}

pub const DOM: &[u8] = b"SigEd448\x00\x00";

pub fn clamp(b: &[u8]) -> [u8; 57] {
    let mut o = [0u8; 57];
    o.copy_from_slice(&b[..57]);
    o[0] &= 0xfc;
    o[55] |= 0x80;
    o[56] = 0;
    o
}

/// public key for a (to be clamped) 57-byte scalar
pub fn public_of_scalar(s: &[u8]) -> [u8; 57] {
    mul_base(&Sc::reduce(&clamp(s))).encode()
}
pub fn private_to_public(k: &[u8; 57]) -> [u8; 57] {
    let mut h = [0u8; 114];
    shake256(&[k], &mut h);
    public_of_scalar(&h[..57])
}
pub fn private_to_secret(k: &[u8; 57]) -> [u8; 57] {
    let mut h = [0u8; 57];
    shake256(&[k], &mut h);
    h[56] |= 0x80;
    h
}
pub fn is_secret_form(k: &[u8; 57]) -> bool {
    k[56] & 0x80 != 0
}
pub fn derive_public(k: &[u8; 57]) -> [u8; 57] {
    if is_secret_form(k) {
        public_of_scalar(k)
    } else {
        private_to_public(k)
    }
}
pub fn challenge(r: &[u8], a: &[u8], msg: &[u8]) -> Sc {
    let mut h = [0u8; 114];
    shake256(&[DOM, r, a, msg], &mut h);
    Sc::reduce(&h)
}
/// RFC signing with a given scalar and nonce prefix
pub fn sign_scalar(s: &Sc, prefix: &[u8], msg: &[u8]) -> [u8; 114] {
    let a = mul_base(s).encode();
    let mut h = [0u8; 114];
    shake256(&[DOM, prefix, msg], &mut h);
    let r = Sc::reduce(&h);
    let rb = mul_base(&r).encode();
    let k = challenge(&rb, &a, msg);
    let mut o = [0u8; 114];
    o[..57].copy_from_slice(&rb);
    o[57..].copy_from_slice(&r.add(k.mul(*s)).to_bytes());
    o
}
pub fn sign_private(k: &[u8; 57], msg: &[u8]) -> [u8; 114] {
    let mut h = [0u8; 114];
    shake256(&[k], &mut h);
    sign_scalar(&Sc::reduce(&clamp(&h[..57])), &h[57..], msg)
}
pub fn sign_secret_nonce(k: &[u8; 57], n: &[u8; 57], msg: &[u8]) -> [u8; 114] {
    sign_scalar(&Sc::reduce(&clamp(k)), n, msg)
}
pub fn sign(k: &[u8; 57], msg: &[u8]) -> [u8; 114] {
    if is_secret_form(k) {
        let c = clamp(k);
        sign_secret_nonce(&c, &c, msg)
    } else {
        sign_private(k, msg)
    }
}
/// scalar of a library key
pub fn key_scalar(k: &[u8; 57]) -> Sc {
    if is_secret_form(k) {
        Sc::reduce(&clamp(k))
    } else {
        let mut h = [0u8; 57];
        shake256(&[k], &mut h);
        Sc::reduce(&clamp(&h))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Analysis {
    pub pk_len: bool,
    pub pk_zero: bool,
    pub pk_bad: bool,
    pub sig_len: bool,
    pub sig_zero: bool,
    pub r_bad: bool,
    pub s_range: bool,
    pub equation: bool,
}
impl Analysis {
    /// no defect at all
    pub fn accept(&self) -> bool {
        *self == Analysis::default()
    }
}
/// Every defect of (pk, sig[..114], msg) against RFC 8032 plus the all-zero refusal.
pub fn analyse(pk: &[u8], sig: &[u8], msg: &[u8]) -> Analysis {
    let mut a = Analysis { pk_len: pk.len() != 57, sig_len: sig.len() < 114, ..Default::default() };
    a.pk_zero = pk.len() == 57 && pk.iter().all(|b| *b == 0);
    a.sig_zero = sig.len() == 114 && sig.iter().all(|b| *b == 0);
    let mut ap = None;
    if !a.pk_len {
        ap = decode(pk.try_into().unwrap()).ok();
        a.pk_bad = ap.is_none();
    }
    let mut rp = None;
    let mut s = None;
    if !a.sig_len {
        rp = decode(sig[..57].try_into().unwrap()).ok();
        a.r_bad = rp.is_none();
        s = Sc::canonical(sig[57..114].try_into().unwrap());
        a.s_range = s.is_none();
    }
    if let (Some(ap), Some(rp), Some(s)) = (ap, rp, s) {
        let k = challenge(&sig[..57], pk, msg);
        let lhs = mul_base(&s).mul4();
        let rhs = rp.add(&ap.mul(&k)).mul4();
        a.equation = lhs != rhs;
    }
    a
}
