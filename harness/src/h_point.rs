//! C17 group operations and C18 encoding through the hooks. Every point carries a model integer n (n times the
//! library's own generator); its encoding must be the RFC 8032 encoding of 4n*B.
use crate::gen::{self, B};
use crate::refed::{self, fp, fp::Fp, sc, sc::Sc};
use crate::repr::{limbs, redundant, scal};
use crate::run::{Check, DynCheck, Obs, W};
use crate::tape::Tape;
use libgoldilocks::verif_hooks::point::{
    eddsa_like_decode, precomputed_scalar_mul, TwistedExtendedPoint as Pt, TwistedNiels, TwistedProjectedNiels as Pn,
};
use serde::{Deserialize, Serialize};

pub fn add17(v: &mut Vec<Box<dyn DynCheck>>) {
    v.push(Box::new(W(History)));
    v.push(Box::new(W(ScalarMul)));
    v.push(Box::new(W(OnCurve)));
}
pub fn add18(v: &mut Vec<Box<dyn DynCheck>>) {
    v.push(Box::new(W(RoundTrip)));
    v.push(Box::new(W(Arbitrary)));
}

fn of(b: &B) -> Sc {
    Sc::reduce(&b.0)
}
fn bs(s: Sc) -> B {
    s.to_bytes().into()
}
fn four(n: Sc) -> Sc {
    n.add(n).add(n).add(n)
}
/// RFC encoding of the element with model integer n
pub fn enc(n: Sc) -> [u8; 57] {
    refed::mul_base(&four(n)).encode()
}
fn fl(x: &[u32; 16]) -> Fp {
    Fp::from_limbs28(x)
}
/// same element, coordinates multiplied by a non-zero field element
fn scale_pn(p: &Pn, l: Fp) -> Pn {
    let m = |x: &[u32; 16]| fl(x).mul(l).to_limbs28();
    Pn { n: TwistedNiels { a: m(&p.n.a), b: m(&p.n.b), c: m(&p.n.c) }, z: m(&p.z) }
}
/// with z = 1
fn affine_niels(p: &Pn) -> TwistedNiels {
    scale_pn(p, fl(&p.z).inv()).n
}
fn lam(l: &[u32; 16]) -> Fp {
    let f = fl(l);
    if f.is_zero() {
        fp::ONE
    } else {
        f
    }
}
pub fn rescale(p: &Pt, l: &[u32; 16]) -> Pt {
    scale_pn(&p.to_projected_niels(), lam(l)).to_extended_point()
}
pub fn identity() -> Pt {
    let mut p = Pt::new();
    p.set_identity();
    p
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Identity,
    Base(B),
    Decode(B, u8),
    Double { twice: bool },
    /// neg: through conditional_negate of the addend; sub: by the subtracting routine
    Add { with: u8, affine: bool, sub: bool, neg: bool, then_double: bool, scale: [u32; 16] },
    Rescale([u32; 16]),
    Mul(B),
    DoubleMul(B, B),
    Window(u8),
    Niels { neg: bool, affine: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistCase {
    init: Vec<B>,
    ops: Vec<(u8, u8, Op)>,
}
pub struct History;

fn small_or_any(t: &mut Tape) -> Sc {
    match t.below(4) {
        0 => Sc::from_u64(t.below(20) as u64),
        1 => Sc::from_u64(t.below(20) as u64).neg(),
        _ => scal(t),
    }
}

impl Check for History {
    type Case = HistCase;
    fn name(&self) -> &'static str {
        "group-history"
    }
    fn rule(&self) -> &'static str {
        "histories of 1 to 8 group operations over three points (doubling, adding, subtracting, negating, rescaling, windows, multiplications, decoding), identities and repeated points included; each step compared by encoding, curve test and equality with a model integer; non-trivial: at least 3 operations"
    }
    fn tape_len(&self) -> usize {
        1200
    }
    fn budget(&self) -> (u64, u64) {
        (80_000, 2_000_000)
    }
    fn gen(&self, t: &mut Tape) -> HistCase {
        let n = 1 + t.below(8);
        let mut init = vec![];
        let first = small_or_any(t);
        init.push(bs(first));
        for _ in 0..2 {
            // related points: equal, negated, doubled, neighbours
            let v = match t.below(7) {
                0 => first,
                1 => first.neg(),
                2 => first.add(first),
                3 => first.add(sc::ONE),
                4 => first.add(first).neg(),
                _ => small_or_any(t),
            };
            init.push(bs(v));
        }
        let ops = (0..n)
            .map(|_| {
                let op = match t.below(16) {
                    0 => Op::Identity,
                    1 => Op::Base(bs(small_or_any(t))),
                    2 => Op::Decode(bs(small_or_any(t)), t.below(4) as u8),
                    3 | 4 => Op::Double { twice: t.chance(1, 3) },
                    5..=9 => Op::Add {
                        with: t.below(3) as u8,
                        affine: t.chance(1, 2),
                        sub: t.chance(1, 2),
                        neg: t.chance(1, 4),
                        then_double: t.chance(1, 4),
                        scale: limbs(t, 0xfffffff),
                    },
                    10 | 11 => Op::Rescale(limbs(t, 0xfffffff)),
                    12 => Op::Mul(bs(small_or_any(t))),
                    13 => Op::DoubleMul(bs(small_or_any(t)), bs(small_or_any(t))),
                    14 => Op::Window(t.below(16) as u8),
                    _ => Op::Niels { neg: t.chance(1, 2), affine: t.chance(1, 2) },
                };
                (t.below(3) as u8, t.below(3) as u8, op)
            })
            .collect();
        HistCase { init, ops }
    }
    fn test(&self, c: &HistCase, o: &mut Obs) -> Result<(), String> {
        if c.ops.len() >= 3 {
            o.hit();
        }
        let mut m: Vec<Sc> = c.init.iter().map(of).collect();
        let mut p: Vec<Pt> = m.iter().map(|n| precomputed_scalar_mul(n.to_words32())).collect();
        for (i, q) in p.iter().enumerate() {
            verify(q, m[i], &format!("{}*G", hex::encode(m[i].to_bytes())))?;
        }
        for (i, (d, a, op)) in c.ops.iter().enumerate() {
            let (d, a) = (*d as usize % 3, *a as usize % 3);
            let what = format!("step {i} {}", serde_json::to_string(op).unwrap());
            let (q, n) = apply(op, &p[a], m[a], &p, &m, o)?;
            verify(&q, n, &what)?;
            p[d] = q;
            m[d] = n;
            for j in 0..3 {
                for k in 0..3 {
                    if p[j].mod_equal(&p[k]) != (m[j] == m[k]) {
                        return Err(format!("{what}: equality of points {j} and {k} is wrong (they are {}equal)", if m[j] == m[k] { "" } else { "not " }));
                    }
                }
            }
        }
        Ok(())
    }
}

fn verify(q: &Pt, n: Sc, what: &str) -> Result<(), String> {
    let w = enc(n);
    let g = q.eddsa_like_encode();
    if g != w {
        return Err(format!("{what}: encodes as {}, the group law gives {}", hex::encode(g), hex::encode(w)));
    }
    if !q.is_on_curve() {
        return Err(format!("{what}: result is reported off the curve"));
    }
    Ok(())
}

fn apply(op: &Op, x: &Pt, n: Sc, p: &[Pt], m: &[Sc], o: &mut Obs) -> Result<(Pt, Sc), String> {
    let mut q = x.clone();
    Ok(match op {
        Op::Identity => {
            o.class("identity");
            (identity(), sc::ZERO)
        }
        Op::Base(s) => {
            o.class("fixed base");
            (precomputed_scalar_mul(of(s).to_words32()), of(s))
        }
        Op::Decode(s, tor) => {
            o.class("decode");
            let e = gen::point_rt(&of(s), *tor as usize).encode();
            match eddsa_like_decode(&e) {
                Ok(q) => (q, of(s).halve().halve()),
                Err(_) => return Err(format!("valid encoding {} refused", hex::encode(e))),
            }
        }
        Op::Double { twice } => {
            o.class("double");
            if *twice {
                q.double_internal(true);
                q.double_internal(false);
                (q, four(n))
            } else {
                q.double_internal(false);
                (q, n.add(n))
            }
        }
        Op::Add { with, affine, sub, neg, then_double, scale } => {
            o.class(if *sub { "subtract" } else { "add" });
            let k = *with as usize % 3;
            let pn = p[k].to_projected_niels();
            let mut y = m[k];
            if *neg != *sub {
                y = y.neg();
            }
            let mask = if *neg { u32::MAX } else { 0 };
            if *affine {
                let mut a = affine_niels(&pn);
                a.conditional_negate(&mask);
                if *sub {
                    q.sub_niels_from_extended_point(&a, *then_double)
                } else {
                    q.add_niels_to_extended(&a, *then_double)
                }
            } else {
                let mut b = scale_pn(&pn, lam(scale));
                b.n.conditional_negate(&mask);
                if *sub {
                    q.sub_projected_niels_from_extended_point(&b, *then_double)
                } else {
                    q.add_projected_niels_to_extended(&b, *then_double)
                }
            }
            let mut z = n.add(y);
            if *then_double {
                q.double_internal(false);
                z = z.add(z);
            }
            (q, z)
        }
        Op::Rescale(l) => {
            o.class("rescale");
            (rescale(x, l), n)
        }
        Op::Mul(s) => {
            o.class("variable base");
            (x.point_scalar_mul(&of(s).to_words32()), n.mul(of(s)))
        }
        Op::DoubleMul(s, v) => {
            o.class("double multiplication");
            (x.point_double_scalamul_non_secret(&of(s).to_words32(), &of(v).to_words32()), of(s).add(n.mul(of(v))))
        }
        Op::Window(j) => {
            o.class("window");
            let w = x.prepare_fixed_window();
            let j = *j as usize % w.len().max(1);
            (w[j].to_extended_point(), n.mul(Sc::from_u64(2 * j as u64 + 1)))
        }
        Op::Niels { neg, affine } => {
            o.class("niels");
            let mask = if *neg { u32::MAX } else { 0 };
            let mut pn = x.to_projected_niels();
            let z = if *neg { n.neg() } else { n };
            if *affine {
                let mut a = affine_niels(&pn);
                a.conditional_negate(&mask);
                (a.to_extended(), z)
            } else {
                pn.n.conditional_negate(&mask);
                (pn.to_extended_point(), z)
            }
        }
    })
}

/// scalars that reach particular windows and digits
fn digit_scalar(t: &mut Tape) -> Sc {
    match t.below(6) {
        0 => {
            // one comb or window digit pattern at a position
            let p = t.below(446);
            let v = t.below(64) as u64;
            let mut b = [0u8; 64];
            for k in 0..6 {
                if v >> k & 1 == 1 && p + k < 446 {
                    b[(p + k) / 8] |= 1 << ((p + k) % 8);
                }
            }
            Sc::reduce(&b[..57])
        }
        1 => {
            // runs of ones
            let mut b = [0u8; 57];
            for _ in 0..1 + t.below(3) {
                let s = t.below(446);
                let e = (s + 1 + t.below(100)).min(446);
                for k in s..e {
                    b[k / 8] |= 1 << (k % 8);
                }
            }
            Sc::reduce(&b)
        }
        2 => {
            // 16-bit pieces with special content
            let mut b = [0u8; 57];
            for c in b[..56].chunks_mut(2) {
                let v: u16 = match t.below(6) {
                    0 => 0,
                    1 => 0xffff,
                    2 => 0x8000,
                    3 => 1,
                    4 => 0x7fff,
                    _ => t.u16(),
                };
                c.copy_from_slice(&v.to_le_bytes());
            }
            b[55] &= 0x3f;
            Sc::reduce(&b)
        }
        3 => Sc::from_u64(t.u64() >> t.below(64)),
        _ => scal(t),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MulCase {
    n: B,
    scale: [u32; 16],
    a: B,
    b: B,
}
pub struct ScalarMul;
impl Check for ScalarMul {
    type Case = MulCase;
    fn name(&self) -> &'static str {
        "scalar-multiplications"
    }
    fn rule(&self) -> &'static str {
        "a point in a random projective representation and two scalars (digit patterns, runs, sparse, extreme, uniform, zero, equal, opposite): fixed-base, variable-base and combined multiplication compared with the reference; non-trivial: both scalars non-zero"
    }
    fn tape_len(&self) -> usize {
        700
    }
    fn budget(&self) -> (u64, u64) {
        (80_000, 2_000_000)
    }
    fn fixed(&self) -> Vec<MulCase> {
        let mut v = vec![];
        let one = [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        for i in 0..446usize {
            let mut b = [0u8; 57];
            b[i / 8] = 1 << (i % 8);
            let s = Sc::reduce(&b);
            v.push(MulCase { n: bs(Sc::from_u64(7)), scale: one, a: bs(s), b: bs(s.neg()) });
        }
        for i in 0..70u64 {
            for j in [0, 1, 2, 5, i] {
                v.push(MulCase { n: bs(Sc::from_u64(3)), scale: one, a: bs(Sc::from_u64(i)), b: bs(Sc::from_u64(j)) });
                v.push(MulCase { n: bs(Sc::from_u64(3)), scale: one, a: bs(Sc::from_u64(j).neg()), b: bs(Sc::from_u64(i).neg()) });
            }
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> MulCase {
        let n = small_or_any(t);
        let b = digit_scalar(t);
        let a = match t.below(10) {
            0 => n.mul(b).neg(),
            1 => n.mul(b),
            2 => sc::ZERO,
            3 => b,
            _ => digit_scalar(t),
        };
        let b = if t.chance(1, 20) { sc::ZERO } else { b };
        MulCase { n: bs(n), scale: limbs(t, 0xfffffff), a: bs(a), b: bs(b) }
    }
    fn test(&self, c: &MulCase, o: &mut Obs) -> Result<(), String> {
        let (n, a, b) = (of(&c.n), of(&c.a), of(&c.b));
        if a != sc::ZERO && b != sc::ZERO {
            o.hit();
        }
        o.class(if n == sc::ZERO { "identity" } else { "other point" });
        let (wa, wb) = (a.to_words32(), b.to_words32());
        let x = rescale(&precomputed_scalar_mul(n.to_words32()), &c.scale);
        verify(&precomputed_scalar_mul(wa), a, "precomputed_scalar_mul")?;
        verify(&x.point_scalar_mul(&wb), n.mul(b), "point_scalar_mul")?;
        verify(&x.point_double_scalamul_non_secret(&wa, &wb), a.add(n.mul(b)), "point_double_scalamul_non_secret")?;
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CurveCase {
    x: [u32; 16],
    y: [u32; 16],
    z: [u32; 16],
    kind: String,
}
pub struct OnCurve;
fn half() -> Fp {
    Fp::from_u64(2).inv()
}
/// y with y^2 - x^2 - 1 + 39082 x^2 y^2 = e
fn y_with_residual(x: Fp, e: Fp) -> Option<Fp> {
    let x2 = x.sq();
    let den = fp::ONE.add(Fp::from_u64(39082).mul(x2));
    if den.is_zero() {
        return None;
    }
    fp::ONE.add(x2).add(e).mul(den.inv()).sqrt()
}
fn bit(i: usize) -> Fp {
    let mut l = [0u32; 16];
    l[i / 28] = 1 << (i % 28);
    fl(&l)
}
impl Check for OnCurve {
    type Case = CurveCase;
    fn name(&self) -> &'static str {
        "on-curve"
    }
    fn rule(&self) -> &'static str {
        "affine pairs on the twisted curve, off it by a residual of one bit or one limb, or arbitrary, in random projective scale, also z = 0; the curve test compared with the curve equation; non-trivial: on the curve, or off it by a constructed small residual"
    }
    fn tape_len(&self) -> usize {
        400
    }
    fn budget(&self) -> (u64, u64) {
        (400_000, 10_000_000)
    }
    fn fixed(&self) -> Vec<CurveCase> {
        let mut v = vec![];
        let one = fp::ONE.to_limbs28();
        for i in 0..448 {
            let mut k = 2u64;
            let mut done = 0;
            while done < 2 {
                let x = Fp::from_u64(k);
                let e = if done == 0 { bit(i) } else { bit(i).neg() };
                if let Some(y) = y_with_residual(x, e) {
                    v.push(CurveCase { x: x.to_limbs28(), y: y.to_limbs28(), z: one, kind: format!("residual bit {i}") });
                    done += 1;
                }
                k += 1;
            }
        }
        for (x, y) in [(0u64, 1u64), (0, 0), (1, 1), (1, 0)] {
            v.push(CurveCase { x: Fp::from_u64(x).to_limbs28(), y: Fp::from_u64(y).to_limbs28(), z: one, kind: "tiny".into() });
            v.push(CurveCase { x: Fp::from_u64(x).to_limbs28(), y: Fp::from_u64(y).to_limbs28(), z: [0; 16], kind: "z=0".into() });
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> CurveCase {
        let mut x = fl(&limbs(t, 0xfffffff));
        let mut z = fl(&limbs(t, 0xfffffff));
        let (e, kind) = match t.below(6) {
            0 | 1 => (fp::ZERO, "on curve"),
            2 => (bit(t.below(448)), "residual one bit"),
            3 => (fl(&{
                let mut l = [0u32; 16];
                l[t.below(16)] = t.u32() & 0xfffffff;
                l
            }), "residual one limb"),
            4 => (fl(&limbs(t, 0xfffffff)), "arbitrary"),
            _ => (fp::ZERO, "z=0"),
        };
        let e = if t.chance(1, 2) { e } else { e.neg() };
        // keep the raw residual small in the projective form: z = 1 for those
        if kind.starts_with("residual") && t.chance(3, 4) {
            z = fp::ONE;
        }
        if kind == "z=0" {
            z = fp::ZERO;
        } else if z.is_zero() {
            z = fp::ONE;
        }
        let mut y = None;
        for _ in 0..12 {
            y = y_with_residual(x, e);
            if y.is_some() {
                break;
            }
            x = x.add(fp::ONE);
        }
        let y = y.unwrap_or(fp::ONE);
        CurveCase { x: x.to_limbs28(), y: redundant(t, y.to_limbs28(), 0xfffffff), z: z.to_limbs28(), kind: kind.into() }
    }
    fn test(&self, c: &CurveCase, o: &mut Obs) -> Result<(), String> {
        let (x, y, z) = (fl(&c.x), fl(&c.y), fl(&c.z));
        let e = y.sq().sub(x.sq()).sub(fp::ONE).add(Fp::from_u64(39082).mul(x.sq()).mul(y.sq()));
        let want = e.is_zero() && !z.is_zero();
        o.class(c.kind.split(" bit ").next().unwrap().to_string());
        if want || c.kind.starts_with("residual") {
            o.hit();
        }
        // X = z(b-a), Y = z(b+a), Z = z^2, T = (b-a)(b+a)
        let (sx, sy) = if z.is_zero() { (x, y) } else { (x.mul(z), y.mul(z)) };
        let a = sy.sub(sx).mul(half());
        let b = sy.add(sx).mul(half());
        let p = Pn { n: TwistedNiels { a: a.to_limbs28(), b: b.to_limbs28(), c: [0; 16] }, z: z.to_limbs28() }.to_extended_point();
        if p.is_on_curve() != want {
            return Err(format!("is_on_curve is {} for x={} y={} z={}: the equation says {want}", !want, hex::encode(x.to_bytes()), hex::encode(y.to_bytes()), hex::encode(z.to_bytes())));
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RtCase {
    n: B,
    other: B,
    scale: [u32; 16],
}
pub struct RoundTrip;
impl Check for RoundTrip {
    type Case = RtCase;
    fn name(&self) -> &'static str {
        "encode-decode"
    }
    fn rule(&self) -> &'static str {
        "group elements in two projective representations, encoded, compared with the reference, decoded and re-encoded; pairs of elements encode equally exactly when equal; non-trivial: not the identity"
    }
    fn tape_len(&self) -> usize {
        400
    }
    fn budget(&self) -> (u64, u64) {
        (200_000, 3_000_000)
    }
    fn fixed(&self) -> Vec<RtCase> {
        (0..300u64)
            .flat_map(|i| {
                let mut l = [0u32; 16];
                l[(i % 16) as usize] = 1 + i as u32;
                [Sc::from_u64(i), Sc::from_u64(i).neg()].map(|n| RtCase { n: bs(n), other: bs(n.neg()), scale: l })
            })
            .collect()
    }
    fn gen(&self, t: &mut Tape) -> RtCase {
        let n = small_or_any(t);
        let other = match t.below(5) {
            0 => n,
            1 => n.neg(),
            2 => n.add(sc::ONE),
            _ => small_or_any(t),
        };
        RtCase { n: bs(n), other: bs(other), scale: limbs(t, 0xfffffff) }
    }
    fn test(&self, c: &RtCase, o: &mut Obs) -> Result<(), String> {
        let (n, k) = (of(&c.n), of(&c.other));
        if n != sc::ZERO {
            o.hit();
        }
        o.class(if n == k { "equal pair" } else { "different pair" });
        let p = precomputed_scalar_mul(n.to_words32());
        let q = rescale(&p, &c.scale);
        let w = enc(n);
        for (x, what) in [(&p, "as computed"), (&q, "rescaled")] {
            let g = x.eddsa_like_encode();
            if g != w {
                return Err(format!("encoding ({what}) is {}, RFC 8032 gives {}", hex::encode(g), hex::encode(w)));
            }
        }
        let kp = precomputed_scalar_mul(k.to_words32());
        if (kp.eddsa_like_encode() == w) != (n == k) {
            return Err("distinct elements with one encoding, or the reverse".into());
        }
        // decoding divides by four what encoding multiplied by four
        let d = eddsa_like_decode(&w).map_err(|_| format!("own encoding {} refused", hex::encode(w)))?;
        if !d.mod_equal(&p) || !d.is_on_curve() {
            return Err(format!("decode(encode(p)) differs from p for {}", hex::encode(w)));
        }
        if d.eddsa_like_encode() != w {
            return Err(format!("encode(decode({})) = {}", hex::encode(w), hex::encode(d.eddsa_like_encode())));
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ArbCase {
    b: B,
}
pub struct Arbitrary;
impl Check for Arbitrary {
    type Case = ArbCase;
    fn name(&self) -> &'static str {
        "decode-arbitrary"
    }
    fn rule(&self) -> &'static str {
        "57-byte strings on and around the valid encodings (y near 0, p, 2^448, spare bits, sign of zero, small-order and mixed points, off the curve by one limb or bit) and other lengths: acceptance and the resulting element compared with the reference; non-trivial: accepted, or refused for something else than being off the curve at random"
    }
    fn tape_len(&self) -> usize {
        400
    }
    fn budget(&self) -> (u64, u64) {
        (300_000, 6_000_000)
    }
    fn fixed(&self) -> Vec<ArbCase> {
        let mut v: Vec<B> = vec![];
        for d in -40..40 {
            let mut b = gen::p_plus(d);
            for top in [0u8, 0x80, 0x01, 0x40] {
                b[56] = top;
                v.push(b.into());
            }
        }
        for i in 0..120u8 {
            for top in [0u8, 0x80] {
                let mut b = [0u8; 57];
                b[0] = i;
                b[56] = top;
                v.push(b.into());
            }
        }
        for i in 0..4 {
            let e = refed::torsion(i).encode();
            for bit in 0..456 {
                let mut b = e;
                b[bit / 8] ^= 1 << (bit % 8);
                v.push(b.into());
            }
            v.push(e.into());
        }
        for (_, b) in gen::nearmiss() {
            for x in [0u8, 0x80] {
                let mut c = b;
                c[56] ^= x;
                v.push(c.into());
            }
        }
        for n in 0..130 {
            v.push(B(vec![0; n]));
            let mut e = refed::base().encode().to_vec();
            e.resize(n, 0);
            v.push(B(e));
        }
        v.into_iter().map(|b| ArbCase { b }).collect()
    }
    fn gen(&self, t: &mut Tape) -> ArbCase {
        let mut b = gen::weird_encoding(t).to_vec();
        if t.chance(1, 30) {
            let n = t.below(130);
            b.resize(n, 0);
        }
        ArbCase { b: B(b) }
    }
    fn test(&self, c: &ArbCase, o: &mut Obs) -> Result<(), String> {
        let b = &c.b.0;
        let got = eddsa_like_decode(b);
        let Ok(a) = <[u8; 57]>::try_from(&b[..]) else {
            o.class("wrong length");
            o.hit();
            return if got.is_err() { Ok(()) } else { Err(format!("{} bytes decoded as a point", b.len())) };
        };
        match (refed::decode(&a), got) {
            (Ok(p), Ok(q)) => {
                o.class("accepted");
                o.hit();
                let w = p.prime_part().encode();
                let g = q.eddsa_like_encode();
                if g != w {
                    return Err(format!("{} decodes to {}, should be {}", hex::encode(a), hex::encode(g), hex::encode(w)));
                }
                if !q.is_on_curve() {
                    return Err(format!("{} decodes to a point reported off the curve", hex::encode(a)));
                }
                Ok(())
            }
            (Err(e), Err(_)) => {
                o.class(format!("{e:?}"));
                if e != refed::DecErr::NotOnCurve {
                    o.hit();
                }
                Ok(())
            }
            (Ok(_), Err(_)) => Err(format!("valid encoding {} refused", hex::encode(a))),
            (Err(e), Ok(_)) => Err(format!("invalid encoding {} ({e:?}) accepted", hex::encode(a))),
        }
    }
}
