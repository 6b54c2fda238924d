//! C15: base-field arithmetic through the hooks, against refed::fp.
use crate::gen::{self, B};
use crate::repr::{limbs, redundant, L, MASK, PL, RAW, WEAK};
use crate::refed::fp::{self, Fp};
use crate::run::{Check, DynCheck, Obs, W};
use crate::tape::Tape;
use libgoldilocks::verif_hooks::field as f;
use serde::{Deserialize, Serialize};

pub fn add(v: &mut Vec<Box<dyn DynCheck>>) {
    v.push(Box::new(W(Ops)));
    v.push(Box::new(W(Chain)));
    v.push(Box::new(W(Equal)));
    v.push(Box::new(W(Bytes)));
}

fn r(x: &L) -> Fp {
    Fp::from_limbs28(x)
}

const NAMES: [&str; 22] = [
    "mul", "square", "add", "sub", "neg", "mul_w", "mul_signed", "sub_bias3", "sub_bias4", "add_raw", "strong_reduce", "weak_reduce", "low_bit",
    "serialize", "cond_negate", "cond_swap", "select", "invert", "isr", "square_n", "decaf_cond_negate", "decaf_select",
];
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OpCase {
    op: String,
    x: L,
    y: L,
    w: u64,
}
fn hexl(x: &L) -> String {
    format!("{:x?}", x)
}
pub struct Ops;
impl Check for Ops {
    type Case = OpCase;
    fn name(&self) -> &'static str {
        "field-ops"
    }
    fn rule(&self) -> &'static str {
        "one field operation on limbs within the bounds the curve code respects (canonical, redundant, extreme, sparse, residues near 0 and p), residue compared with the reference; non-trivial: some limb of an operand is 0, at least 2^28-1, or the operand is redundant"
    }
    fn tape_len(&self) -> usize {
        420
    }
    fn budget(&self) -> (u64, u64) {
        (8_000_000, 200_000_000)
    }
    fn fixed(&self) -> Vec<OpCase> {
        let mut v = vec![];
        let mut xs: Vec<L> = vec![[0; 16], PL, [MASK; 16], [WEAK; 16]];
        for i in 0..16 {
            let mut a = [0; 16];
            a[i] = 1;
            xs.push(a);
            a[i] = MASK;
            xs.push(a);
            let mut b = PL;
            b[i] -= 1;
            xs.push(b);
        }
        for n in NAMES {
            for x in &xs {
                for y in [&xs[0], &xs[1], &xs[3], &xs[7], x] {
                    v.push(OpCase { op: n.into(), x: *x, y: *y, w: 39082 });
                }
            }
        }
        for n in ["mul", "square", "sub_bias3", "add_raw"] {
            for x in [[RAW; 16], [MASK; 16]] {
                v.push(OpCase { op: n.into(), x: if n == "sub_bias3" { [WEAK; 16] } else { x }, y: [RAW; 16], w: 0 });
            }
        }
        for n in 1..=240 {
            v.push(OpCase { op: "square_n".into(), x: xs[5], y: xs[0], w: n });
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> OpCase {
        let i = match t.below(100) {
            0..=24 => 0,
            25..=44 => 1,
            45..=94 => 2 + t.below(15),
            95 => 17,
            96 => 18,
            97 => 19,
            _ => 20 + t.below(2),
        };
        let op = NAMES[i];
        let (lx, ly) = match op {
            "mul" | "square" => (RAW, RAW),
            "sub_bias3" => (WEAK, RAW),
            "sub_bias4" => (RAW, WEAK),
            _ => (WEAK, WEAK),
        };
        let x = limbs(t, lx);
        let y = if t.chance(1, 8) { redundant(t, x, lx) } else { limbs(t, ly) };
        let y = if y.iter().any(|v| *v > ly) { limbs(t, ly) } else { y };
        let w = match op {
            "square_n" => 1 + t.below(240) as u64,
            "mul_w" | "mul_signed" => match t.below(5) {
                0 => 39081,
                1 => 39082,
                2 => 78164,
                3 => t.below(100) as u64,
                _ => t.u64() & MASK as u64,
            },
            _ => t.below(2) as u64,
        };
        OpCase { op: op.into(), x, y, w }
    }
    fn test(&self, c: &OpCase, o: &mut Obs) -> Result<(), String> {
        let (x, y) = (c.x, c.y);
        let (rx, ry) = (r(&x), r(&y));
        if x.iter().chain(y.iter()).any(|l| *l == 0 || *l >= MASK) {
            o.hit();
        }
        o.class(c.op.clone());
        let res = |got: L, want: Fp| {
            if r(&got) == want {
                Ok(())
            } else {
                Err(format!("{}: x={} y={} w={} gives {}, residue should be {}", c.op, hexl(&x), hexl(&y), c.w, hexl(&got), hexl(&want.to_limbs28())))
            }
        };
        let m = if c.w & 1 == 1 { u32::MAX } else { 0 };
        match c.op.as_str() {
            "mul" => res(f::mul(&x, &y), rx.mul(ry)),
            "square" => res(f::square(&x), rx.sq()),
            "add" => res(f::add(&x, &y), rx.add(ry)),
            "sub" => res(f::sub(&x, &y), rx.sub(ry)),
            "neg" => res(f::neg(&x), rx.neg()),
            "mul_w" => res(f::mul_w(&x, &c.w), rx.mul(Fp::from_u64(c.w))),
            "mul_signed" => {
                res(f::mul_with_signed_curve_constant(&x, &(c.w as i64)), rx.mul(Fp::from_u64(c.w)))?;
                res(f::mul_with_signed_curve_constant(&x, &-(c.w as i64)), rx.mul(Fp::from_u64(c.w)).neg())
            }
            "sub_bias3" => res(f::sub_x_bias(&x, &y, &3), rx.sub(ry)),
            "sub_bias4" => res(f::sub_x_bias(&x, &y, &4), rx.sub(ry)),
            "add_raw" => res(f::add_raw(&x, &y), rx.add(ry)),
            "strong_reduce" => {
                let g = f::strong_reduce(x);
                res(g, rx)?;
                if g == rx.to_limbs28() {
                    Ok(())
                } else {
                    Err(format!("strong_reduce({}) = {} is not canonical", hexl(&x), hexl(&g)))
                }
            }
            "weak_reduce" => res(f::weak_reduce(x), rx),
            "low_bit" => {
                let g = f::low_bit(&x);
                if g == if rx.lsb() == 1 { u32::MAX } else { 0 } {
                    Ok(())
                } else {
                    Err(format!("low_bit({}) = {g:x}", hexl(&x)))
                }
            }
            "serialize" => {
                let g = f::dsa_like_serialize(&x);
                if g == rx.to_bytes() {
                    Ok(())
                } else {
                    Err(format!("serialize({}) = {}, want {}", hexl(&x), hex::encode(g), hex::encode(rx.to_bytes())))
                }
            }
            "cond_negate" => res(f::conditional_negate(&x, &m), if m != 0 { rx.neg() } else { rx }),
            "decaf_cond_negate" => res(f::decaf_cond_negate(&x, &m), if m != 0 { rx.neg() } else { rx }),
            "cond_swap" => {
                let (mut a, mut b) = (x, y);
                f::conditional_swap(&mut a, &mut b, &m);
                let (wa, wb) = if m != 0 { (ry, rx) } else { (rx, ry) };
                res(a, wa)?;
                res(b, wb)
            }
            "select" => res(f::constant_time_select(&x, &y, &m), if m != 0 { rx } else { ry }),
            "decaf_select" => res(f::decaf_const_time_select(&x, &y, &m), if m != 0 { ry } else { rx }),
            "invert" => {
                let g = f::invert(&x);
                if rx.is_zero() {
                    return res(g, fp::ZERO);
                }
                if r(&g).mul(rx) == fp::ONE {
                    Ok(())
                } else {
                    Err(format!("invert({}) = {} is not the inverse", hexl(&x), hexl(&g)))
                }
            }
            "isr" => {
                // of x and of x^2: one of them is certainly a square; the sign of the root is free
                for a in [x, f::strong_reduce(rx.sq().to_limbs28())] {
                    let ra = r(&a);
                    if ra.is_square() {
                        let g = r(&f::isr(&a));
                        if g.sq().mul(ra) != fp::ONE {
                            return Err(format!("isr({}) is not an inverse square root", hexl(&a)));
                        }
                    }
                }
                Ok(())
            }
            "square_n" => {
                let mut w = rx;
                for _ in 0..c.w {
                    w = w.sq();
                }
                res(f::square_n(&x, c.w as usize), w)
            }
            o => Err(format!("unknown op {o}")),
        }
    }
}

/// histories: registers hold the limbs the library itself produced, tracked by residues
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChainCase {
    init: Vec<L>,
    ops: Vec<(u8, u8, u8, u8)>,
}
pub struct Chain;
impl Check for Chain {
    type Case = ChainCase;
    fn name(&self) -> &'static str {
        "field-chain"
    }
    fn rule(&self) -> &'static str {
        "sequences of up to 24 field operations over four registers, in the add_raw/sub/mul discipline of the curve formulas, every result compared by residue; non-trivial: at least 8 operations"
    }
    fn tape_len(&self) -> usize {
        600
    }
    fn budget(&self) -> (u64, u64) {
        (2_000_000, 50_000_000)
    }
    fn gen(&self, t: &mut Tape) -> ChainCase {
        let n = 2 + t.below(23);
        let ops = (0..n).map(|_| (t.below(9) as u8, t.below(4) as u8, t.below(4) as u8, t.below(4) as u8)).collect();
        ChainCase { init: (0..4).map(|_| limbs(t, WEAK)).collect(), ops }
    }
    fn test(&self, c: &ChainCase, o: &mut Obs) -> Result<(), String> {
        let mut reg: Vec<L> = c.init.clone();
        let mut model: Vec<Fp> = reg.iter().map(r).collect();
        let mut raw = [false; 4];
        if c.ops.len() >= 8 {
            o.hit();
        }
        for (i, &(op, d, a, b)) in c.ops.iter().enumerate() {
            let (d, a, b) = (d as usize & 3, a as usize & 3, b as usize & 3);
            let (x, y, mx, my) = (reg[a], reg[b], model[a], model[b]);
            let (rx, ry) = (raw[a], raw[b]);
            // an unreduced sum may only enter mul, square or a biased subtraction
            let (g, m, rw, name) = match op % 9 {
                0 | 1 => (f::mul(&x, &y), mx.mul(my), false, "mul"),
                2 => (f::square(&x), mx.sq(), false, "square"),
                3 if !rx && !ry => (f::add_raw(&x, &y), mx.add(my), true, "add_raw"),
                4 if !rx && !ry => (f::add(&x, &y), mx.add(my), false, "add"),
                5 if !rx && !ry => (f::sub(&x, &y), mx.sub(my), false, "sub"),
                6 if !rx => (f::sub_x_bias(&x, &y, &3), mx.sub(my), false, "sub_bias3"),
                7 if !ry => (f::sub_x_bias(&x, &y, &4), mx.sub(my), false, "sub_bias4"),
                8 if !rx => (f::mul_w(&x, &39082), mx.mul(Fp::from_u64(39082)), false, "mul_w"),
                _ => (f::mul(&x, &y), mx.mul(my), false, "mul"),
            };
            o.class(name);
            if r(&g) != m {
                return Err(format!("step {i} {name}: {} , {} gives {}, residue should be {}", hexl(&x), hexl(&y), hexl(&g), hexl(&m.to_limbs28())));
            }
            reg[d] = g;
            model[d] = m;
            raw[d] = rw;
        }
        for i in 0..4 {
            if !raw[i] {
                if f::dsa_like_serialize(&reg[i]) != model[i].to_bytes() {
                    return Err(format!("serialize({}) at the end", hexl(&reg[i])));
                }
                for j in 0..4 {
                    if !raw[j] && (f::decaf_equal(&reg[i], &reg[j]) == u32::MAX) != (model[i] == model[j]) {
                        return Err(format!("decaf_equal({}, {})", hexl(&reg[i]), hexl(&reg[j])));
                    }
                }
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EqCase {
    x: L,
    y: L,
}
pub struct Equal;
impl Check for Equal {
    type Case = EqCase;
    fn name(&self) -> &'static str {
        "field-equality"
    }
    fn rule(&self) -> &'static str {
        "pairs with equal residues in different representations, or residues differing by one limb, one bit, p-adjacent or small amounts; non-trivial: limbs differ"
    }
    fn tape_len(&self) -> usize {
        300
    }
    fn budget(&self) -> (u64, u64) {
        (4_000_000, 100_000_000)
    }
    fn fixed(&self) -> Vec<EqCase> {
        let mut v = vec![];
        for base in [[0u32; 16], PL, [0x1234567; 16], [MASK; 16]] {
            for bit in 0..448 {
                let mut d = [0u32; 16];
                d[bit / 28] = 1 << (bit % 28);
                let y = r(&base).add(r(&d)).to_limbs28();
                v.push(EqCase { x: base, y });
                v.push(EqCase { x: y, y: base });
            }
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> EqCase {
        let x = limbs(t, WEAK);
        let mut d = [0u32; 16];
        match t.below(6) {
            0 | 1 => {}
            2 => d[t.below(16)] = 1 << t.below(28),
            3 => d[t.below(16)] = t.u32() & MASK,
            4 => d[0] = t.below(64) as u32,
            _ => {
                for _ in 0..1 + t.below(4) {
                    d[t.below(16)] = 1 << t.below(28);
                }
            }
        }
        let y = if t.chance(1, 2) { r(&x).add(r(&d)) } else { r(&x).sub(r(&d)) };
        EqCase { x, y: redundant(t, y.to_limbs28(), WEAK) }
    }
    fn test(&self, c: &EqCase, o: &mut Obs) -> Result<(), String> {
        let want = r(&c.x) == r(&c.y);
        o.class(if want { "equal" } else { "different" });
        if c.x != c.y {
            o.hit();
        }
        for (a, b) in [(&c.x, &c.y), (&c.y, &c.x)] {
            let g = f::decaf_equal(a, b);
            if g != if want { u32::MAX } else { 0 } {
                return Err(format!("decaf_equal({}, {}) = {g:x}, residues are {}", hexl(a), hexl(b), if want { "equal" } else { "different" }));
            }
        }
        if want != (f::dsa_like_serialize(&c.x) == f::dsa_like_serialize(&c.y)) {
            return Err(format!("serializations of {} and {}", hexl(&c.x), hexl(&c.y)));
        }
        if want && f::low_bit(&c.x) != f::low_bit(&c.y) {
            return Err(format!("sign bits of {} and {}", hexl(&c.x), hexl(&c.y)));
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BytesCase {
    b: B,
}
pub struct Bytes;
impl Check for Bytes {
    type Case = BytesCase;
    fn name(&self) -> &'static str {
        "field-bytes"
    }
    fn rule(&self) -> &'static str {
        "56-byte strings over the whole range, concentrated around p and 2^448; parsed residue and below-p verdict compared; non-trivial: an all-ones or all-zero 28-bit limb"
    }
    fn tape_len(&self) -> usize {
        200
    }
    fn budget(&self) -> (u64, u64) {
        (2_000_000, 50_000_000)
    }
    fn fixed(&self) -> Vec<BytesCase> {
        let mut v = vec![];
        for d in -300..300 {
            v.push(gen::p_plus(d));
        }
        for i in 0..448 {
            let mut b = gen::p_plus(0);
            b[i / 8] ^= 1 << (i % 8);
            v.push(b);
            let mut b = [0u8; 57];
            b[i / 8] ^= 1 << (i % 8);
            v.push(b);
        }
        v.push([0xff; 57]);
        v.into_iter().map(|b| BytesCase { b: b[..56].into() }).collect()
    }
    fn gen(&self, t: &mut Tape) -> BytesCase {
        BytesCase { b: gen::weird_encoding(t)[..56].into() }
    }
    fn test(&self, c: &BytesCase, o: &mut Obs) -> Result<(), String> {
        let b = &c.b.0[..];
        let canon = Fp::from_bytes_canonical(b);
        o.class(if canon.is_some() { "below p" } else { "not below p" });
        let (n, m) = f::dsa_like_deserialize(b, 0);
        if n.iter().any(|l| *l == 0 || *l >= MASK - 1) {
            o.hit();
        }
        if r(&n) != Fp::reduce_bytes(b) {
            return Err(format!("deserialize({}) = {}", hex::encode(b), hexl(&n)));
        }
        if (m != 0) != canon.is_some() || (m != 0 && m != u32::MAX) {
            return Err(format!("deserialize({}): mask {m:x}", hex::encode(b)));
        }
        let back = f::dsa_like_serialize(&n);
        if back != Fp::reduce_bytes(b).to_bytes() {
            return Err(format!("serialize(deserialize({})) = {}", hex::encode(b), hex::encode(back)));
        }
        Ok(())
    }
}
