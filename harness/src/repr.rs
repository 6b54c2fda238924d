//! Generators for field limbs and scalar words in the representations the library uses.
use crate::gen;
use crate::refed::sc::{self, Sc};
use crate::tape::Tape;

pub type L = [u32; 16];
pub const MASK: u32 = 0xfffffff;
/// what multiplication, weak reduction and the like leave in a limb
pub const WEAK: u32 = (1 << 28) + 64;
/// an unreduced sum of two of those
pub const RAW: u32 = 2 * WEAK;
pub const PL: L = [MASK, MASK, MASK, MASK, MASK, MASK, MASK, MASK, MASK - 1, MASK, MASK, MASK, MASK, MASK, MASK, MASK];

/// same residue, another limb representation, every limb at most `lim`
pub fn redundant(t: &mut Tape, mut x: L, lim: u32) -> L {
    if t.chance(1, 2) {
        // + p, limb by limb where it fits
        let mut y = x;
        let mut ok = true;
        for i in 0..16 {
            y[i] += PL[i];
            ok &= y[i] <= lim;
        }
        if ok {
            x = y;
        }
    }
    for _ in 0..t.below(20) {
        let i = t.below(16);
        if i < 15 {
            // borrow one unit from the next limb
            if x[i + 1] > 0 && x[i] + (1 << 28) <= lim {
                x[i + 1] -= 1;
                x[i] += 1 << 28;
            }
        } else if x[0] > 0 && x[8] > 0 && x[15] + (1 << 28) <= lim {
            // 2^448 = 2^224 + 1
            x[0] -= 1;
            x[8] -= 1;
            x[15] += 1 << 28;
        }
    }
    x
}

fn limb(t: &mut Tape, lim: u32) -> u32 {
    let v = match t.below(12) {
        0 | 1 => t.u32() & MASK,
        2 => 0,
        3 => MASK,
        4 => MASK - t.below(4) as u32,
        5 => t.below(5) as u32,
        6 => 1 << t.below(29),
        7 => lim,
        8 => lim - t.below(140) as u32,
        9 => (1 << 28) + t.below(65) as u32,
        10 => gen::dict_int(t).map(|v| v as u32).unwrap_or_else(|| t.u32()) & (u32::MAX >> 3),
        _ => (1u32 << t.below(29)).wrapping_sub(1),
    };
    if v > lim {
        v % (lim + 1)
    } else {
        v
    }
}

/// limbs as the curve code passes them; limbs at most lim
pub fn limbs(t: &mut Tape, lim: u32) -> L {
    let mut x = [0u32; 16];
    match t.below(10) {
        0 | 1 => {
            for l in x.iter_mut() {
                *l = t.u32() & MASK;
            }
        }
        2 | 3 => {
            for l in x.iter_mut() {
                *l = limb(t, lim);
            }
        }
        4 => {
            let v = limb(t, lim);
            x = [v; 16];
            for _ in 0..t.below(4) {
                x[t.below(16)] = limb(t, lim);
            }
        }
        5 => {
            // residues around 0 and p
            let d = t.below(40) as i64 - 20;
            let b = gen::p_plus(d);
            for i in 0..16 {
                for k in 0..28 {
                    let bit = 28 * i + k;
                    x[i] |= ((b[bit / 8] >> (bit % 8) & 1) as u32) << k;
                }
            }
        }
        6 => {
            // small values, powers of two
            if t.chance(1, 2) {
                x[t.below(16)] = 1 << t.below(28);
            } else {
                x[0] = t.below(1000) as u32;
            }
        }
        7 => {
            for l in x.iter_mut() {
                *l = t.u32() % (lim + 1);
            }
        }
        8 => {
            // sparse
            for _ in 0..1 + t.below(4) {
                x[t.below(16)] = limb(t, lim);
            }
        }
        _ => {
            let k = t.below(17);
            for (i, l) in x.iter_mut().enumerate() {
                *l = if i < k { MASK } else { 0 };
            }
            if t.chance(1, 2) {
                x[t.below(16)] = limb(t, lim);
            }
        }
    }
    if t.chance(1, 3) {
        x = redundant(t, x, lim);
    }
    x
}

pub fn word(t: &mut Tape) -> u32 {
    match t.below(9) {
        0 => 0,
        1 => u32::MAX,
        2 => u32::MAX - t.below(3) as u32,
        3 => t.below(4) as u32,
        4 => 1 << t.below(32),
        5 => (1u32 << t.below(32)).wrapping_sub(1),
        6 => gen::dict_int(t).map(|v| v as u32).unwrap_or(0x80000000),
        _ => t.u32(),
    }
}
/// words below the group order
pub fn scal(t: &mut Tape) -> Sc {
    match t.below(5) {
        0 => gen::special_scalar(t),
        1 | 2 => {
            let mut w = [0u32; 14];
            for x in w.iter_mut() {
                *x = word(t);
            }
            w[13] &= 0x3fffffff;
            Sc::from_words32(&w)
        }
        3 => {
            // close to the order, or to its words
            let mut w = Sc(sc::L).to_words32();
            for _ in 0..1 + t.below(3) {
                w[t.below(14)] = word(t);
            }
            Sc::from_words32(&w)
        }
        _ => Sc::reduce(&t.arr57()),
    }
}
