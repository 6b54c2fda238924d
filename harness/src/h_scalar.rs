//! C16: scalar arithmetic through the hooks, against refed::sc.
use crate::gen::{self, B};
use crate::repr::{scal, word};
use crate::refed::sc::{self, Sc};
use crate::run::{Check, DynCheck, Obs, W};
use crate::tape::Tape;
use libgoldilocks::verif_hooks::scalar as s;
use serde::{Deserialize, Serialize};

pub fn add(v: &mut Vec<Box<dyn DynCheck>>) {
    v.push(Box::new(W(Ops)));
    v.push(Box::new(W(Chain)));
    v.push(Box::new(W(Decode)));
}

type Wd = [u32; 14];

fn hw(x: &Wd) -> String {
    format!("{:x?}", x)
}
const R: fn() -> Sc = || {
    let mut b = [0u8; 57];
    b[56] = 1;
    Sc::reduce(&b)
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OpCase {
    x: B,
    y: B,
}
fn of(b: &B) -> Sc {
    Sc::reduce(&b.0)
}
pub struct Ops;
impl Check for Ops {
    type Case = OpCase;
    fn name(&self) -> &'static str {
        "scalar-ops"
    }
    fn rule(&self) -> &'static str {
        "pairs of scalars below the order (uniform, structured words, sums and differences at 0 and at the order); all operations compared exactly; non-trivial: an operand has an all-zero or all-ones word or the pair sums to within 16 of the order"
    }
    fn tape_len(&self) -> usize {
        320
    }
    fn budget(&self) -> (u64, u64) {
        (6_000_000, 48_000_000)
    }
    fn fixed(&self) -> Vec<OpCase> {
        let mut e: Vec<Sc> = vec![];
        for i in 0..6u64 {
            e.push(Sc::from_u64(i));
            e.push(Sc::from_u64(i + 1).neg());
        }
        e.push(sc::ONE.halve());
        e.push(sc::ONE.halve().halve());
        for k in 0..14 {
            let mut w = [0u32; 14];
            w[k] = 1;
            e.push(Sc::from_words32(&w));
            e.push(Sc::from_words32(&w).sub(sc::ONE));
        }
        let mut v = vec![];
        for a in &e {
            for b in &e {
                v.push(OpCase { x: a.to_bytes().into(), y: b.to_bytes().into() });
            }
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> OpCase {
        let x = scal(t);
        let d = Sc::from_u64(t.below(17) as u64);
        let y = match t.below(6) {
            0 => x.neg().add(d),
            1 => x.neg().sub(d),
            2 => x.add(d),
            3 => x.sub(d),
            _ => scal(t),
        };
        OpCase { x: x.to_bytes().into(), y: y.to_bytes().into() }
    }
    fn test(&self, c: &OpCase, o: &mut Obs) -> Result<(), String> {
        let (x, y) = (of(&c.x), of(&c.y));
        let (wx, wy) = (x.to_words32(), y.to_words32());
        let sum = x.add(y);
        let near = |v: Sc| v.to_words32()[1..].iter().all(|w| *w == 0) || v.neg().to_words32()[1..].iter().all(|w| *w == 0);
        if near(sum) || near(x.sub(y)) {
            o.class("sum or difference near the order");
            o.hit();
        }
        if wx.iter().chain(wy.iter()).any(|w| *w == 0 || *w == u32::MAX) {
            o.hit();
        }
        let eq = |n: &str, got: Wd, want: Sc| {
            if got == want.to_words32() {
                Ok(())
            } else {
                Err(format!("{n}({}, {}) = {}, should be {}", hw(&wx), hw(&wy), hw(&got), hw(&want.to_words32())))
            }
        };
        eq("add", s::add(&wx, &wy), sum)?;
        eq("sub", s::sub(&wx, &wy), x.sub(y))?;
        eq("halve", s::halve(wx), x.halve())?;
        let p = x.mul(y);
        eq("mul", s::mul(&wx, &wy), p)?;
        let m = s::montgomery_multiply(&wx, &wy);
        let ms = Sc::from_words32(&m);
        if ms.mul(R()) != p || ms.to_words32() != m {
            return Err(format!("montgomery_multiply({}, {}) = {}", hw(&wx), hw(&wy), hw(&m)));
        }
        if s::encode(&wx)[..] != x.to_bytes()[..] {
            return Err(format!("encode({})", hw(&wx)));
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChainCase {
    init: Vec<B>,
    ops: Vec<(u8, u8, u8, u8)>,
}
pub struct Chain;
impl Check for Chain {
    type Case = ChainCase;
    fn name(&self) -> &'static str {
        "scalar-chain"
    }
    fn rule(&self) -> &'static str {
        "sequences of up to 20 scalar operations over four registers, each result compared exactly with the model; non-trivial: at least 6 operations"
    }
    fn tape_len(&self) -> usize {
        600
    }
    fn budget(&self) -> (u64, u64) {
        (1_500_000, 12_000_000)
    }
    fn gen(&self, t: &mut Tape) -> ChainCase {
        let n = 2 + t.below(19);
        ChainCase {
            init: (0..4).map(|_| scal(t).to_bytes().into()).collect(),
            ops: (0..n).map(|_| (t.below(5) as u8, t.below(4) as u8, t.below(4) as u8, t.below(4) as u8)).collect(),
        }
    }
    fn test(&self, c: &ChainCase, o: &mut Obs) -> Result<(), String> {
        let mut m: Vec<Sc> = c.init.iter().map(of).collect();
        let mut w: Vec<Wd> = m.iter().map(|x| x.to_words32()).collect();
        if c.ops.len() >= 6 {
            o.hit();
        }
        for (i, &(op, d, a, b)) in c.ops.iter().enumerate() {
            let (d, a, b) = (d as usize & 3, a as usize & 3, b as usize & 3);
            let (g, want, n) = match op % 5 {
                0 => (s::add(&w[a], &w[b]), m[a].add(m[b]), "add"),
                1 => (s::sub(&w[a], &w[b]), m[a].sub(m[b]), "sub"),
                2 => (s::halve(w[a]), m[a].halve(), "halve"),
                3 => (s::mul(&w[a], &w[b]), m[a].mul(m[b]), "mul"),
                _ => (s::decode_long(&s::encode(&w[a])), m[a], "decode(encode)"),
            };
            if g != want.to_words32() {
                return Err(format!("step {i}: {n}({}, {}) = {}, should be {}", hw(&w[a]), hw(&w[b]), hw(&g), hw(&want.to_words32())));
            }
            w[d] = g;
            m[d] = want;
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DecCase {
    b: B,
}
pub struct Decode;
impl Check for Decode {
    type Case = DecCase;
    fn name(&self) -> &'static str {
        "scalar-decode"
    }
    fn rule(&self) -> &'static str {
        "little-endian byte strings of 0 to 400 bytes (uniform, multiples of the order plus or minus a little, all-ones runs), reduced value compared; non-trivial: the value is not below the order"
    }
    fn tape_len(&self) -> usize {
        620
    }
    fn budget(&self) -> (u64, u64) {
        (4_000_000, 32_000_000)
    }
    fn fixed(&self) -> Vec<DecCase> {
        let mut v = vec![];
        for n in 0..=400 {
            for f in [0u8, 0xff, 0x80, 1] {
                v.push(DecCase { b: B(vec![f; n]) });
            }
            let mut x = vec![0; n];
            if n > 0 {
                x[n - 1] = 1;
                v.push(DecCase { b: B(x) });
            }
        }
        for m in 0..1024u64 {
            for d in -2..3 {
                if m > 0 || d >= 0 {
                    v.push(DecCase { b: sc::multiple_of_l(m, d).into() });
                }
            }
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> DecCase {
        let n = match t.below(8) {
            0 => 57,
            1 => 56,
            2 => 114,
            3 => 112 + t.below(4),
            4 => t.below(60),
            5 => gen::dict_near(t, 500).unwrap_or(168),
            6 => t.below(400),
            _ => t.below(232),
        };
        let mut b = match t.below(4) {
            0 => t.bytes(n),
            1 => {
                let mut b = vec![0; n];
                for c in b.chunks_mut(4) {
                    let w = word(t).to_le_bytes();
                    c.copy_from_slice(&w[..c.len()]);
                }
                b
            }
            2 => {
                // blocks just around multiples of the order
                let mut b = vec![0; n];
                for c in b.chunks_mut(56) {
                    let w = sc::multiple_of_l(t.below(5) as u64 % 4 + 1, t.below(9) as i64 - 4);
                    c.copy_from_slice(&w[..c.len()]);
                }
                b
            }
            _ => {
                let mut b = vec![0xff; n];
                for _ in 0..t.below(6) {
                    if n > 0 {
                        let p = t.below(n);
                        b[p] = t.u8();
                    }
                }
                b
            }
        };
        if t.chance(1, 4) {
            gen::inject(t, &mut b);
        }
        DecCase { b: B(b) }
    }
    fn test(&self, c: &DecCase, o: &mut Obs) -> Result<(), String> {
        let b = &c.b.0;
        let want = Sc::reduce(b);
        let mut small = want.to_bytes().to_vec();
        small.resize(b.len().max(57), 0);
        let mut bb = b.clone();
        bb.resize(b.len().max(57), 0);
        if small != bb {
            o.hit();
        }
        o.class(format!("{} blocks", (b.len() + 55) / 56));
        let g = s::decode_long(b);
        if g != want.to_words32() {
            return Err(format!("decode_long({}) = {}, should be {}", hex::encode(b), hw(&g), hw(&want.to_words32())));
        }
        if s::encode(&g)[..] != want.to_bytes()[..] {
            return Err(format!("encode(decode_long({}))", hex::encode(b)));
        }
        if b.len() == 56 {
            let g = s::decode(b);
            if g != want.to_words32() {
                return Err(format!("decode({}) = {}, should be {}", hex::encode(b), hw(&g), hw(&want.to_words32())));
            }
        }
        Ok(())
    }
}
