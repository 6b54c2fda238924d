//! Start-up test of the reference: RFC 8032 / OpenSSL vectors and group identities. A failure here is an
//! error of the machinery, never a violation.
use crate::refed::{self, sc::Sc};
const VEC: &str = include_str!("../../corpus/vectors.txt");

pub fn run() -> Result<(), String> {
    for (n, l) in VEC.lines().enumerate() {
        let f: Vec<Vec<u8>> = l.split(' ').map(|x| if x == "-" { vec![] } else { hex::decode(x).unwrap() }).collect();
        let k: [u8; 57] = f[0][..].try_into().unwrap();
        if refed::private_to_public(&k)[..] != f[2][..] {
            return Err(format!("vector {n}: public key"));
        }
        if refed::sign_private(&k, &f[1])[..] != f[3][..] {
            return Err(format!("vector {n}: signature"));
        }
        if !refed::analyse(&f[2], &f[3], &f[1]).accept() {
            return Err(format!("vector {n}: verification"));
        }
        let mut bad = f[3].clone();
        bad[60] ^= 1;
        if refed::analyse(&f[2], &bad, &f[1]).accept() {
            return Err(format!("vector {n}: tampered signature accepted"));
        }
    }
    let lm1 = Sc::from_u64(1).neg();
    let b = refed::base();
    if !b.mul(&lm1).add(&b).is_identity() || !refed::mul_base(&lm1).add(&b).is_identity() {
        return Err("L*B".into());
    }
    for i in 0..4 {
        let t = refed::torsion(i);
        if !t.mul4().is_identity() || refed::decode(&t.encode()).map(|q| q != t).unwrap_or(true) {
            return Err(format!("torsion {i}"));
        }
        if b.add(&t).prime_part() != b {
            return Err("prime part".into());
        }
    }
    Ok(())
}
