//! Reference definitions, written from the documentation and independent of the code under test.
use ark_ff::{BigInteger, BigInteger256, Field, PrimeField};

pub fn pw<F: Field>(x: F, e: usize) -> F { let mut r = F::one(); for _ in 0..e { r *= x; } r }

/// Feistel delay function: (L,R) -> (R + (L+c)^e, L)
pub fn ref_df<F: Field>(l: F, r: F, c: &[F], e: usize) -> F {
    let (mut l, mut r) = (l, r);
    for k in c { let n = r + pw(l + k, e); r = l; l = n; }
    l
}
/// keyed hash, first round without constant
pub fn ref_hash<F: Field>(x: F, k: F, c: &[F], e: usize) -> F {
    let mut h = pw(x + k, e);
    for ci in &c[1..] { h = pw(h + k + ci, e); }
    h + k
}
pub fn ref_multi<F: Field>(xs: &[F], key: F, c: &[F], e: usize) -> F {
    let mut r = key;
    for x in xs { let h = ref_hash(*x, r, c, e); r = r + x + h; }
    r
}

pub const DF3: usize = 322;
pub const DF5: usize = 10;
pub const H5: usize = 10;
pub const H7: usize = 91;

pub fn fe<F: PrimeField>(x: u64) -> F {
    // ark-ff converts only canonical values
    let c = F::characteristic();
    F::from(if c.iter().skip(1).all(|w| *w == 0) { x % c[0] } else { x })
}
pub fn val<F: PrimeField>(x: F) -> BigInteger256 where F::BigInt: Into<BigInteger256> { x.into_repr().into() }
pub fn low<F: PrimeField>(x: F) -> u64 { x.into_repr().as_ref()[0] }
pub fn bits_le<F: PrimeField>(x: F) -> Vec<bool> { x.into_repr().to_bits_le() }
/// low n bits of the canonical representation, n <= 64
pub fn low_bits<F: PrimeField>(x: F, n: usize) -> usize {
    bits_le(x).iter().take(n).enumerate().map(|(i, b)| (*b as usize) << i).sum()
}
pub fn show<F: PrimeField>(x: F) -> String {
    let r = x.into_repr();
    let l = r.as_ref();
    if l[1..].iter().all(|w| *w == 0) { l[0].to_string() } else { format!("0x{}", l.iter().rev().map(|w| format!("{w:016x}")).collect::<String>()) }
}
pub fn shows<F: PrimeField>(x: &[F]) -> Vec<String> { x.iter().map(|v| show(*v)).collect() }

/// All elements of a toy field.
pub fn all<F: PrimeField>() -> Vec<F> {
    let p = F::characteristic()[0];
    (0..p).map(fe).collect()
}
/// Boundary and scattered elements of a large field.
pub fn edge<F: PrimeField>() -> Vec<F> {
    let two64 = fe::<F>(u64::MAX) + F::one();
    let mut v = vec![F::zero(), F::one(), fe::<F>(2u64), -F::one(), -fe::<F>(2u64), fe::<F>(u64::MAX), two64, two64 * two64 + fe::<F>(3u64),
        fe::<F>(2u64).inverse().unwrap(), -fe::<F>(2u64).inverse().unwrap(), two64 * two64 * two64 - F::one()];
    for i in 0..4u64 { v.push(scatter::<F>(i)); }
    v
}
pub fn scatter<F: PrimeField>(i: u64) -> F {
    let mut r = F::zero();
    for k in 0..5 { r = r * (fe::<F>(u64::MAX) + F::one()) + fe::<F>(mc::mix(i * 7 + k)); }
    r
}
pub fn consts<F: PrimeField>(n: usize, salt: u64) -> Vec<F> {
    match salt {
        0 => vec![F::zero(); n],
        1 => (0..n as u64).map(fe).collect(),
        _ => (0..n as u64).map(|i| scatter(salt * 1000 + i)).collect(),
    }
}
