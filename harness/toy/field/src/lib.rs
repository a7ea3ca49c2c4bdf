//! Small prime fields with the interface (and the very implementation) of the real scalar field,
//! so that whole spaces of field values can be enumerated. The modulus must be a prime >= 11
//! (the decimal parser of ark-ff uses the constant 10).
use ark_ff::{
    biginteger::BigInteger256 as B,
    fields::{FftParameters, Fp256, Fp256Parameters, FpParameters},
};

pub struct P<const M: u64>;
pub type F<const M: u64> = Fp256<P<M>>;
pub type F11 = F<11>;
pub type F13 = F<13>;
pub type F17 = F<17>;
pub type F31 = F<31>;

const fn mulm(a: u64, b: u64, m: u64) -> u64 { ((a as u128 * b as u128) % m as u128) as u64 }
const fn powm(mut a: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1 % m;
    a %= m;
    while e > 0 { if e & 1 == 1 { r = mulm(r, a, m); } a = mulm(a, a, m); e >>= 1; }
    r
}
const fn r(m: u64) -> u64 { powm(2, 256, m) }
const fn inv64(m: u64) -> u64 {
    // -m^{-1} mod 2^64
    let mut x: u64 = 1;
    let mut i = 0;
    while i < 64 { x = x.wrapping_mul(2u64.wrapping_sub(m.wrapping_mul(x))); i += 1; }
    x.wrapping_neg()
}
const fn order(g: u64, m: u64) -> u64 {
    let mut k = 1;
    let mut x = g % m;
    while x != 1 { x = mulm(x, g, m); k += 1; }
    k
}
const fn generator(m: u64) -> u64 { let mut g = 2; while order(g, m) != m - 1 { g += 1; } g }
const fn two_adicity(m: u64) -> u32 { (m - 1).trailing_zeros() }
const fn bits(m: u64) -> u32 { 64 - m.leading_zeros() }
const fn b(x: u64) -> B { B([x, 0, 0, 0]) }

impl<const M: u64> Fp256Parameters for P<M> {}
impl<const M: u64> FftParameters for P<M> {
    type BigInt = B;
    const TWO_ADICITY: u32 = two_adicity(M);
    const TWO_ADIC_ROOT_OF_UNITY: B = b(mulm(powm(generator(M), (M - 1) >> two_adicity(M), M), r(M), M));
}
impl<const M: u64> FpParameters for P<M> {
    const MODULUS: B = b(M);
    const MODULUS_BITS: u32 = bits(M);
    const CAPACITY: u32 = bits(M) - 1;
    const REPR_SHAVE_BITS: u32 = 256 - bits(M);
    const R: B = b(r(M));
    const R2: B = b(mulm(r(M), r(M), M));
    const INV: u64 = inv64(M);
    const GENERATOR: B = b(mulm(generator(M), r(M), M));
    const MODULUS_MINUS_ONE_DIV_TWO: B = b((M - 1) / 2);
    const T: B = b((M - 1) >> two_adicity(M));
    const T_MINUS_ONE_DIV_TWO: B = b(((M - 1) >> two_adicity(M)) / 2);
}
