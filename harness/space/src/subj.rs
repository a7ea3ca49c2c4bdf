//! The four builds of the proof-of-space crate behind one interface: the shipped one, the shipped
//! field with small sizes, and small sizes over the fields with 13 and 31 elements.
use ark_ff::PrimeField;
use crate::r1cs::{synth, Synth};

pub trait Space: Sync + Send + 'static {
    type Fr: PrimeField + ark_ff::SquareRootField;
    type Pk: Clone + Send + Sync;
    type Pvk: Clone + Send + Sync;
    type Proof: Clone + Send + Sync;
    const NAME: &'static str;
    fn n() -> usize;
    fn answers() -> usize;
    fn synth(key: Option<Self::Fr>, x: &[Option<Self::Fr>], m: Option<Self::Fr>, df: &[Self::Fr], yn: &[Option<Self::Fr>], h: Option<Self::Fr>, hc: &[Self::Fr], setup: bool) -> Result<Synth<Self::Fr>, String>;
    fn prepare(path: &str, n: usize) -> std::io::Result<()>;
    fn mark(path: &str, key: Self::Fr, m: Self::Fr, df: &Vec<Self::Fr>, n: usize);
    fn response_1(path: &str, ch: &Vec<usize>, key: Self::Fr, hc: &Vec<Self::Fr>, n: usize) -> (Vec<Self::Fr>, Vec<usize>, Self::Fr);
    fn keys(df: &Vec<Self::Fr>, hc: &Vec<Self::Fr>) -> Self::Pk;
    fn response_2(pk: Self::Pk, key: Self::Fr, x: &Vec<Self::Fr>, m: Self::Fr, df: &Vec<Self::Fr>, ch: &Vec<usize>, idx: &Vec<usize>, h: Self::Fr, hc: &Vec<Self::Fr>) -> (Self::Pvk, Self::Proof);
    fn verify(pvk: Self::Pvk, proof: Self::Proof, key: Self::Fr, m: Self::Fr, ch: &Vec<usize>, idx: &Vec<usize>, h: Self::Fr);
    fn challenges(n: usize, end: usize) -> Vec<usize>;
    #[allow(dead_code)]
    fn run(path: &str, df: Vec<Self::Fr>, hc: Vec<Self::Fr>, key: Self::Fr, m: Self::Fr, record: &mut std::fs::File);
}

macro_rules! space {
    ($t:ident, $krate:ident, $fr:ty, $e:ty, $g:ident, $name:expr) => {
        pub struct $t;
        impl Space for $t {
            type Fr = $fr;
            type Pk = $g::ProvingKey<$e>;
            type Pvk = $g::PreparedVerifyingKey<$e>;
            type Proof = $g::Proof<$e>;
            const NAME: &'static str = $name;
            fn n() -> usize { $krate::proof_of_space::pospace::N }
            fn answers() -> usize { $krate::proof_of_space::pospace::RESPONSE_COUNT }
            fn synth(key: Option<$fr>, x: &[Option<$fr>], m: Option<$fr>, df: &[$fr], yn: &[Option<$fr>], h: Option<$fr>, hc: &[$fr], setup: bool) -> Result<Synth<$fr>, String> {
                synth($krate::circuit::pospace_circuit::PospaceDemo { key, x, m, df_constants: df, yn, x_hash: h, hash_constants: hc }, setup)
            }
            fn prepare(path: &str, n: usize) -> std::io::Result<()> { $krate::proof_of_space::prover::prepare_space(path, n) }
            fn mark(path: &str, key: $fr, m: $fr, df: &Vec<$fr>, n: usize) { $krate::proof_of_space::prover::mark_space(path, key, m, df, n); }
            fn response_1(path: &str, ch: &Vec<usize>, key: $fr, hc: &Vec<$fr>, n: usize) -> (Vec<$fr>, Vec<usize>, $fr) { $krate::proof_of_space::prover::response_1(path, ch, key, hc, n) }
            fn keys(df: &Vec<$fr>, hc: &Vec<$fr>) -> Self::Pk { $krate::proof_of_space::prover::construct_circuit(df, hc) }
            fn response_2(pk: Self::Pk, key: $fr, x: &Vec<$fr>, m: $fr, df: &Vec<$fr>, ch: &Vec<usize>, idx: &Vec<usize>, h: $fr, hc: &Vec<$fr>) -> (Self::Pvk, Self::Proof) {
                $krate::proof_of_space::prover::response_2(pk, key, x, m, df, ch, idx, h, hc)
            }
            fn verify(pvk: Self::Pvk, proof: Self::Proof, key: $fr, m: $fr, ch: &Vec<usize>, idx: &Vec<usize>, h: $fr) { $krate::proof_of_space::verifier::verify(pvk, proof, key, m, ch, idx, h) }
            fn challenges(n: usize, end: usize) -> Vec<usize> { $krate::proof_of_space::verifier::create_challenges(n, end) }
            fn run(path: &str, df: Vec<$fr>, hc: Vec<$fr>, key: $fr, m: $fr, record: &mut std::fs::File) { $krate::proof_of_space::pospace::pospace(path, df, hc, key, m, record) }
        }
    };
}
space!(Real, space_real, ark_bls12_381::Fr, ark_bls12_381::Bls12_381, ark_groth16, "shipped sizes, scalar field");
space!(Tiny, space_tiny, ark_bls12_381::Fr, ark_bls12_381::Bls12_381, ark_groth16, "small sizes, scalar field");
#[cfg(feature = "toy")]
space!(Toy13, space_toy13, toy_field::F13, toy_bls13::Bls12_381, toy_groth16, "small sizes, field 13");
#[cfg(feature = "toy")]
space!(Toy31, space_toy31, toy_field::F31, toy_bls31::Bls12_381, toy_groth16, "small sizes, field 31");
