//! Stand-in for ark-ec: only the names the code under test uses to spell the proof types.
use ark_ff::PrimeField;
pub trait PairingEngine: Sized + 'static + Copy + core::fmt::Debug + Sync + Send + Eq {
    type Fr: PrimeField;
}
pub mod bls12 {
    pub trait Bls12Parameters: 'static + Copy + core::fmt::Debug + Sync + Send + Eq { type Fr: ark_ff::PrimeField; }
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct Bls12<P: Bls12Parameters>(core::marker::PhantomData<P>);
    impl<P: Bls12Parameters> super::PairingEngine for Bls12<P> { type Fr = P::Fr; }
}
