//! Stand-in for ark-bls12-381 over the field with 31 elements.
pub type FrParameters = toy_field::P<31>;
pub type Fr = toy_field::F<31>;
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Parameters;
impl toy_ec::bls12::Bls12Parameters for Parameters { type Fr = Fr; }
pub type Bls12_381 = toy_ec::bls12::Bls12<Parameters>;
