//! Stand-in for ark-bls12-381 over the field with 13 elements.
pub type FrParameters = toy_field::P<13>;
pub type Fr = toy_field::F<13>;
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Parameters;
impl toy_ec::bls12::Bls12Parameters for Parameters { type Fr = Fr; }
pub type Bls12_381 = toy_ec::bls12::Bls12<Parameters>;
