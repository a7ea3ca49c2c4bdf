//! Ideal proof system with the interface of ark-groth16: a proof verifies exactly for the public
//! inputs it was made for, under the key of the very constraint system it was made for, and only if
//! the witness satisfied it. This is what Groth16 guarantees up to negligible probability; the real
//! Groth16 is exercised by the checks on the real field.
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem, ConstraintMatrices, OptimizationGoal, Result as R1CSResult, SynthesisError, SynthesisMode};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use toy_ec::PairingEngine;

#[derive(Clone, Debug, PartialEq)]
pub struct Shape<E: PairingEngine> {
    pub num_instance: usize,
    pub num_witness: usize,
    pub a: Vec<Vec<(E::Fr, usize)>>,
    pub b: Vec<Vec<(E::Fr, usize)>>,
    pub c: Vec<Vec<(E::Fr, usize)>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct VerifyingKey<E: PairingEngine> {
    pub id: u64,
    /// one more than the number of public inputs, as in the real key
    pub gamma_abc_g1: Vec<()>,
    pub shape: Shape<E>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct ProvingKey<E: PairingEngine> { pub vk: VerifyingKey<E> }
#[derive(Clone, Debug, PartialEq)]
pub struct PreparedVerifyingKey<E: PairingEngine> { pub vk: VerifyingKey<E> }
#[derive(Clone, Debug, PartialEq)]
pub struct Proof<E: PairingEngine> {
    pub id: u64,
    pub inputs: Vec<E::Fr>,
    pub shape_ok: bool,
    pub satisfied: bool,
    pub tampered: bool,
}
impl<E: PairingEngine> From<VerifyingKey<E>> for PreparedVerifyingKey<E> { fn from(vk: VerifyingKey<E>) -> Self { Self { vk } } }
impl<E: PairingEngine> From<PreparedVerifyingKey<E>> for VerifyingKey<E> { fn from(p: PreparedVerifyingKey<E>) -> Self { p.vk } }

fn shape<E: PairingEngine>(m: ConstraintMatrices<E::Fr>) -> Shape<E> {
    Shape { num_instance: m.num_instance_variables, num_witness: m.num_witness_variables, a: m.a, b: m.b, c: m.c }
}

static NEXT: AtomicU64 = AtomicU64::new(1);

pub fn generate_random_parameters<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>, R: rand::Rng>(circuit: C, _rng: &mut R) -> R1CSResult<ProvingKey<E>> {
    let cs = ConstraintSystem::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    cs.set_mode(SynthesisMode::Setup);
    circuit.generate_constraints(cs.clone())?;
    cs.finalize();
    let s = shape::<E>(cs.to_matrices().ok_or(SynthesisError::MalformedVerifyingKey)?);
    Ok(ProvingKey { vk: VerifyingKey { id: NEXT.fetch_add(1, Relaxed), gamma_abc_g1: vec![(); s.num_instance], shape: s } })
}

pub fn create_proof_no_zk<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>>(circuit: C, pk: &ProvingKey<E>) -> R1CSResult<Proof<E>> {
    let cs = ConstraintSystem::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    circuit.generate_constraints(cs.clone())?;
    cs.finalize();
    let satisfied = cs.is_satisfied()?;
    let shape_ok = shape::<E>(cs.to_matrices().ok_or(SynthesisError::AssignmentMissing)?) == pk.vk.shape;
    let inputs = cs.borrow().ok_or(SynthesisError::MissingCS)?.instance_assignment[1..].to_vec();
    Ok(Proof { id: pk.vk.id, inputs, shape_ok, satisfied, tampered: false })
}
pub fn create_proof<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>>(circuit: C, pk: &ProvingKey<E>, _r: E::Fr, _s: E::Fr) -> R1CSResult<Proof<E>> { create_proof_no_zk(circuit, pk) }
pub fn create_random_proof<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>, R: rand::Rng>(circuit: C, pk: &ProvingKey<E>, _rng: &mut R) -> R1CSResult<Proof<E>> { create_proof_no_zk(circuit, pk) }
pub fn rerandomize_proof<E: PairingEngine, R: rand::Rng>(_rng: &mut R, _vk: &VerifyingKey<E>, proof: &Proof<E>) -> Proof<E> { proof.clone() }

pub fn prepare_verifying_key<E: PairingEngine>(vk: &VerifyingKey<E>) -> PreparedVerifyingKey<E> { PreparedVerifyingKey { vk: vk.clone() } }
pub fn prepare_inputs<E: PairingEngine>(pvk: &PreparedVerifyingKey<E>, public_inputs: &[E::Fr]) -> R1CSResult<Vec<E::Fr>> {
    if public_inputs.len() + 1 != pvk.vk.gamma_abc_g1.len() { return Err(SynthesisError::MalformedVerifyingKey); }
    Ok(public_inputs.to_vec())
}
pub fn verify_proof_with_prepared_inputs<E: PairingEngine>(pvk: &PreparedVerifyingKey<E>, proof: &Proof<E>, prepared_inputs: &Vec<E::Fr>) -> R1CSResult<bool> {
    Ok(proof.id == pvk.vk.id && proof.shape_ok && proof.satisfied && !proof.tampered && proof.inputs == *prepared_inputs)
}
pub fn verify_proof<E: PairingEngine>(pvk: &PreparedVerifyingKey<E>, proof: &Proof<E>, public_inputs: &[E::Fr]) -> R1CSResult<bool> {
    let p = prepare_inputs(pvk, public_inputs)?;
    verify_proof_with_prepared_inputs(pvk, proof, &p)
}
