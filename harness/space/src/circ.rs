//! S02-S04: the gadget circuits.
use crate::r1cs::*;
use crate::util::*;
use ark_ff::PrimeField;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError};
use mc::{serde_json::json, Ctx};

use space_real::circuit as real;
use space_tiny::circuit as tiny;

/// A gadget instance: everything needed to build it with or without values.
#[derive(Clone)]
pub enum Gadget<F> {
    Df3 { c: Vec<F> },
    Df5 { c: Vec<F> },
    Hash5 { c: Vec<F>, len: usize },
    Hash7 { c: Vec<F>, len: usize },
    Pow { bits: usize },
    Equal { d: usize },
}

/// Private inputs: field values, and bits for the power and low-bits circuits.
#[derive(Clone, Debug)]
pub struct Private<F> { pub f: Vec<F>, pub bits: Vec<u8> }

pub struct Circ<F: PrimeField> { g: Gadget<F>, v: Option<Private<F>> }
impl<F: PrimeField> ConstraintSynthesizer<F> for Circ<F> {
    fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<(), SynthesisError> {
        let f = |i: usize| self.v.as_ref().map(|v| v.f[i]);
        let bits = |n: usize| -> Vec<Option<u8>> { (0..n).map(|i| self.v.as_ref().map(|v| v.bits[i])).collect() };
        match &self.g {
            Gadget::Df3 { c } => real::mimc3_df_circuit::MiMC3DFDemo::vp_new(f(0), f(1), c).generate_constraints(cs),
            Gadget::Df5 { c } => real::mimc5_df_circuit::MiMC5DFDemo::vp_new(f(0), f(1), c).generate_constraints(cs),
            Gadget::Hash5 { c, len } => { let x: Vec<_> = (0..*len).map(|i| f(i + 1)).collect(); real::mimc5_hash_circuit::MiMC5HashDemo::vp_new(&x, f(0), c).generate_constraints(cs) }
            Gadget::Hash7 { c, len } => { let x: Vec<_> = (0..*len).map(|i| f(i + 1)).collect(); real::mimc7_hash_circuit::MiMC7HashDemo::vp_new(&x, f(0), c).generate_constraints(cs) }
            Gadget::Pow { bits: n } => {
                let b = bits(*n);
                if *n == real::pow_circuit::INPUT_SIZE { real::pow_circuit::PowDemo { g: f(0), x_bits: &b }.generate_constraints(cs) }
                else { tiny::pow_circuit::PowDemo { g: f(0), x_bits: &b }.generate_constraints(cs) }
            }
            Gadget::Equal { d } => {
                let b = bits(real::equal_circuit::INPUT_SIZE);
                real::equal_circuit::EqualDemo { x1: f(0), x2: f(1), x_bits: &b, difficulty: *d }.generate_constraints(cs)
            }
        }
    }
}

impl<F: PrimeField> Gadget<F> {
    pub fn name(&self) -> String {
        match self {
            Gadget::Df3 { .. } => "mimc3_df".into(), Gadget::Df5 { .. } => "mimc5_df".into(),
            Gadget::Hash5 { len, .. } => format!("mimc5_hash[{len}]"), Gadget::Hash7 { len, .. } => format!("mimc7_hash[{len}]"),
            Gadget::Pow { bits } => format!("pow[{bits}]"), Gadget::Equal { d } => format!("equal[{d}]"),
        }
    }
    pub fn with(&self, v: Option<Private<F>>) -> Circ<F> { Circ { g: self.clone(), v } }
    /// the public values that go with private inputs, from the definitions
    pub fn public(&self, v: &Private<F>) -> Vec<F> {
        match self {
            Gadget::Df3 { c } => vec![ref_df(v.f[0], v.f[1], c, 3)],
            Gadget::Df5 { c } => vec![ref_df(v.f[0], v.f[1], c, 5)],
            Gadget::Hash5 { c, .. } => vec![ref_multi(&v.f[1..], v.f[0], c, 5)],
            Gadget::Hash7 { c, .. } => vec![ref_multi(&v.f[1..], v.f[0], c, 7)],
            Gadget::Pow { .. } => {
                let mut r = F::one();
                for b in v.bits.iter().rev() { r = r * r; if *b == 1 { r *= v.f[0]; } }
                vec![r]
            }
            Gadget::Equal { d } => {
                // the first d bits, low to high
                let mut r = F::zero();
                for b in v.bits[..*d].iter().rev() { r = r + r; if *b == 1 { r += F::one(); } }
                vec![r, v.f[1]]
            }
        }
    }
}

pub fn equal_private<F: PrimeField>(x: F, d: usize) -> Private<F> {
    let mut bits: Vec<u8> = bits_le(x).iter().map(|b| *b as u8).collect();
    bits.resize(256, 0);
    let mut p = Private { f: vec![F::zero(), x], bits };
    p.f[0] = Gadget::Equal { d }.public(&p)[0];
    p
}
pub fn pow_private<F: PrimeField>(g: F, e: u64, n: usize) -> Private<F> { Private { f: vec![g], bits: (0..n).map(|i| (e >> i & 1) as u8).collect() } }

fn honest<F: PrimeField>(ctx: &Ctx, g: &Gadget<F>, setup: &Synth<F>, v: &Private<F>) -> Option<Synth<F>> {
    let want = g.public(v);
    let s = match mc::catch(|| synth(g.with(Some(v.clone())), false)) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => { ctx.violation("honest-synthesis", &format!("{}: honest witness cannot be synthesized: {e}", g.name()), json!({"circuit": g.name(), "private": shows(&v.f)})); return None; }
        Err(p) => { ctx.violation("honest-panic", &format!("{}: synthesis panics at {}: {}", g.name(), p.at, p.msg), json!({"circuit": g.name(), "private": shows(&v.f)})); return None; }
    };
    ctx.add(1, s.m.num_constraints as u64, 1);
    let d = || json!({"circuit": g.name(), "modulus_bits": F::size_in_bits(), "private": shows(&v.f), "bits": v.bits});
    if !s.satisfied { ctx.violation("honest-unsatisfied", &format!("{}: honest witness {:?} does not satisfy the constraints", g.name(), shows(&v.f)), d()); return None; }
    if publics(&s) != want { ctx.violation("public-inputs", &format!("{}: public inputs {:?}, native result {:?}", g.name(), shows(&publics(&s)), shows(&want)), d()); return None; }
    if !same_shape(&s.m, &setup.m) { ctx.violation("setup-shape", &format!("{}: constraint system at key generation differs from the one at proving", g.name()), d()); return None; }
    Some(s)
}

fn setup<F: PrimeField>(ctx: &Ctx, g: &Gadget<F>) -> Option<Synth<F>> {
    match mc::catch(|| synth(g.with(None), true)) {
        Ok(Ok(s)) => Some(s),
        Ok(Err(e)) => { ctx.violation("setup-synthesis", &format!("{}: key generation fails: {e}", g.name()), json!({"circuit": g.name()})); None }
        Err(p) => { ctx.violation("setup-panic", &format!("{}: key generation panics at {}: {}", g.name(), p.at, p.msg), json!({"circuit": g.name()})); None }
    }
}

fn each<F: PrimeField>(ctx: &Ctx, label: &str, g: &Gadget<F>, inputs: &[Private<F>]) {
    if !ctx.part(&format!("{label} {}", g.name())) { return; }
    let Some(s) = setup(ctx, g) else { return };
    ctx.par(inputs.len(), |i| { honest(ctx, g, &s, &inputs[i]); });
}

fn tuples<F: PrimeField>(a: &[F], len: usize) -> Vec<Private<F>> { mc::all_vecs(a.len(), len).map(|v| Private { f: v.iter().map(|i| a[*i]).collect(), bits: vec![] }).collect() }

fn s02_field<F: PrimeField>(ctx: &Ctx, label: &str, a: &[F], max_len: usize, salts: &[u64]) {
    for s in salts {
        let lab = format!("{label} constants {s}");
        each(ctx, &lab, &Gadget::Df3 { c: consts(DF3, *s) }, &tuples(a, 2));
        each(ctx, &lab, &Gadget::Df5 { c: consts(DF5, *s) }, &tuples(a, 2));
        for len in 1..=max_len {
            each(ctx, &lab, &Gadget::Hash5 { c: consts(H5, *s), len }, &tuples(a, len + 1));
            each(ctx, &lab, &Gadget::Hash7 { c: consts(H7, *s), len: len.min(2) }, &tuples(a, len.min(2) + 1));
        }
    }
    let t = tiny::pow_circuit::INPUT_SIZE;
    each(ctx, label, &Gadget::Pow { bits: t }, &a.iter().flat_map(|g| (0..1u64 << t).map(|e| pow_private(*g, e, t))).collect::<Vec<_>>());
    // full-size exponent: all values with at most two set bits, their complements and a ramp
    let n = real::pow_circuit::INPUT_SIZE;
    let mask = if n >= 64 { u64::MAX } else { (1u64 << n) - 1 };
    let mut es: Vec<u64> = vec![0];
    for i in 0..n { es.push(1 << i); for j in 0..i { es.push(1 << i | 1 << j); } }
    es.extend(es.clone().iter().map(|e| e ^ mask));
    es.extend((0..64).map(|i| mc::mix(i) & mask));
    es.sort(); es.dedup();
    let gs: Vec<F> = if ctx.quick() { a.iter().copied().take(6).collect() } else { a.to_vec() };
    each(ctx, label, &Gadget::Pow { bits: n }, &gs.iter().flat_map(|g| es.iter().map(|e| pow_private(*g, *e, n))).collect::<Vec<_>>());
    let ds: Vec<usize> = if ctx.quick() && label.starts_with("scalar") { (1..=256).filter(|d| d % 16 <= 1 || *d < 20 || *d > 250).collect() } else { (1..=256).collect() };
    for d in ds { each(ctx, label, &Gadget::Equal { d }, &a.iter().map(|x| equal_private(*x, d)).collect::<Vec<_>>()); }
}

/// long lists, scattered values
fn s02_long<F: PrimeField>(ctx: &Ctx, label: &str, lens: &[usize], runs: u64) {
    for len in lens {
        let inp: Vec<Private<F>> = (0..runs).map(|r| Private { f: scattered::<F>(len + 1, r), bits: vec![] }).collect();
        each(ctx, &format!("{label} long"), &Gadget::Hash5 { c: consts(H5, 2), len: *len }, &inp);
        if *len <= 60 { each(ctx, &format!("{label} long"), &Gadget::Hash7 { c: consts(H7, 2), len: *len }, &inp); }
    }
}
fn scattered<F: PrimeField>(n: usize, r: u64) -> Vec<F> {
    if F::size_in_bits() < 32 { let p = F::characteristic()[0]; (0..n as u64).map(|i| fe(mc::mix(r * 4099 + i) % p)).collect() } else { (0..n as u64).map(|i| scatter(r * 4099 + i)).collect() }
}

pub fn s02(ctx: &Ctx) {
    ctx.bound("toy fields", "all private inputs over the fields with 11 and 13 elements (hash lists of length 1..3, power circuit with 5 exponent bits: all exponents; all 256 low-bit counts); scattered lists of up to 257 elements (thorough: 1000)");
    ctx.bound("scalar field", "boundary and scattered elements; 20-bit exponents with at most two set or two cleared bits");
    s02_field::<toy_field::F11>(ctx, "field 11", &all(), ctx.pick(2, 3), &[0, 2]);
    s02_field::<toy_field::F13>(ctx, "field 13", &all(), 2, if ctx.quick() { &[1] } else { &[1, 3, 4] });
    type Fr = ark_bls12_381::Fr;
    let e = edge::<Fr>();
    s02_field::<Fr>(ctx, "scalar field", &e[..ctx.pick(7, e.len())], 2, if ctx.quick() { &[2] } else { &[0, 2, 3] });
    let lens: Vec<usize> = if ctx.quick() { (4..=34).chain([40, 50, 63, 64, 65, 100, 128, 257]).collect() } else { (4..=130).chain([200, 255, 256, 257, 500, 1000]).collect() };
    s02_long::<toy_field::F13>(ctx, "field 13", &lens, 8);
    s02_long::<Fr>(ctx, "scalar field", &lens, 2);
    groth(ctx);
    ctx.assume("hash lists contain at least one element (an empty list has no public output in the circuit)");
}

/// real proofs of honest instances are accepted, and rejected for any other public value
fn groth(ctx: &Ctx) {
    use ark_bls12_381::{Bls12_381, Fr};
    use ark_groth16::*;
    let e = edge::<Fr>();
    let n = real::pow_circuit::INPUT_SIZE;
    let gs: Vec<(Gadget<Fr>, Private<Fr>)> = vec![
        (Gadget::Df3 { c: consts(DF3, 2) }, Private { f: vec![e[11], e[12]], bits: vec![] }),
        (Gadget::Df5 { c: consts(DF5, 2) }, Private { f: vec![e[0], e[12]], bits: vec![] }),
        (Gadget::Hash5 { c: consts(H5, 2), len: 3 }, Private { f: vec![e[11], e[12], e[0], e[13]], bits: vec![] }),
        (Gadget::Hash7 { c: consts(H7, 2), len: 2 }, Private { f: vec![e[11], e[12], e[3]], bits: vec![] }),
        (Gadget::Pow { bits: n }, pow_private(e[11], 0b1010_1100_0111_0101, n)),
        (Gadget::Equal { d: 8 }, equal_private(e[12], 8)),
    ];
    if !ctx.part("groth16 proofs") { return; }
    ctx.par(gs.len(), |i| {
        let (g, v) = &gs[i];
        let rng = &mut mc_rand::thread_rng();
        let r = mc::catch(|| -> Result<(), String> {
            let pk = generate_random_parameters::<Bls12_381, _, _>(g.with(None), rng).map_err(|e| format!("setup {e:?}"))?;
            let pvk = prepare_verifying_key(&pk.vk);
            let pr = create_random_proof(g.with(Some(v.clone())), &pk, rng).map_err(|e| format!("prove {e:?}"))?;
            let want = g.public(v);
            if verify_proof(&pvk, &pr, &want).ok() != Some(true) { return Err("honest proof rejected".into()); }
            for k in 0..want.len() {
                let mut w = want.clone();
                w[k] += Fr::from(1u64);
                if verify_proof(&pvk, &pr, &w).ok() == Some(true) { return Err(format!("proof accepted for a changed public value {k}")); }
            }
            ctx.add(2, 4, 1 + want.len() as u64);
            Ok(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ctx.violation("groth16", &format!("{}: {e}", g.name()), json!({"circuit": g.name(), "private": shows(&v.f)})),
            Err(p) => ctx.violation("groth16-panic", &format!("{}: panic at {}: {}", g.name(), p.at, p.msg), json!({"circuit": g.name()})),
        }
    });
}

// ---------------------------------------------------------------- soundness (S03, S04)

fn toy_u<F: PrimeField>(x: F) -> u32 { low(x) as u32 }

/// All satisfying assignments over a toy field. `runs`: honest runs that locate the private inputs.
/// `around`: honest runs around which at most `dev` decisions deviate (None: everything).
fn sound<F: PrimeField>(ctx: &Ctx, label: &str, g: &Gadget<F>, honest_inputs: &[Private<F>], around: Option<(usize, usize)>) {
    if !ctx.part(&format!("{label} {}", g.name())) { return; }
    let p = F::characteristic()[0];
    let Some(set) = setup(ctx, g) else { return };
    let mut runs: Vec<(Vec<u32>, &Private<F>)> = vec![];
    for v in honest_inputs {
        match mc::catch(|| synth(g.with(Some(v.clone())), false)) {
            Ok(Ok(s)) if s.satisfied => runs.push((s.assignment.iter().map(|x| toy_u(*x)).collect(), v)),
            // completeness is S02's business; here such a run only fails to help locate variables
            _ => {}
        }
    }
    if runs.is_empty() { ctx.cap("no honest run (see S02)"); return; }
    let dom = Toy::new(p);
    let sys = System::new(dom.clone(), &set.m, toy_u);
    // where the private inputs are
    let sub = |a: u32, b: u32| dom.sub(a, b);
    let nf = match g { Gadget::Equal { .. } => 0, _ => runs[0].1.f.len() };
    let mut car: Vec<Vec<(usize, u32)>> = vec![];
    for k in 0..nf { let r: Vec<(Vec<u32>, u32)> = runs.iter().map(|(a, v)| (a.clone(), toy_u(v.f[k]))).collect(); car.push(carriers(&r, sub, 0)); }
    let nb = match g { Gadget::Pow { bits } => *bits, _ => 0 };
    let mut carb: Vec<Vec<(usize, u32)>> = vec![];
    for k in 0..nb { let r: Vec<(Vec<u32>, u32)> = runs.iter().map(|(a, v)| (a.clone(), v.bits[k] as u32)).collect(); carb.push(carriers(&r, sub, 0)); }
    if car.iter().chain(carb.iter()).any(|c| c.is_empty()) {
        ctx.violation("private-input-missing", &format!("{}: the circuit does not contain its private inputs", g.name()), json!({"circuit": g.name()}));
        return;
    }
    if !matches!(g, Gadget::Equal { .. }) { ctx.count(&format!("{} constraints", g.name()), sys.constraints() as u64); }
    let tick = || { ctx.tick(); !ctx.stopped() };
    let check = |val: &[Option<u32>]| -> bool {
        let pubv: Vec<u32> = (1..sys.ni).map(|i| val[i].unwrap_or(0)).collect();
        let get = |c: &(usize, u32)| dom.sub(val[c.0].unwrap_or(0), c.1);
        let ok = match g {
            Gadget::Equal { d } => {
                let x2 = pubv[1] as u64;
                let lowv = if *d >= 64 { x2 } else { x2 & ((1 << d) - 1) };
                pubv[0] as u64 == lowv % p
            }
            _ => {
                let choose = |c: &Vec<(usize, u32)>| { let mut o: Vec<u32> = c.iter().map(get).collect(); o.sort(); o.dedup(); o };
                let opts: Vec<Vec<u32>> = car.iter().map(choose).collect();
                let optb: Vec<Vec<u32>> = carb.iter().map(choose).collect();
                let boolean = optb.iter().all(|o| o.iter().any(|b| *b < 2));
                // some reading of the private inputs explains the public values
                boolean && {
                    let sizes: Vec<usize> = opts.iter().map(|o| o.len()).chain(optb.iter().map(|o| o.len())).collect();
                    let mut idx = vec![0usize; sizes.len()];
                    let mut found = false;
                    'outer: loop {
                        let f: Vec<F> = (0..nf).map(|k| fe(opts[k][idx[k]] as u64)).collect();
                        let bits: Vec<u8> = (0..nb).map(|k| optb[k][idx[nf + k]] as u8).collect();
                        if bits.iter().all(|b| *b < 2) {
                            let want: Vec<u32> = g.public(&Private { f, bits }).iter().map(|x| toy_u(*x)).collect();
                            if want == pubv { found = true; break; }
                        }
                        for k in 0..sizes.len() {
                            idx[k] += 1;
                            if idx[k] < sizes[k] { continue 'outer; }
                            idx[k] = 0;
                        }
                        break;
                    }
                    found
                }
            }
        };
        if !ok {
            ctx.violation("false-witness", &format!("{}: a satisfying assignment has public values {:?} that do not follow from its private inputs", g.name(), pubv),
                json!({"circuit": g.name(), "modulus": p, "public": pubv, "private_readings": car.iter().map(|c| c.iter().map(get).collect::<Vec<_>>()).collect::<Vec<_>>(),
                       "bits": carb.iter().map(|c| c.iter().map(get).collect::<Vec<_>>()).collect::<Vec<_>>(), "assignment": val.iter().map(|v| v.map(|x| x as i64).unwrap_or(-1)).collect::<Vec<_>>()}));
        }
        ok
    };
    let cap = ctx.pick(30_000_000u64, 400_000_000);
    match around {
        None => {
            let mut e = Explorer::new(&sys, 1, None, cap, Some(&tick));
            e.run(None, &mut |v| check(v));
            if e.capped { ctx.cap("assignments"); }
            ctx.add(e.nodes, e.steps, e.leaves);
            ctx.count("satisfying assignments", e.leaves);
        }
        Some((dev, stride)) => {
            let sel: Vec<usize> = (0..runs.len()).step_by(stride).collect();
            ctx.par(sel.len(), |i| {
                let h = &runs[sel[i]].0;
                let mut e = Explorer::new(&sys, 1, Some(h), cap, Some(&tick));
                e.run(Some(dev), &mut |v| check(v));
                if e.capped { ctx.cap("assignments"); }
                ctx.add(e.nodes, e.steps, e.leaves);
                ctx.count("satisfying assignments", e.leaves);
            });
        }
    }
}

/// Long lists over a toy field: with the inputs given, every assignment of what is left open has the
/// honest public values.
fn given<F: PrimeField>(ctx: &Ctx, label: &str, g: &Gadget<F>, runs: u64) {
    if !ctx.part(&format!("{label} {}, inputs given", g.name())) { return; }
    let p = F::characteristic()[0];
    let Some(set) = setup(ctx, g) else { return };
    let n = match g { Gadget::Hash5 { len, .. } | Gadget::Hash7 { len, .. } => len + 1, _ => 2 };
    let mut hs: Vec<(Vec<u32>, Vec<u32>)> = vec![];
    for r in 0..runs.max(24) {
        let v = Private { f: scattered::<F>(n, r), bits: vec![] };
        if let Ok(Ok(s)) = mc::catch(|| synth(g.with(Some(v.clone())), false)) {
            if s.satisfied && same_shape(&s.m, &set.m) { hs.push((s.assignment.iter().map(|x| toy_u(*x)).collect(), v.f.iter().map(|x| toy_u(*x)).collect())); }
        }
    }
    if hs.len() < 16 { ctx.cap("no honest runs (see S02)"); return; }
    let sys = System::new(Toy::new(p), &set.m, toy_u);
    let car: Vec<Vec<usize>> = (0..n).map(|i| (0..sys.n).filter(|v| sys.used(*v) && hs.iter().all(|(a, x)| a[*v] == x[i])).collect()).collect();
    if car.iter().any(|c| c.is_empty()) { ctx.cap("the inputs are not found among the variables; short lists decide"); return; }
    let tick = || { ctx.tick(); !ctx.stopped() };
    ctx.par(hs.len().min(runs as usize), |j| {
        let a = &hs[j].0;
        let check = |val: &[Option<u32>]| -> bool {
            if (1..sys.ni).all(|v| val[v].map_or(true, |x| x == a[v])) { return true; }
            let pubv: Vec<F> = (1..sys.ni).map(|v| fe(val[v].unwrap_or(a[v]) as u64)).collect();
            let most = car.iter().map(|c| c.len()).max().unwrap();
            for r in 0..most {
                let f: Vec<F> = car.iter().map(|c| { let v = c[r.min(c.len() - 1)]; fe(val[v].unwrap_or(a[v]) as u64) }).collect();
                if g.public(&Private { f, bits: vec![] }) == pubv { return true; }
            }
            ctx.violation("false-witness", &format!("{}: a satisfying assignment has public values {:?} that do not follow from its private inputs", g.name(), shows(&pubv)), json!({"circuit": g.name(), "modulus": p, "inputs": hs[j].1}));
            false
        };
        let mut e = Explorer::new(&sys, 1, None, 5_000_000, Some(&tick));
        if !car.iter().all(|c| e.fix(c[0], a[c[0]])) { ctx.cap("honest inputs contradict the constraints"); return; }
        if !check(&e.val) { return; }
        let comps = e.components();
        ctx.add(1, e.steps, 1);
        ctx.count("parts left open", comps.len() as u64);
        for c in &comps {
            let mut e = e.fork(None);
            e.over(c.clone());
            e.run(None, &mut |v| check(v));
            if e.capped { ctx.cap("assignments"); }
            ctx.add(e.nodes, e.steps, e.leaves);
        }
    });
}

pub fn s03(ctx: &Ctx) {
    ctx.bound("fields", "all satisfying assignments over the fields with 11 and 13 elements (mimc5 also 17); full round counts");
    ctx.bound("lists", "hash lists of length 1 and 2 (thorough: 3); longer ones (selected lengths up to 257, thorough 1000) with given inputs: all assignments of what these leave open");
    fn go<F: PrimeField>(ctx: &Ctx, label: &str, salts: &[u64], lens: usize) {
        let a = all::<F>();
        for s in salts {
            let lab = format!("{label} constants {s}");
            sound(ctx, &lab, &Gadget::Df3 { c: consts(DF3, *s) }, &tuples::<F>(&a, 2), None);
            sound(ctx, &lab, &Gadget::Df5 { c: consts(DF5, *s) }, &tuples::<F>(&a, 2), None);
            for len in 1..=lens {
                sound(ctx, &lab, &Gadget::Hash5 { c: consts(H5, *s), len }, &tuples::<F>(&a, len + 1), None);
                sound(ctx, &lab, &Gadget::Hash7 { c: consts(H7, *s), len: len.min(2) }, &tuples::<F>(&a, len.min(2) + 1), None);
            }
        }
    }
    go::<toy_field::F11>(ctx, "field 11", if ctx.quick() { &[0, 2] } else { &[0, 1, 2, 3] }, ctx.pick(2, 3));
    go::<toy_field::F13>(ctx, "field 13", if ctx.quick() { &[3] } else { &[0, 1, 2, 3, 4] }, ctx.pick(2, 3));
    go::<toy_field::F17>(ctx, "field 17", if ctx.quick() { &[1] } else { &[1, 2, 5] }, ctx.pick(1, 2));
    let lens: Vec<usize> = if ctx.quick() { (3..=20).chain([31, 32, 33, 50, 64, 65, 100, 257]).collect() } else { (3..=130).chain([200, 255, 256, 257, 500, 1000]).collect() };
    for len in &lens {
        let runs = if *len > 60 { 4 } else { ctx.pick(8, 48) };
        given::<toy_field::F13>(ctx, "field 13", &Gadget::Hash5 { c: consts(H5, 2), len: *len }, runs);
        if *len <= 65 { given::<toy_field::F13>(ctx, "field 13", &Gadget::Hash7 { c: consts(H7, 2), len: *len }, runs); }
    }
    ctx.assume("soundness of a constraint (a multiplication or linear relation over named variables) does not depend on the size of the field beyond the enumerated ones");
    ctx.sample(json!({"circuit": "mimc5_df", "field": 13, "free": "xL, xR", "satisfying assignments": 169}));
}

pub fn s04(ctx: &Ctx) {
    let t = tiny::pow_circuit::INPUT_SIZE;
    let n = real::pow_circuit::INPUT_SIZE;
    ctx.bound("power circuit", format!("all satisfying assignments with {t} exponent bits over 11, 13, 17 elements; with {n} bits all assignments within one (thorough: two) deviating decisions of honest runs"));
    ctx.bound("low-bits circuit", "all satisfying assignments, every low-bit count 1..256, over 11, 13, 31 elements");
    fn pow_all<F: PrimeField>(ctx: &Ctx, label: &str, t: usize) {
        let inp: Vec<Private<F>> = all::<F>().iter().flat_map(|g| (0..1u64 << t).map(|e| pow_private(*g, e, t)).collect::<Vec<_>>()).collect();
        sound(ctx, label, &Gadget::Pow { bits: t }, &inp, None);
    }
    pow_all::<toy_field::F11>(ctx, "field 11", t);
    pow_all::<toy_field::F13>(ctx, "field 13", t);
    pow_all::<toy_field::F17>(ctx, "field 17", t);
    {
        type F = toy_field::F13;
        let mut es: Vec<u64> = vec![0, (1 << n) - 1];
        for i in 0..n { es.push(1 << i); }
        for i in 0..32 { es.push(mc::mix(i) & ((1 << n) - 1)); }
        let inp: Vec<Private<F>> = all::<F>().iter().flat_map(|g| es.iter().map(|e| pow_private(*g, *e, n)).collect::<Vec<_>>()).collect();
        sound(ctx, "field 13", &Gadget::Pow { bits: n }, &inp, Some((ctx.pick(1, 2), ctx.pick(3, 1))));
    }
    fn eq<F: PrimeField>(ctx: &Ctx, label: &str, ds: &[usize]) {
        ctx.par(ds.len(), |i| { let d = ds[i]; sound(ctx, label, &Gadget::Equal { d }, &all::<F>().iter().map(|x| equal_private(*x, d)).collect::<Vec<_>>(), None); });
    }
    let ds: Vec<usize> = (1..=256).collect();
    eq::<toy_field::F13>(ctx, "field 13", &ds);
    eq::<toy_field::F31>(ctx, "field 31", &ds);
    eq::<toy_field::F11>(ctx, "field 11", &if ctx.quick() { (1..=9).collect::<Vec<_>>() } else { ds.clone() });
    eq::<toy_field::F<251>>(ctx, "field 251", &if ctx.quick() { (1..=9).collect::<Vec<_>>() } else { ds });
    other_counts(ctx);
    frontier(ctx);
    moved(ctx);
    ctx.sample(json!({"circuit": "equal[2]", "field": 13, "public": [1, 5], "accepted": true}));
    ctx.sample(json!({"circuit": "equal[2]", "field": 13, "public": [2, 5], "accepted": false, "why": "5 + 13 = 18 has low bits 10, excluded by canonicity"}));
    ctx.assume("soundness of a constraint does not depend on the size of the field beyond the enumerated ones");
}

/// Scalar field: the low bits claimed for another count, or off by one power of two.
fn other_counts(ctx: &Ctx) {
    use ark_bls12_381::Fr;
    if !ctx.part("scalar field, low bits of every other count") { return; }
    let ds: Vec<usize> = if ctx.quick() { (1..=256).filter(|d| *d < 10 || d % 8 < 3 && d % 16 < 8 || *d > 250).collect() } else { (1..=256).collect() };
    let xs: Vec<Fr> = vec![scatter(0), -Fr::from(1u64), scatter(1), scatter(5)];
    ctx.bound("scalar field, claimed low bits", "every count of the list, four elements, the low bits of every other count and the right ones with one bit changed");
    ctx.par(ds.len(), |i| {
        let d = ds[i];
        let g = Gadget::<Fr>::Equal { d };
        for (k, x) in xs.iter().enumerate() {
            let right = equal_private(*x, d);
            let want = g.public(&right);
            let mut claims: Vec<Fr> = vec![];
            if k < 1 || !ctx.quick() { for d2 in 0..=256 { claims.push(equal_private(*x, d2).f[0]); } }
            let mut two = Fr::from(1u64);
            for j in 0..256 { if k >= 1 && (j + 3 > d || j < 2 || !ctx.quick() || j % 16 == 7) && j < d + 2 { claims.push(if right.bits[j] == 1 { want[0] - two } else { want[0] + two }); } two = two + two; }
            for c in claims {
                if c == want[0] { continue; }
                let mut v = right.clone();
                v.f[0] = c;
                let Ok(Ok(s)) = mc::catch(|| synth(g.with(Some(v)), false)) else { continue };
                ctx.add(1, s.m.num_constraints as u64, 1);
                if s.satisfied && publics(&s) != want {
                    return ctx.violation("false-witness", &format!("equal[{d}]: accepts a value that is not the low bits"), json!({"d": d, "x": show(*x), "public": shows(&publics(&s)), "right": shows(&want)}));
                }
            }
        }
    });
}

/// Scalar field, with the public element given: the honest assignment and the one with the digits of
/// element + modulus, one digit changed, and one further variable moved along the line left open to it.
fn moved(ctx: &Ctx) {
    use ark_bls12_381::Fr;
    use ark_ff::{Field, One, PrimeField, Zero};
    if !ctx.part("scalar field, one digit and one variable changed") { return; }
    ctx.bound("scalar field, assignments", "counts of the list, elements with low and high top digits: all assignments with at most one confined variable changed and one variable moved along its line, around the canonical expansion and that of element + modulus");
    let ds: Vec<usize> = if ctx.quick() { (1..=256).filter(|d| *d < 4 || d % 37 == 20 || [64, 128, 129, 253, 254, 255, 256].contains(d)).collect() } else { (1..=256).collect() };
    let xs: Vec<Fr> = vec![-Fr::from(2u64), scatter(1), Fr::from(2u64).pow([247u64]) * Fr::from(3u64) + Fr::from(3u64), Fr::from(9u64)];
    let md: Vec<u64> = Fr::characteristic().to_vec();
    let digits: Vec<Option<Vec<usize>>> = {
        let out: Vec<std::sync::Mutex<Option<Vec<usize>>>> = ds.iter().map(|_| Default::default()).collect();
        ctx.par(ds.len(), |i| {
            let g = Gadget::<Fr>::Equal { d: ds[i] };
            let runs: Vec<(Private<Fr>, Vec<Fr>)> = (0..24).filter_map(|j| { let p = equal_private(scatter::<Fr>(40 + j), ds[i]); mc::catch(|| synth(g.with(Some(p.clone())), false)).ok().and_then(|r| r.ok()).filter(|s| s.satisfied).map(|s| (p, s.assignment)) }).collect();
            if runs.len() < 24 { return; }
            let n = runs.iter().map(|r| r.1.len()).min().unwrap();
            // candidates by their value in all the runs
            let mut by: std::collections::HashMap<u32, usize> = Default::default();
            for v in (3..n).rev() { if runs.iter().all(|r| r.1[v].is_zero() || r.1[v].is_one()) { by.insert(runs.iter().enumerate().map(|(k, r)| (r.1[v].is_one() as u32) << k).sum(), v); } }
            *out[i].lock().unwrap() = (0..255).map(|b| by.get(&runs.iter().enumerate().map(|(k, r)| (r.0.bits[b] as u32) << k).sum()).copied()).collect();
        });
        out.into_iter().map(|o| o.into_inner().unwrap()).collect()
    };
    ctx.par(ds.len() * xs.len(), |i| {
        let (d, x) = (ds[i / xs.len()], xs[i % xs.len()]);
        let g = Gadget::<Fr>::Equal { d };
        let right = equal_private(x, d);
        let Ok(Ok(s)) = mc::catch(|| synth(g.with(Some(right.clone())), false)) else { return };
        if !s.satisfied || publics(&s).len() != 2 { return ctx.cap("no honest run (see S02)"); }
        let want = g.public(&right);
        let a = &s.assignment;
        let sys = System::new(Big { vals: vec![Fr::zero(), Fr::one(), fe(2), -Fr::one()] }, &s.m, |x| x);
        let tick = || { ctx.tick(); !ctx.stopped() };
        let mut e = Explorer::new(&sys, Fr::one(), None, 2_000_000, Some(&tick));
        if !e.fix(2, a[2]) { return ctx.cap("the honest run contradicts the constraints"); }
        let check = |val: &[Option<Fr>]| -> bool {
            let (x1, x2) = (val[1].unwrap_or(a[1]), val[2].unwrap_or(a[2]));
            if x2 != want[1] || x1 == want[0] { return true; }
            ctx.violation("false-witness", &format!("equal[{d}]: an assignment satisfies the circuit with a value that is not the low bits"), json!({"d": d, "x": show(x), "public": [show(x1), show(x2)], "right": shows(&want)}));
            false
        };
        if !check(&e.val) { return; }
        // the digits of x + modulus, at the variables that hold the digits of the element in all of many runs
        let mut guides = vec![a.clone()];
        if let Some(at) = &digits[i / xs.len()] {
            let mut gd = a.clone();
            let (mut carry, mut w) = (0u128, vec![]);
            for t in 0..4 { let s = x.into_repr().as_ref()[t] as u128 + md[t] as u128 + carry; w.push(s as u64); carry = s >> 64; }
            if carry == 0 && w[3] >> 63 == 0 {
                for b in 0..255 { gd[at[b]] = fe(w[b / 64] >> (b % 64) & 1); }
                guides.push(gd);
                ctx.count("expansions of element + modulus tried", 1);
            }
        }
        for c in e.components() {
            let conf = e.confined(&c);
            for gd in &guides {
                let mut e = e.fork(None);
                let go = e.lines(&c, &conf, gd, &mut |v| check(v));
                ctx.add(e.nodes, e.steps, e.leaves);
                if e.capped { ctx.cap("assignments"); }
                if !go { return; }
            }
        }
    });
}

/// Scalar field: bit strings that part from the modulus at every position, with several fillings
/// below. Only expansions below the modulus may satisfy the low-bits circuit.
fn frontier(ctx: &Ctx) {
    use ark_bls12_381::Fr;
    use ark_ff::Field;
    if !ctx.part("scalar field expansions around the modulus") { return; }
    let md: Vec<u64> = Fr::characteristic().to_vec();
    let mbit = |i: usize| (md[i / 64] >> (i % 64) & 1) as u8;
    let mut strings: Vec<(Vec<u8>, bool)> = vec![((0..256).map(mbit).collect(), false)];
    for i in 0..256 {
        for fill in 0..4 {
            let mut b: Vec<u8> = (0..256).map(mbit).collect();
            b[i] ^= 1;
            for (k, e) in b.iter_mut().enumerate().take(i) { match fill { 0 => *e = 0, 1 => *e = 1, 2 => *e = (k % 2) as u8, _ => {} } }
            // parting upwards (0 became 1) means above the modulus
            strings.push((b.clone(), b[i] == 0));
        }
    }
    let ds: &[usize] = if ctx.quick() { &[1, 8, 20, 256] } else { &[1, 2, 3, 7, 8, 16, 20, 32, 63, 64, 65, 128, 200, 254, 255, 256] };
    ctx.par(strings.len(), |i| {
        let (b, canonical) = &strings[i];
        let mut x = Fr::from(0u64);
        for e in b.iter().rev() { x = x + x; if *e == 1 { x += Fr::from(1u64); } }
        for d in ds {
            let g = Gadget::<Fr>::Equal { d: *d };
            let mut v = Private { f: vec![x, x], bits: b.clone() };
            v.f[0] = g.public(&v)[0];
            let r = mc::catch(|| synth(g.with(Some(v.clone())), false));
            let Ok(Ok(s)) = r else { continue };
            let want = equal_private(x, *d);
            ctx.add(1, s.m.num_constraints as u64, 1);
            // accepted with other low bits than those of the canonical representation
            if s.satisfied && (publics(&s) != g.public(&want)) {
                ctx.violation("false-witness", &format!("equal[{d}]: accepts the low bits of a binary expansion that is not the canonical one ({} the modulus)", if *canonical { "below" } else { "not below" }),
                    json!({"bits": b, "d": d, "public": shows(&publics(&s)), "canonical": shows(&g.public(&want))}));
            }
            if s.satisfied && !canonical { ctx.count("non-canonical expansions accepted without effect on the public values", 1); }
            if s.satisfied && *canonical { ctx.count("canonical expansions accepted", 1); }
        }
    });
}
