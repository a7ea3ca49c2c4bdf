use crate::util::*;
use ark_ff::PrimeField;
use mc::{serde_json::json, Ctx};
use space_real::mimc::{mimc_df::*, mimc_hash::*};

struct Fun<F> { name: &'static str, rounds: usize, imp: fn(F, F, &[F]) -> F, oracle: fn(F, F, &[F]) -> F }

fn funs<F: PrimeField>() -> Vec<Fun<F>> {
    vec![
        Fun { name: "mimc3_df", rounds: DF3, imp: |a, b, c| mimc3_df(a, b, c), oracle: |a, b, c| ref_df(a, b, c, 3) },
        Fun { name: "mimc5_df", rounds: DF5, imp: |a, b, c| mimc5_df(a, b, c), oracle: |a, b, c| ref_df(a, b, c, 5) },
        Fun { name: "mimc5_hash", rounds: H5, imp: |a, b, c| mimc5_hash(a, b, c), oracle: |a, b, c| ref_hash(a, b, c, 5) },
        Fun { name: "mimc7_hash", rounds: H7, imp: |a, b, c| mimc7_hash(a, b, c), oracle: |a, b, c| ref_hash(a, b, c, 7) },
    ]
}

fn compare<F: PrimeField>(ctx: &Ctx, f: &Fun<F>, a: F, b: F, c: &[F]) {
    match mc::catch(|| (f.imp)(a, b, c)) {
        Ok(r) => {
            let o = (f.oracle)(a, b, c);
            if r != o {
                ctx.violation(&format!("{}-value", f.name), &format!("{}({}, {}) = {} but the round definition gives {}", f.name, show(a), show(b), show(r), show(o)),
                    json!({"function": f.name, "modulus": F::size_in_bits(), "inputs": [show(a), show(b)], "constants": shows(c), "got": show(r), "expected": show(o)}));
            }
        }
        Err(p) => ctx.violation(&format!("{}-panic", f.name), &format!("{} panics: {} at {}", f.name, p.msg, p.at), json!({"inputs": [show(a), show(b)], "constants": shows(c)})),
    }
}

/// all input pairs x constant vectors within `dev` deviations of the base vectors
fn two_inputs<F: PrimeField>(ctx: &Ctx, f: &Fun<F>, inputs: &[F], devs: &[F], bases: &[u64], dev: usize) {
    let mut vecs: Vec<Vec<F>> = vec![];
    for s in bases {
        let base = consts::<F>(f.rounds, *s);
        vecs.push(base.clone());
        if dev >= 1 {
            for i in 0..f.rounds {
                for d in devs {
                    let mut c = base.clone();
                    if c[i] == *d { continue; }
                    c[i] = *d;
                    if dev >= 2 {
                        for j in 0..i { for e in devs { if c[j] != *e { let mut c2 = c.clone(); c2[j] = *e; vecs.push(c2); } } }
                    }
                    vecs.push(c);
                }
            }
        }
    }
    ctx.par(vecs.len(), |i| {
        for a in inputs { for b in inputs { compare(ctx, f, *a, *b, &vecs[i]); } }
        let n = (inputs.len() * inputs.len()) as u64;
        ctx.add(n * (f.rounds as u64 + 1), n * f.rounds as u64, n);
    });
}

fn lists<F: PrimeField>(ctx: &Ctx, which: usize, alpha: &[F], max: usize, bases: &[u64]) {
    let (n, rounds, e) = if which == 5 { ("multi_mimc5_hash", H5, 5) } else { ("multi_mimc7_hash", H7, 7) };
    for s in bases {
        let c = consts::<F>(rounds, *s);
        for len in 0..=max {
            let vs: Vec<Vec<usize>> = mc::all_vecs(alpha.len(), len).collect();
            ctx.par(vs.len(), |i| {
                let xs: Vec<F> = vs[i].iter().map(|k| alpha[*k]).collect();
                for key in alpha {
                    let r = mc::catch(|| if which == 5 { multi_mimc5_hash(&xs, *key, &c) } else { multi_mimc7_hash(&xs, *key, &c) });
                    let o = ref_multi(&xs, *key, &c, e);
                    if r.as_ref().ok() != Some(&o) {
                        ctx.violation(&format!("{n}-value"), &format!("{n}({:?}, key {}) differs from the chained definition", shows(&xs), show(*key)),
                            json!({"list": shows(&xs), "key": show(*key), "constants": shows(&c), "expected": show(o), "got": format!("{:?}", r.map(show))}));
                    }
                }
                ctx.add((alpha.len() * (len * rounds + 1)) as u64, (alpha.len() * len * rounds) as u64, alpha.len() as u64);
            });
        }
    }
}

fn toy<F: PrimeField>(ctx: &Ctx, p: u64) {
    let a = all::<F>();
    for f in funs::<F>() {
        if !ctx.part(&format!("field {p} {}", f.name)) { continue; }
        // one deviation everywhere, two where the number of rounds allows it
        let dev = if f.rounds <= 10 && p <= 13 { ctx.pick(if p == 11 { 2 } else { 1 }, 2) } else if f.rounds > 90 && p > 13 && ctx.quick() { 0 } else { 1 };
        let bases: &[u64] = if p <= 13 { &[0, 1, 2, 3] } else { &[0, 2] };
        let devs: Vec<F> = if f.rounds > 300 && ctx.quick() { vec![F::zero(), F::one(), -F::one()] } else { a.clone() };
        two_inputs(ctx, &f, &a, &devs, bases, dev);
    }
    for w in [5, 7] {
        if ctx.part(&format!("field {p} lists {w}")) {
            let max = if p <= 13 { ctx.pick(3, 4) } else { 2 };
            lists(ctx, w, &a, if w == 7 { max.min(3) } else { max }, &[0, 2, 5]);
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.bound("fields", "all elements of the fields with 11, 13, 17 and 31 elements; boundary and scattered elements of the BLS12-381 scalar field");
    ctx.bound("constants", "four base vectors, every deviation from them in one position (two for the 10-round functions over 11 elements)");
    ctx.bound("lists", "all lists up to length 3 (thorough: 4) over 11 and 13 elements, length 2 over larger fields; scattered lists of 0..70 and up to 5000 elements; lists of up to 66 (thorough: 130) with every position or tail replaced by constants, the key or another element");
    toy::<toy_field::F11>(ctx, 11);
    toy::<toy_field::F13>(ctx, 13);
    toy::<toy_field::F17>(ctx, 17);
    toy::<toy_field::F31>(ctx, 31);
    type Fr = ark_bls12_381::Fr;
    let e = edge::<Fr>();
    for f in funs::<Fr>() {
        if !ctx.part(&format!("scalar field {}", f.name)) { continue; }
        two_inputs(ctx, &f, &e, &e[..ctx.pick(3, e.len())], &[0, 2], if f.rounds <= 10 || !ctx.quick() { 1 } else { 0 });
    }
    for w in [5, 7] {
        if ctx.part(&format!("scalar field lists {w}")) {
            lists(ctx, w, &e[..6], 3, &[0, 2]);
            // long lists: every length up to 70 and around powers of two, values scattered
            let (rounds, ex) = if w == 5 { (H5, 5) } else { (H7, 7) };
            let c = consts::<Fr>(rounds, 4);
            for len in (0..=70u64).chain([99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 5000]) {
                let xs: Vec<Fr> = (0..len).map(|i| scatter(i + 17 * len)).collect();
                let r = mc::catch(|| if w == 5 { multi_mimc5_hash(&xs, e[11], &c) } else { multi_mimc7_hash(&xs, e[11], &c) });
                let o = ref_multi(&xs, e[11], &c, ex);
                if r.as_ref().ok() != Some(&o) { ctx.violation("long-list", &format!("hash of a list of {len} elements differs from the chained definition"), json!({"len": len, "exponent": w})); }
                ctx.add(len * rounds as u64 + 1, len * rounds as u64, 1);
            }
        }
    }
    if ctx.part("lists with repeated and special elements") {
        fn special<F: PrimeField>(ctx: &Ctx, len: usize) {
            for w in [5usize, 7] {
                let rounds = if w == 5 { H5 } else { H7 };
                let (c, key) = (consts::<F>(rounds, 4), scatter::<F>(991));
                let check = |xs: &Vec<F>, what: mc::serde_json::Value| {
                    let r = mc::catch(|| if w == 5 { multi_mimc5_hash(xs, key, &c) } else { multi_mimc7_hash(xs, key, &c) });
                    if r.ok() != Some(ref_multi(xs, key, &c, w)) { ctx.violation("special-list", &format!("hash of a list of {} elements differs from the chained definition", xs.len()), json!({"list": shows(xs), "what": what, "exponent": w})); }
                    ctx.add((xs.len() * rounds) as u64 + 1, (xs.len() * rounds) as u64, 1);
                };
                // every element in turn: a constant, the key, or what another element is
                ctx.par(len, |i| {
                    let base: Vec<F> = (0..len as u64).map(|k| scatter(k + 300)).collect();
                    for (n, x) in [("zero", F::zero()), ("one", F::one()), ("minus one", -F::one()), ("key", key), ("minus key", -key), ("first", base[0]), ("last", base[len - 1]), ("before", base[i.max(1) - 1]), ("minus before", -base[i.max(1) - 1])] {
                        let mut xs = base.clone();
                        xs[i] = x;
                        check(&xs, json!({"position": i, "value": n}));
                        // and from here on
                        for y in xs[i..].iter_mut() { *y = x; }
                        check(&xs, json!({"from": i, "value": n}));
                    }
                    for n in [2usize, 3] { let xs: Vec<F> = (0..i).map(|k| base[k % n]).collect(); check(&xs, json!({"length": i, "period": n})); }
                    let xs = vec![base[i]; i];
                    check(&xs, json!({"length": i, "all": "equal"}));
                });
            }
        }
        special::<Fr>(ctx, ctx.pick(66, 130));
        special::<toy_field::F31>(ctx, ctx.pick(66, 130));
    }
    if ctx.part("every pair of calls in a row") {
        fn calls<F: PrimeField>(ctx: &Ctx, v: &[F]) {
            // values and keys differing by one bit at either end, constants in the first, a middle or the last entry
            let fs = funs::<F>();
            let cs = |rounds: usize| { let b = consts::<F>(rounds, 2); let mut v = vec![b.clone()]; for i in [0, rounds / 2, rounds - 1] { let mut c = b.clone(); c[i] += F::one(); v.push(c); } v };
            let tables: Vec<Vec<Vec<F>>> = fs.iter().map(|f| cs(f.rounds)).collect();
            ctx.pairs(4 * 4 * 4, |c| { let f = &fs[c % 4]; compare(ctx, f, v[c / 4 % 2], v[1 + c / 8 % 2], &tables[c % 4][c / 16]); !ctx.violated() });
            let lists: Vec<Vec<F>> = vec![vec![], vec![v[0]], vec![v[0], v[1]], vec![v[1], v[0]], vec![v[0], v[2]], vec![v[0], v[0]], (0..40).map(|i| v[i % 3]).collect(), (0..40).map(|i| v[if i == 38 { 0 } else { i % 3 }]).collect()];
            for w in [5usize, 7] {
                let (n, rounds) = if w == 5 { ("multi_mimc5_hash", H5) } else { ("multi_mimc7_hash", H7) };
                let t = cs(rounds);
                ctx.pairs(lists.len() * 2 * 4, |c| {
                    let (xs, key, k) = (&lists[c % 8], v[c / 8 % 2], &t[c / 16]);
                    let r = mc::catch(|| if w == 5 { multi_mimc5_hash(xs, key, k) } else { multi_mimc7_hash(xs, key, k) });
                    let o = ref_multi(xs, key, k, w);
                    let ok = r.as_ref().ok() == Some(&o);
                    if !ok { ctx.violation(&format!("{n}-value"), &format!("{n} of {} elements after another call differs from the chained definition", xs.len()), json!({"list": shows(xs), "key": show(key), "expected": show(o), "got": format!("{:?}", r.map(show))})); }
                    ok
                });
            }
        }
        calls::<Fr>(ctx, &[e[11], e[11] + Fr::from(1u64), e[12]]);
        calls::<toy_field::F31>(ctx, &[fe(5), fe(6), fe(21)]);
    }
    ctx.sample(json!({"function": "mimc5_df", "xl": "3", "xr": "4", "value_over_13": show(ref_df::<toy_field::F13>(fe(3), fe(4), &consts(DF5, 1), 5))}));
    ctx.sample(json!({"function": "multi_mimc7_hash", "list": ["1", "2"], "key": "5", "value_over_11": show(ref_multi::<toy_field::F11>(&[fe(1), fe(2)], fe(5), &consts(H7, 2), 7))}));
    ctx.assume("the toy fields run the same generic functions and the same field implementation (ark-ff Fp256) as the shipped field");
}
