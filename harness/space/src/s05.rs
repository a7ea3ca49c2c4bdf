//! S05: every satisfying assignment of the space-proof circuit states something true.
use crate::r1cs::*;
use crate::subj::*;
use crate::util::*;
use ark_ff::{Field, One, PrimeField, Zero};
use mc::{serde_json::json, Ctx};
use std::collections::HashSet;

fn laid_out<S: Space>(ctx: &Ctx, k: usize, df: &[S::Fr], hc: &[S::Fr]) -> Option<Synth<S::Fr>> {
    let none = vec![None; k];
    match mc::catch(|| S::synth(None, &none, None, df, &none, None, hc, true)) {
        Ok(Ok(s)) => Some(s),
        Ok(Err(e)) => { ctx.violation("setup-synthesis", &format!("key generation fails: {e}"), json!({})); None }
        Err(p) => { ctx.violation("setup-panic", &format!("key generation panics at {}: {}", p.at, p.msg), json!({})); None }
    }
}

#[cfg(feature = "toy")]
/// the true statements (key, m, positions, hash) of a toy field
fn truths<F: PrimeField>(k: usize, n: usize, df: &[F], hc: &[F]) -> HashSet<Vec<u32>> {
    let a = all::<F>();
    let mut r = HashSet::new();
    for key in &a {
        for m in &a {
            let pos: Vec<u32> = a.iter().map(|x| low_bits(ref_df(*key + x, *m, df, 5), n) as u32).collect();
            for v in mc::all_vecs(a.len(), k) {
                let xs: Vec<F> = v.iter().map(|i| a[*i]).collect();
                let mut t = vec![low(*key) as u32, low(*m) as u32];
                t.extend(v.iter().map(|i| pos[*i]));
                t.push(low(ref_multi(&xs, *key, hc, 5)) as u32);
                r.insert(t);
            }
        }
    }
    r
}

#[cfg(feature = "toy")]
fn toy<S: Space>(ctx: &Ctx, k: usize, salts: &[u64]) {
    let p = S::Fr::characteristic()[0];
    ctx.par(salts.len(), |i| {
        let s = salts[i];
        if !ctx.part(&format!("{} answers {k} constants {s}", S::NAME)) { return; }
        let (df, hc) = (consts::<S::Fr>(DF5, s), consts::<S::Fr>(H5, s + 50));
        let Some(set) = laid_out::<S>(ctx, k, &df, &hc) else { return };
        let ok = truths(k, S::n(), &df, &hc);
        let sys = System::new(Toy::new(p), &set.m, |x| low(x) as u32);
        let tick = || { ctx.tick(); !ctx.stopped() };
        let mut seen: HashSet<Vec<u32>> = HashSet::new();
        let mut e = Explorer::new(&sys, 1, None, ctx.pick(20_000_000, 200_000_000), Some(&tick));
        e.run(None, &mut |val| {
            let pubv: Vec<u32> = (1..sys.ni).map(|i| val[i].unwrap_or(0)).collect();
            if ok.contains(&pubv) { seen.insert(pubv); return true; }
            ctx.violation("false-statement", &format!("{}: the circuit for {k} answers is satisfied for the false statement (key, m, positions, hash) = {pubv:?}", S::NAME),
                json!({"field": p, "answers": k, "constants": s, "public": pubv, "assignment": val.iter().map(|v| v.map(|x| x as i64).unwrap_or(-1)).collect::<Vec<_>>()}));
            false
        });
        if e.capped { ctx.cap("assignments"); }
        ctx.add(e.nodes, e.steps, e.leaves);
        ctx.count("true statements reached", seen.len() as u64);
        ctx.count("true statements", ok.len() as u64);
        ctx.count("statements", p.pow(3) * (1u64 << S::n()).pow(k as u32));
        if !ctx.violated() && seen.len() != ok.len() && !e.capped {
            // completeness is the business of S06, but an unsatisfiable circuit would make this check vacuous
            ctx.count("true statements not reached", (ok.len() - seen.len()) as u64);
        }
        if let Some(t) = seen.iter().min() { ctx.sample(json!({"field": p, "answers": k, "constants": s, "satisfiable": t})); }
    });
}

/// Shipped sizes and field: assignments within a bound of deviating decisions around honest runs,
/// and around runs with a non-canonical binary expansion.
fn big<S: Space>(ctx: &Ctx, k: usize, dev: usize, bases: usize) {
    type F<S> = <S as Space>::Fr;
    if !ctx.part(&format!("{} answers {k}", S::NAME)) { return; }
    let n = S::n();
    let (df, hc) = (consts::<F<S>>(DF5, 2), consts::<F<S>>(H5, 3));
    let Some(set) = laid_out::<S>(ctx, k, &df, &hc) else { return };
    let mut runs = vec![];
    for j in 0..40u64 {
        let key: F<S> = scatter(j * 3 + 1);
        let m: F<S> = scatter(j * 3 + 2);
        let xs: Vec<F<S>> = (0..k as u64).map(|i| fe(mc::mix(j * 100 + i) % (1 << n.min(60)))).collect();
        let y: Vec<F<S>> = xs.iter().map(|x| ref_df(key + x, m, &df, 5)).collect();
        let yn: Vec<F<S>> = y.iter().map(|y| fe(low_bits(*y, n) as u64)).collect();
        let h = ref_multi(&xs, key, &hc, 5);
        let so: Vec<_> = xs.iter().map(|x| Some(*x)).collect();
        let yo: Vec<_> = yn.iter().map(|x| Some(*x)).collect();
        if let Ok(Ok(s)) = mc::catch(|| S::synth(Some(key), &so, Some(m), &df, &yo, Some(h), &hc, false)) {
            if s.satisfied && same_shape(&s.m, &set.m) { runs.push((s.assignment, xs, y)); }
        }
    }
    if runs.len() < 8 { ctx.cap("no honest runs (see S06)"); return; }
    let two64 = fe::<F<S>>(u64::MAX) + F::<S>::one();
    let dom = Big { vals: vec![F::<S>::zero(), F::<S>::one(), fe(2), -F::<S>::one(), two64] };
    let sys = System::new(dom, &set.m, |x| x);
    // an answer is found as a variable of its own, or as key + answer (the key is the first public input)
    let carx: Vec<Vec<(usize, F<S>, bool)>> = (0..k).map(|i| {
        let find = |plus: bool| carriers(&runs.iter().map(|(a, x, _)| (a.clone(), if plus { x[i] + a[1] } else { x[i] })).collect::<Vec<_>>(), |a, b| a - b, F::<S>::zero());
        let own = find(false);
        if own.is_empty() { find(true).into_iter().map(|(v, o)| (v, o, true)).collect() } else { own.into_iter().map(|(v, o)| (v, o, false)).collect() }
    }).collect();
    if carx.iter().any(|c| c.is_empty()) { ctx.cap("the answers are not found among the variables; the small fields decide"); return; }
    let tick = || { ctx.tick(); !ctx.stopped() };
    let check = |val: &[Option<F<S>>]| -> bool {
        let z = F::<S>::zero();
        let pubv: Vec<F<S>> = (1..sys.ni).map(|i| val[i].unwrap_or(z)).collect();
        if pubv.len() != k + 3 { ctx.violation("public-count", "unexpected number of public inputs", json!({})); return false; }
        let opts: Vec<Vec<F<S>>> = carx.iter().map(|c| { let mut o: Vec<F<S>> = vec![]; for (v, off, plus) in c { let x = val[*v].unwrap_or(z) - off - if *plus { pubv[0] } else { z }; if !o.contains(&x) { o.push(x); } } o }).collect();
        let mut idx = vec![0; k];
        loop {
            let xs: Vec<F<S>> = (0..k).map(|i| opts[i][idx[i]]).collect();
            if (0..k).all(|i| fe::<F<S>>(low_bits(ref_df(pubv[0] + xs[i], pubv[1], &df, 5), n) as u64) == pubv[2 + i]) && ref_multi(&xs, pubv[0], &hc, 5) == pubv[k + 2] { return true; }
            let mut i = 0;
            while i < k { idx[i] += 1; if idx[i] < opts[i].len() { break; } idx[i] = 0; i += 1; }
            if i == k { break; }
        }
        ctx.violation("false-statement", &format!("{}: an assignment satisfies the circuit but its answers do not map to the challenged positions and hash", S::NAME),
            json!({"public": shows(&pubv), "answers": opts.iter().map(|o| shows(o)).collect::<Vec<_>>()}));
        false
    };
    let go = |guide: &[F<S>], dev: usize| {
        let mut e = Explorer::new(&sys, F::<S>::one(), Some(guide), 2_000_000, Some(&tick));
        e.run(Some(dev), &mut |v| check(v));
        if e.capped { ctx.cap("assignments"); }
        ctx.add(e.nodes, e.steps, e.leaves);
        ctx.count("satisfying assignments", e.leaves);
    };
    // non-canonical expansions: bits of y + modulus
    let carb: Vec<Vec<Vec<usize>>> = (0..k).map(|i| (0..256).map(|b| {
        let r: Vec<(Vec<F<S>>, F<S>)> = runs.iter().map(|(a, _, y)| (a.clone(), fe(*bits_le(y[i]).get(b).unwrap_or(&false) as u64))).collect();
        let c = carriers(&r, |a, b| a - b, F::<S>::zero());
        c.into_iter().filter(|(_, o)| o.is_zero()).map(|(v, _)| v).collect()
    }).collect()).collect();
    let modulus = S::Fr::characteristic();
    ctx.par(runs.len().min(bases), |j| {
        let (a, _, y) = &runs[j];
        go(a, dev);
        for i in 0..k {
            let mut g = a.clone();
            let mut carry = 0u128;
            let yb = y[i].into_repr();
            let mut w = vec![];
            for t in 0..4 { let s = yb.as_ref()[t] as u128 + modulus[t] as u128 + carry; w.push(s as u64); carry = s >> 64; }
            if carry != 0 { continue; }
            for b in 0..256 {
                let bit = w[b / 64] >> (b % 64) & 1;
                // constant-zero top bits have many carriers; the ones not fixed by propagation matter
                if bit as u64 == *bits_le(y[i]).get(b).unwrap_or(&false) as u64 { continue; }
                for v in &carb[i][b] { if *v >= sys.ni { g[*v] = fe(bit); } }
            }
            go(&g, 1);
        }
    });
}

/// Many answers: with key, m and the answers given, the positions and the hash follow. What the given
/// values leave open falls into independent parts; over a toy field every assignment of every part is
/// tried, over the scalar field those within one deviating decision and one solved variable.
fn many<S: Space>(ctx: &Ctx, k: usize, runs: usize, full: usize) {
    type F<S> = <S as Space>::Fr;
    if !ctx.part(&format!("{} answers {k}, answers given", S::NAME)) { return; }
    let n = S::n();
    let toy = S::Fr::size_in_bits() < 32;
    let p = S::Fr::characteristic()[0];
    let (df, hc) = (consts::<F<S>>(DF5, 2), consts::<F<S>>(H5, 3));
    let Some(set) = laid_out::<S>(ctx, k, &df, &hc) else { return };
    // the scattered runs tell the answers apart
    let (scattered, count) = if toy { (24, runs + 24) } else { (32, runs.max(32)) };
    let hs: Vec<Option<(Vec<F<S>>, Vec<F<S>>)>> = {
        let out: Vec<std::sync::Mutex<Option<(Vec<F<S>>, Vec<F<S>>)>>> = (0..count).map(|_| Default::default()).collect();
        ctx.par(count, |j| {
            let j = j as u64;
            let (key, m): (F<S>, F<S>) = if toy { (fe(j / p), fe(j / p / p + j)) } else { (scatter(j * 3 + 1), scatter(j * 3 + 2)) };
            let xs: Vec<F<S>> = (0..k as u64).map(|i| if toy && j >= scattered { fe(j + i * 5 + i / p) } else if toy { fe(mc::mix(j * 100 + i) % p) } else { fe(mc::mix(j * 100 + i) % (1 << n.min(60))) }).collect();
            let yo: Vec<_> = xs.iter().map(|x| Some(fe::<F<S>>(low_bits(ref_df(key + x, m, &df, 5), n) as u64))).collect();
            let h = ref_multi(&xs, key, &hc, 5);
            let so: Vec<_> = xs.iter().map(|x| Some(*x)).collect();
            if let Ok(Ok(s)) = mc::catch(|| S::synth(Some(key), &so, Some(m), &df, &yo, Some(h), &hc, false)) {
                if s.satisfied && same_shape(&s.m, &set.m) { *out[j as usize].lock().unwrap() = Some((s.assignment, xs)); }
            }
        });
        out.into_iter().map(|o| o.into_inner().unwrap()).collect()
    };
    let hs: Vec<(Vec<F<S>>, Vec<F<S>>)> = hs.into_iter().flatten().collect();
    if hs.len() < 8 { ctx.cap("no honest runs (see S06)"); return; }
    let z = F::<S>::zero();
    let two64 = fe::<F<S>>(u64::MAX) + F::<S>::one();
    let dom = Big { vals: if toy { all::<F<S>>() } else { vec![z, F::<S>::one(), fe(2), -F::<S>::one(), two64] } };
    let sys = System::new(dom, &set.m, |x| x);
    let car: Vec<Vec<(usize, F<S>, bool)>> = (0..k).map(|i| {
        let find = |plus: bool| -> Vec<(usize, F<S>, bool)> {
            // an exact copy, confined to the runs
            (0..sys.n).filter(|v| hs.iter().all(|(a, x)| a[*v] == if plus { x[i] + a[1] } else { x[i] })).filter(|v| sys.used(*v)).map(|v| (v, z, plus)).collect()
        };
        let own = find(false);
        if own.is_empty() { find(true) } else { own }
    }).collect();
    if car.iter().any(|c| c.is_empty()) { ctx.cap("the answers are not found among the variables; fewer answers decide"); return; }
    if sys.ni != k + 4 { ctx.violation("public-count", "unexpected number of public inputs", json!({})); return; }
    let tick = || { ctx.tick(); !ctx.stopped() };
    let check = |a: &[F<S>], val: &[Option<F<S>>]| -> bool {
        if (1..sys.ni).all(|v| val[v].map_or(true, |x| x == a[v])) { return true; }
        let pubv: Vec<F<S>> = (1..sys.ni).map(|v| val[v].unwrap_or(a[v])).collect();
        let most = car.iter().map(|c| c.len()).max().unwrap();
        for r in 0..most {
            let xs: Vec<F<S>> = (0..k).map(|i| { let (v, _, plus) = car[i][r.min(car[i].len() - 1)]; val[v].unwrap_or(a[v]) - if plus { pubv[0] } else { z } }).collect();
            if (0..k).all(|i| fe::<F<S>>(low_bits(ref_df(pubv[0] + xs[i], pubv[1], &df, 5), n) as u64) == pubv[2 + i]) && ref_multi(&xs, pubv[0], &hc, 5) == pubv[k + 2] { return true; }
        }
        let at: Vec<usize> = (1..sys.ni).filter(|v| val[*v].map_or(false, |x| x != a[*v])).collect();
        ctx.violation("false-statement", &format!("{}: the circuit for {k} answers is satisfied with other public values (numbers {at:?}) than the ones that follow from its answers", S::NAME),
            json!({"answers": k, "public": shows(&pubv), "honest": shows(&a[1..sys.ni]), "different": at}));
        false
    };
    let start = |a: &[F<S>]| {
        let mut e = Explorer::new(&sys, F::<S>::one(), None, 2_000_000, Some(&tick));
        let ok = e.fix(1, a[1]) && e.fix(2, a[2]) && car.iter().all(|c| e.fix(c[0].0, a[c[0].0]));
        (e, ok)
    };
    let ys: Vec<Vec<F<S>>> = hs.iter().map(|(a, xs)| xs.iter().map(|x| ref_df(a[1] + x, a[2], &df, 5)).collect()).collect();
    let modulus = S::Fr::characteristic();
    // the run with the digits of the values expanded in a part replaced by those of value + modulus
    let lifted = |j: usize, c: &[usize]| -> Vec<Vec<F<S>>> {
        let mut r = vec![];
        for i in 0..k {
            let bits: Vec<Vec<bool>> = ys.iter().map(|y| bits_le(y[i])).collect();
            let has = |b: usize| -> Vec<usize> { c.iter().copied().filter(|v| hs.iter().zip(&bits).all(|((a, _), y)| a[*v] == fe::<F<S>>(*y.get(b).unwrap_or(&false) as u64))).collect() };
            if (0..24).any(|b| has(b).is_empty()) { continue; }
            let mut g = hs[j].0.clone();
            let mut carry = 0u128;
            let yb = ys[j][i].into_repr();
            let mut w = vec![];
            for t in 0..modulus.len().min(4) { let s = yb.as_ref()[t] as u128 + modulus[t] as u128 + carry; w.push(s as u64); carry = s >> 64; }
            if carry != 0 { continue; }
            for b in 0..w.len() * 64 { let bit = w[b / 64] >> (b % 64) & 1; for v in has(b) { g[v] = fe(bit); } }
            r.push(g);
        }
        r
    };
    let seen: std::sync::Mutex<HashSet<String>> = Default::default();
    ctx.par(if toy { hs.len() } else { hs.len().min(runs) }, |j| {
        let a = &hs[j].0;
        let (e, ok) = start(a);
        if !ok { ctx.cap("honest answers contradict the constraints"); return; }
        if !check(a, &e.val) { return; }
        let comps = e.components();
        ctx.add(1, e.steps, 1);
        ctx.count("independent parts", comps.len() as u64);
        for c in &comps {
            if ctx.violated() || ctx.stopped() { return; }
            if toy {
                let mut e = e.fork(None);
                e.over(c.clone());
                e.run(None, &mut |v| check(a, v));
                if e.capped { ctx.cap("assignments"); }
                ctx.add(e.nodes, e.steps, e.leaves);
                continue;
            }
            let conf = e.confined(c);
            let rest: Vec<usize> = c.iter().copied().filter(|v| !conf.contains(v)).collect();
            let go = |guide: &[F<S>], pivot: Option<usize>| {
                let mut e = e.fork(Some(guide));
                let mut o: Vec<usize> = conf.iter().chain(rest.iter()).copied().filter(|v| Some(*v) != pivot).collect();
                o.extend(pivot);
                e.over(o);
                e.run(Some(1), &mut |v| check(a, v));
                if e.capped { ctx.cap("assignments"); }
                ctx.add(e.nodes, e.steps, e.leaves);
            };
            go(a, None);
            let line = |guide: &[F<S>]| {
                let mut e = e.fork(Some(guide));
                e.lines(c, &conf, guide, &mut |v| check(a, v));
                if e.capped { ctx.cap("assignments"); }
                ctx.add(e.nodes, e.steps, e.leaves);
                ctx.count("lines of assignments", e.nodes);
            };
            line(a);
            let new = { let mut s = seen.lock().unwrap(); let l = s.len(); l < full && s.insert(format!("{:?}", e.outline(c))) };
            if new {
                ctx.count("distinct parts explored with every variable solved for", 1);
                // what the confined variables leave open, and each of these
                let mut f = e.fork(None);
                for v in &conf { f.fix(*v, a[*v]); }
                let pivots: Vec<usize> = c.iter().copied().filter(|v| conf.contains(v) || f.val[*v].is_none()).collect();
                ctx.count("variables solved for", pivots.len() as u64);
                ctx.par(pivots.len(), |i| if !ctx.violated() { go(a, Some(pivots[i])) });
            }
            // another expansion of the same value: the digits of value + modulus
            for g in lifted(j, c) { go(&g, None); line(&g); }
        }
    });
}

pub fn run(ctx: &Ctx) {
    ctx.bound("toy fields", "all satisfying assignments: 13 elements with 1 and 2 answers, 31 elements with 1 answer (thorough: 2), 2-bit positions, several constant sets");
    ctx.bound("many answers", "the shipped number of answers: key, m and answers given, all assignments of each part left open (13 elements; 31 elements with 7 answers); scalar field: all assignments with one deviating decision and one variable solved for, and around non-canonical expansions");
    ctx.bound("scalar field", "20-bit positions: all assignments with at most one (thorough: two) deviating decisions from an alphabet of five values around honest runs, and around non-canonical expansions");
    let k = Real::answers();
    many::<Real>(ctx, k, ctx.pick(2, 8), ctx.pick(4, 100));
    big::<Tiny>(ctx, 2, 1, ctx.pick(4, 8));
    big::<Real>(ctx, 2, ctx.pick(1, 2), ctx.pick(4, 8));
    #[cfg(feature = "toy")]
    {
        many::<Toy13>(ctx, k, ctx.pick(104, 2197), 0);
        many::<Toy31>(ctx, 7, ctx.pick(62, 961), 0);
    }
    #[cfg(feature = "toy")]
    {
    toy::<Toy13>(ctx, 1, if ctx.quick() { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15] });
    toy::<Toy31>(ctx, 1, if ctx.quick() { &[0, 1, 2, 3] } else { &[0, 1, 2, 3, 4, 5, 6, 7] });
    toy::<Toy13>(ctx, 2, if ctx.quick() { &[1, 2, 3] } else { &[0, 1, 2, 3, 4, 5, 6, 7] });
    if !ctx.quick() { toy::<Toy31>(ctx, 2, &[2]); }
    }
    #[cfg(not(feature = "toy"))]
    ctx.cap("toy builds unavailable");
    ctx.assume("soundness of a constraint does not depend on the size of the field beyond the enumerated ones");
    ctx.assume("the circuit does not bound the answers x below 2^N (the statement says so); the table does");
}
