//! S12-S14: protocol parameters, independence of I/O splitting, the complete run.
use crate::flow::{file_of, table};
use crate::subj::*;
use crate::util::*;
use ark_ff::{BigInteger, PrimeField};
use mc::{serde_json::json, Ctx};
use std::io::Write;
use sys::io::{plain, with_faults, Fault};

// ---------------------------------------------------------------- S12

pub fn s12(ctx: &Ctx) {
    type F = ark_bls12_381::Fr;
    ctx.bound("outcomes", "4000 (thorough: 40000) outcomes of the random source and all single-word variations of one of them; every bit of every component, every pair and triple of components");
    let draw = |words: &[u64]| mc_rand::with_script(words, &[], || mc::catch(space_real::proof_of_space::pospace::prepare_params));
    let stream = |k: u64| -> Vec<u64> { (0..400).map(|j| mc::mix((k << 20) + j)).collect() };
    let flat = |p: (Vec<F>, Vec<F>, F, F)| -> Result<Vec<F>, String> {
        if p.0.len() != DF5 { return Err(format!("{} delay-function constants instead of {DF5}", p.0.len())); }
        if p.1.len() != H5 { return Err(format!("{} hash constants instead of {H5}", p.1.len())); }
        Ok(p.0.into_iter().chain(p.1).chain([p.2, p.3]).collect())
    };
    let name = |i: usize| if i < DF5 { format!("delay-function constant {i}") } else if i < DF5 + H5 { format!("hash constant {}", i - DF5) } else if i == DF5 + H5 { "key".into() } else { "m".into() };
    let mut outs: Vec<Vec<F>> = vec![];
    if ctx.part("outcomes") {
        for k in 0..ctx.pick(4000u64, 40_000) {
            let (r, used) = draw(&stream(k));
            ctx.add(1, used as u64, 1);
            if k == 0 && used == 0 {
                let two: Vec<_> = (0..2).filter_map(|_| mc::catch(space_real::proof_of_space::pospace::prepare_params).ok()).collect();
                if two.len() == 2 && two[0] == two[1] { ctx.violation("constant", "the parameters are always the same", json!({})); } else { ctx.cap("random source not scripted"); }
                return;
            }
            match r.map_err(|p| format!("panics at {}: {}", p.at, p.msg)).and_then(flat) {
                Ok(v) => outs.push(v),
                Err(e) => { ctx.violation("form", &format!("prepare_params: {e}"), json!({"outcome": k})); return; }
            }
        }
        let n = DF5 + H5 + 2;
        let bits: Vec<Vec<Vec<bool>>> = outs.iter().map(|o| o.iter().map(|x| x.into_repr().to_bits_le()).collect()).collect();
        // every bit of every component takes both values (the modulus has 255 bits)
        for i in 0..n { for b in 0..F::size_in_bits() {
            let ones = bits.iter().filter(|o| o[i][b]).count();
            ctx.add(1, 1, 0);
            if ones == 0 || ones == bits.len() { ctx.violation("fixed-bit", &format!("bit {b} of {} has the same value in every outcome", name(i)), json!({"component": name(i), "bit": b})); return; }
        } }
        // pairs: the two lowest bits take all 16 values; triples: the lowest bits take all 8
        for i in 0..n { for j in 0..i {
            let mut seen = 0u32;
            for o in &bits { seen |= 1 << (o[i][0] as u32 | (o[i][1] as u32) << 1 | (o[j][0] as u32) << 2 | (o[j][1] as u32) << 3); }
            ctx.add(1, 1, 0);
            if seen != 0xffff { ctx.violation("dependent", &format!("{} and {} are not independent", name(i), name(j)), json!({"components": [name(i), name(j)]})); return; }
            for k in 0..j {
                let mut seen = 0u32;
                for o in &bits { seen |= 1 << (o[i][0] as u32 | (o[j][0] as u32) << 1 | (o[k][0] as u32) << 2); }
                if seen != 0xff { ctx.violation("dependent", &format!("{}, {} and {} are not independent", name(i), name(j), name(k)), json!({"components": [name(i), name(j), name(k)]})); return; }
            }
        } }
        // either of two components can be the smaller one
        for i in 0..n { for j in 0..i {
            let less = outs.iter().filter(|o| o[i].into_repr() < o[j].into_repr()).count();
            ctx.add(1, 1, 0);
            if less == 0 || less == outs.len() { ctx.violation("ordered", &format!("{} and {} always come in the same order", name(i), name(j)), json!({"components": [name(i), name(j)]})); return; }
        } }
        // sums and differences of components are not constant
        for i in 0..n { for j in 0..i { for s in 0..2 {
            let f = |o: &Vec<F>| if s == 0 { o[i] + o[j] } else { o[i] - o[j] };
            if outs.iter().all(|o| f(o) == f(&outs[0])) { ctx.violation("dependent", &format!("{} and {} determine each other", name(i), name(j)), json!({})); return; }
        } } }
        ctx.sample(json!({"components": n, "example key": show(outs[0][n - 2]), "example m": show(outs[0][n - 1])}));
    }
    if ctx.part("single draws") {
        // every component depends on some draw, and a draw changed at any place leaves the form intact
        let base = stream(77);
        let (Ok(b), used) = draw(&base) else { return };
        let Ok(b) = flat(b) else { return };
        let mut touched = vec![false; b.len()];
        let mut alone = vec![false; b.len()];
        for d in 0..used.min(400) {
            for w in [0u64, 1, 2, 0x5555555555555555, 0x3fffffffffffffff, mc::mix(d as u64)] {
                let mut s = base.clone();
                s[d] = w;
                let (r, _) = draw(&s);
                ctx.add(1, 1, 1);
                match r.map_err(|p| p.msg).and_then(flat) {
                    Ok(v) => {
                        for i in 0..b.len() { touched[i] |= v[i] != b[i]; }
                        let mut ch = (0..b.len()).filter(|&i| v[i] != b[i]);
                        if let (Some(i), None) = (ch.next(), ch.next()) { alone[i] = true; }
                    }
                    Err(e) => { ctx.violation("form", &format!("prepare_params: {e}"), json!({"draw": d, "word": w})); return; }
                }
            }
        }
        if let Some(i) = touched.iter().position(|t| !t) { ctx.violation("no-draw", &format!("{} depends on no draw", name(i)), json!({"component": name(i)})); }
        // where draws belong to single components, a component that only ever changes together with another one is
        // a function of others. (A generator seeded once mixes all draws: then no component changes alone.)
        let n = alone.iter().filter(|a| **a).count();
        if n * 2 > b.len() {
            if let Some(i) = alone.iter().position(|a| !a) { ctx.violation("function", &format!("{} never varies on its own: it is a function of other components", name(i)), json!({"component": name(i), "components that do": n})); }
        }
    }
    if ctx.part("histories") {
        // parameters prepared one after the other are fresh
        for k in 0..ctx.pick(200u64, 2000) {
            let words: Vec<u64> = (0..1600).map(|j| mc::mix((k << 24) + j + 3)).collect();
            let (r, _) = mc_rand::with_script(&words, &[], || mc::catch(|| (0..3).map(|_| space_real::proof_of_space::pospace::prepare_params()).collect::<Vec<_>>()));
            let Ok(v) = r else { return };
            let v: Vec<Vec<F>> = v.into_iter().filter_map(|p| flat(p).ok()).collect();
            ctx.add(1, 3, 1);
            for a in 0..v.len() { for b in 0..a { for i in 0..v[a].len() {
                if v[a][i] == v[b][i] { ctx.violation("not-fresh", &format!("{} is the same in two preparations", name(i)), json!({"outcome": k, "component": name(i)})); return; }
            } } }
        }
    }
    ctx.assume("the random source is the thread generator of the rand crate; independence is judged on the low bits of the components over the explored outcomes");
}

// ---------------------------------------------------------------- S13

struct Case { name: String, run: Box<dyn Fn(&mc::Scratch) -> Vec<u8> + Sync> }

fn cases<S: Space>(n: usize, v: &mut Vec<Case>) {
    let key = fe::<S::Fr>(3);
    let m = fe::<S::Fr>(5);
    let (df, hc) = (consts::<S::Fr>(DF5, 2), consts::<S::Fr>(H5, 3));
    let t = table(key, m, &df, n);
    let file = file_of(&t, n);
    let bytes = |x: &[S::Fr]| x.iter().flat_map(|v| v.into_repr().to_bytes_le()).collect::<Vec<u8>>();
    v.push(Case { name: format!("prepare_space, n {n}, {}", S::NAME), run: Box::new(move |s| {
        plain(|| std::fs::write(s.path("p"), [7; 99]).unwrap());
        S::prepare(&s.path("p"), n).unwrap();
        plain(|| std::fs::read(s.path("p")).unwrap())
    }) });
    let (d, len) = (df.clone(), file.len());
    v.push(Case { name: format!("mark_space, n {n}, {}", S::NAME), run: Box::new(move |s| {
        plain(|| std::fs::write(s.path("p"), vec![0; len]).unwrap());
        S::mark(&s.path("p"), key, m, &d, n);
        plain(|| std::fs::read(s.path("p")).unwrap())
    }) });
    let ch: Vec<usize> = (0..1 << n).chain((0..1 << n).rev()).collect();
    let f = file.clone();
    v.push(Case { name: format!("response_1, n {n}, {}", S::NAME), run: Box::new(move |s| {
        plain(|| std::fs::write(s.path("p"), &f).unwrap());
        let mut r = vec![];
        for c in ch.chunks(3) {
            let (x, idx, h) = S::response_1(&s.path("p"), &c.to_vec(), key, &hc, n);
            r.extend(bytes(&x)); r.extend(idx.iter().map(|i| *i as u8)); r.extend(bytes(&[h]));
        }
        r.extend(plain(|| std::fs::read(s.path("p")).unwrap()));
        r
    }) });
}

pub fn s13(ctx: &Ctx) {
    const KINDS: [Fault; 5] = [Fault::One, Fault::Half, Fault::AllButOne, Fault::Intr, Fault::Storm];
    ctx.bound("faults", "one fault of five kinds at every read and write, every cyclic fault pattern up to period 3, every pair of faults (four kinds of pairs) for runs of up to 60 calls (thorough: 400)");
    let mut cases_: Vec<Case> = vec![];
    for n in 0..=3 { cases::<Tiny>(n, &mut cases_); }
    for n in [4usize, 7] { cases::<Real>(n, &mut cases_); }
    #[cfg(feature = "toy")]
    for n in 1..=2 { cases::<Toy13>(n, &mut cases_); }
    let cases = cases_;
    let run = |c: &Case, plan: &[Fault], tail: &[Fault]| mc::with_scratch(|s| with_faults(plan, tail, || mc::catch(|| (c.run)(s))));
    let mut work: Vec<(usize, Vec<u8>, usize)> = vec![];
    if ctx.part("without faults") {
        for (k, c) in cases.iter().enumerate() {
            let (r, calls, _) = run(c, &[], &[]);
            ctx.count(&format!("io calls: {}", c.name), calls as u64);
            match r { Ok(v) => { if calls > 0 { work.push((k, v, calls)); } } Err(p) => ctx.cap(&format!("{} fails without faults: {}", c.name, p.msg)) }
            ctx.add(1, calls as u64, 1);
        }
    }
    let judge = |k: usize, base: &Vec<u8>, plan: &[Fault], tail: &[Fault]| {
        let (r, calls, made) = run(&cases[k], plan, tail);
        ctx.add(1, calls as u64, 1);
        ctx.count("faults", made as u64);
        let d = || json!({"operation": cases[k].name, "plan": format!("{plan:?}"), "then": format!("{tail:?}")});
        match r {
            Err(p) => ctx.violation("fails", &format!("{} fails when the system serves I/O in parts or interrupts it: {}", cases[k].name, p.msg), d()),
            Ok(v) if v != *base => ctx.violation("differs", &format!("{} gives another result when the system serves I/O in parts", cases[k].name), d()),
            _ => {}
        }
    };
    if ctx.part("one fault at every call") {
        let all: Vec<(usize, usize, Fault)> = work.iter().enumerate().filter(|(_, x)| x.2 <= 3000).flat_map(|(w, x)| (0..x.2 + 1).flat_map(move |i| KINDS.map(|f| (w, i, f)))).collect();
        ctx.par(all.len(), |j| { let (w, i, f) = all[j]; let mut plan = vec![Fault::None; i]; plan.push(f); judge(work[w].0, &work[w].1, &plan, &[]); });
    }
    if ctx.part("every call faulty") {
        let tails: Vec<Vec<Fault>> = mc::all_vecs(5, 1).chain(mc::all_vecs(5, 2)).chain(mc::all_vecs(5, 3)).map(|v| v.iter().map(|&x| [Fault::None, KINDS[0], KINDS[1], KINDS[2], KINDS[3]][x]).collect()).chain([vec![Fault::Storm]]).collect();
        let all: Vec<(usize, usize)> = (0..work.len()).flat_map(|w| (0..tails.len()).map(move |t| (w, t))).collect();
        ctx.par(all.len(), |j| judge(work[all[j].0].0, &work[all[j].0].1, &[], &tails[all[j].1]));
    }
    if ctx.part("two faults") {
        let cap = ctx.pick(60usize, 400);
        let all: Vec<(usize, usize, usize, Fault, Fault)> = work.iter().enumerate().filter(|(_, x)| x.2 <= cap).flat_map(|(w, x)| { let n = x.2 + 1; (0..n).flat_map(move |a| (a + 1..n + 1).flat_map(move |b| [(Fault::One, Fault::One), (Fault::One, Fault::Intr), (Fault::Intr, Fault::Intr), (Fault::Half, Fault::AllButOne)].map(|(f, g)| (w, a, b, f, g)))) }).collect();
        ctx.par(all.len(), |j| { let (w, a, b, f, g) = all[j]; let mut plan = vec![Fault::None; b + 1]; plan[a] = f; plan[b] = g; judge(work[w].0, &work[w].1, &plan, &[]); });
    }
    ctx.sample(json!({"operation": "mark_space, n 2", "plan": ["None", "Intr"], "outcome": "the same file as without faults"}));
    ctx.assume("faults are injected into read, write, pread, pwrite, readv and writev of regular files; a call is interrupted at most nine times in a row");
}

// ---------------------------------------------------------------- S15

// a complete run: the space file and how many records were written
#[cfg(feature = "toy")]
fn run_case<S: Space>(v: &mut Vec<Case>) {
    let n = S::n();
    let (key, m) = (fe::<S::Fr>(3), fe::<S::Fr>(5));
    let (df, hc) = (consts::<S::Fr>(DF5, 2), consts::<S::Fr>(H5, 3));
    v.push(Case { name: format!("complete run, n {n}, {}", S::NAME), run: Box::new(move |s| {
        plain(|| { std::fs::write(s.path("p"), [7; 99]).unwrap(); std::fs::write(s.path("r"), "earlier record\n").unwrap(); });
        let mut f = std::fs::OpenOptions::new().read(true).append(true).open(s.path("r")).unwrap();
        let words: Vec<u64> = (0..4096).map(mc::mix).collect();
        mc_rand::with_script(&words, &[], || S::run(&s.path("p"), df.clone(), hc.clone(), key, m, &mut f));
        let _ = f.flush();
        let lines = plain(|| std::fs::read(s.path("r")).unwrap()).iter().filter(|&&b| b == b'\n').count();
        [plain(|| std::fs::read(s.path("p")).unwrap()), vec![lines as u8]].concat()
    }) });
}

pub fn s15(ctx: &Ctx) {
    ctx.bound("failures", "one failing call at every read and write, all calls failing from every call on, one failure after one partial or interrupted call (runs of up to 60 calls, thorough 300)");
    let mut cases_: Vec<Case> = vec![];
    for n in 0..=3 { cases::<Tiny>(n, &mut cases_); }
    for n in [4usize, 7] { cases::<Real>(n, &mut cases_); }
    #[cfg(feature = "toy")]
    { for n in 1..=2 { cases::<Toy13>(n, &mut cases_); } run_case::<Toy13>(&mut cases_); run_case::<Toy31>(&mut cases_); }
    let cases = cases_;
    let run = |c: &Case, plan: &[Fault], tail: &[Fault]| mc::with_scratch(|s| with_faults(plan, tail, || mc::catch(|| (c.run)(s))));
    let mut work: Vec<(usize, Vec<u8>, usize)> = vec![];
    if ctx.part("without failures") {
        for (k, c) in cases.iter().enumerate() {
            let (r, calls, _) = run(c, &[], &[]);
            ctx.count(&format!("io calls: {}", c.name), calls as u64);
            match r { Ok(v) => { if calls > 0 { work.push((k, v, calls)); } } Err(p) => ctx.cap(&format!("{} fails without failures: {}", c.name, p.msg)) }
            ctx.add(1, calls as u64, 1);
        }
    }
    let judge = |k: usize, base: &Vec<u8>, plan: &[Fault], tail: &[Fault]| {
        let (r, calls, made) = run(&cases[k], plan, tail);
        ctx.add(1, calls as u64, 1);
        ctx.count("failures", made as u64);
        match r {
            Err(_) => ctx.count("reported", 1),
            Ok(v) if v != *base => ctx.violation("unnoticed", &format!("{} ends as if it had succeeded, with another result, when the system fails one of its reads or writes", cases[k].name), json!({"operation": cases[k].name, "plan": format!("{plan:?}"), "then": format!("{tail:?}")})),
            Ok(_) => ctx.count("without effect", 1),
        }
    };
    if ctx.part("one failure at every call") {
        let all: Vec<(usize, usize)> = work.iter().enumerate().filter(|(_, x)| x.2 <= 3000).flat_map(|(w, x)| (0..x.2).map(move |i| (w, i))).collect();
        ctx.par(all.len(), |j| { let (w, i) = all[j]; let mut plan = vec![Fault::None; i]; plan.push(Fault::Fail); judge(work[w].0, &work[w].1, &plan, &[]); });
    }
    if ctx.part("failing from every call on") {
        let all: Vec<(usize, usize)> = work.iter().enumerate().filter(|(_, x)| x.2 <= 3000).flat_map(|(w, x)| (0..x.2).map(move |i| (w, i))).collect();
        ctx.par(all.len(), |j| { let (w, i) = all[j]; judge(work[w].0, &work[w].1, &vec![Fault::None; i], &[Fault::Fail]); });
    }
    if ctx.part("a failure after a partial or interrupted call") {
        let cap = ctx.pick(60usize, 300);
        let all: Vec<(usize, usize, usize, Fault)> = work.iter().enumerate().filter(|(_, x)| x.2 <= cap).flat_map(|(w, x)| { let n = x.2; (0..n).flat_map(move |a| (a + 1..n + 1).flat_map(move |b| [Fault::One, Fault::Half, Fault::Intr].map(|f| (w, a, b, f)))) }).collect();
        ctx.par(all.len(), |j| { let (w, a, b, f) = all[j]; let mut plan = vec![Fault::None; b + 1]; plan[a] = f; plan[b] = Fault::Fail; judge(work[w].0, &work[w].1, &plan, &[]); });
    }
    ctx.sample(json!({"operation": "mark_space, n 2", "plan": ["None", "Fail"], "outcome": "ends with a panic"}));
    ctx.assume("failures are injected into read, write, pread, pwrite, readv and writev of regular files on the calling thread: EIO for reads, ENOSPC for writes; opening and seeking succeed");
}

// ---------------------------------------------------------------- S14

#[cfg(feature = "toy")]
fn runs<S: Space>(ctx: &Ctx, salts: &[u64]) {
    let a = all::<S::Fr>();
    let n = S::n();
    for salt in salts {
        if !ctx.part(&format!("{} constants {salt}", S::NAME)) { continue; }
        let (df, hc) = (consts::<S::Fr>(DF5, *salt), consts::<S::Fr>(H5, salt + 50));
        ctx.par(a.len(), |i| mc::with_scratch(|sc| {
            let (space, rec) = (sc.path("space"), sc.path("record"));
            for m in &a {
                let t = table(a[i], *m, &df, n);
                // outcomes: all challenges at position 0, or spread over all positions
                for script in 0..5u64 {
                    let words: Vec<u64> = if script == 0 { vec![0; 4096] } else if script == 4 { vec![0x9000_0001_9000_0001; 4096] } else { (0..4096).map(|j| mc::mix((script << 20) + j + 13 * i as u64)).collect() };
                    let before = if script % 2 == 0 { "earlier record\n".to_string() } else { String::new() };
                    std::fs::write(&rec, &before).unwrap();
                    if script == 1 { let _ = std::fs::remove_file(&space); } else { std::fs::write(&space, vec![0xee; 3 * script as usize]).unwrap(); }
                    let mut f = std::fs::OpenOptions::new().read(true).append(true).open(&rec).unwrap();
                    let r = mc_rand::with_script(&words, &[], || mc::catch(|| S::run(&space, df.clone(), hc.clone(), a[i], *m, &mut f))).0;
                    let _ = f.flush();
                    ctx.add(1, 7, 1);
                    let d = || json!({"build": S::NAME, "key": show(a[i]), "m": show(*m), "constants": salt, "challenges": if script == 0 || script == 4 { "all the same" } else { "spread" }, "table": t});
                    // the same draw over and over: the challenges do not depend on what else is drawn
                    let same = script == 0 || script == 4;
                    let at = if same { mc_rand::with_script(&words, &[], || mc::catch(|| S::challenges(4, n))).0.ok().and_then(|c| c.first().copied()).unwrap_or(0) } else { 0 };
                    let want = if same { t[at].is_some() } else { true };
                    let after = std::fs::read_to_string(&rec).unwrap_or_default();
                    match (&r, want) {
                        (Err(p), true) => { ctx.violation("honest-run", &format!("a complete honest run fails: {} ({})", p.msg, p.at), d()); return; }
                        (Ok(()), false) => { ctx.violation("accepted-without-answers", "a complete run succeeds although no challenge is answerable", d()); return; }
                        _ => {}
                    }
                    if !after.starts_with(&before) { ctx.violation("record-lost", "a run changes earlier records", d()); return; }
                    let new = &after[before.len()..];
                    if r.is_ok() {
                        let rate = format!("{0}/{0}", S::answers());
                        if !new.split(|c: char| c == ',' || c.is_whitespace()).any(|w| w == rate) { ctx.violation("record", &format!("the record of a successful run does not show the rate {rate}: {new:?}"), d()); return; }
                        ctx.count("accepted runs", 1);
                    } else {
                        if !new.is_empty() { ctx.violation("record-of-failure", &format!("a run that fails is recorded: {new:?}"), d()); return; }
                        ctx.count("failed runs", 1);
                    }
                    let got = std::fs::read(&space).unwrap_or_default();
                    if got != file_of(&t, n) { ctx.violation("space-file", "the space file after a run is not the marked table", d()); return; }
                }
            }
        }));
    }
}

pub fn s14(ctx: &Ctx) {
    ctx.bound("runs", "complete runs for all keys and m over 13 and 31 elements (2-bit positions, 100 challenges, 2 answers), challenges all at one position or spread, earlier files and records of different lengths; three (thorough: eight) times the space command (five runs each) at small sizes; one run that succeeds and one that fails at the shipped sizes (20-bit positions, 50 answers)");
    #[cfg(feature = "toy")]
    {
        runs::<Toy13>(ctx, if ctx.quick() { &[0, 1, 2, 3] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9] });
        runs::<Toy31>(ctx, if ctx.quick() { &[2] } else { &[0, 1, 2, 3, 4] });
    }
    if ctx.part("scalar field") {
        // with real proofs; two runs one after the other on the same files
        type F = ark_bls12_381::Fr;
        ctx.par(ctx.pick(4, 16), |i| mc::with_scratch(|sc| {
            let (space, rec) = (sc.path("space"), sc.path("record"));
            std::fs::write(&rec, "earlier record\n").unwrap();
            let mut f = std::fs::OpenOptions::new().read(true).append(true).open(&rec).unwrap();
            let mut old = "earlier record\n".to_string();
            for round in 0..2u64 {
                let (df, hc) = (consts::<F>(DF5, 2 + i as u64), consts::<F>(H5, 9 + round));
                let (key, m) = (scatter::<F>(i as u64 * 2 + round), scatter::<F>(500 + i as u64));
                let r = mc::catch(|| Tiny::run(&space, df.clone(), hc.clone(), key, m, &mut f));
                ctx.add(1, 7, 1);
                let d = || json!({"key": show(key), "m": show(m), "round": round});
                if let Err(p) = r { ctx.violation("honest-run", &format!("a complete honest run fails: {} ({})", p.msg, p.at), d()); return; }
                let now = std::fs::read_to_string(&rec).unwrap_or_default();
                if !now.starts_with(&old) || now.len() == old.len() { ctx.violation("record-lost", "a run changes earlier records or adds none", d()); return; }
                old = now;
                if std::fs::read(&space).unwrap_or_default() != file_of(&table(key, m, &df, Tiny::n()), Tiny::n()) { ctx.violation("space-file", "the space file after a run is not the marked table", d()); return; }
            }
        }));
    }
    if ctx.part("the space command") {
        // test_pospace works on fixed relative paths: in a scratch directory, before and after other records
        let sc = mc::Scratch::new();
        let dir = sc.0.join("src/proof_of_space/data");
        std::fs::create_dir_all(&dir).unwrap();
        let home = std::env::current_dir().unwrap();
        std::env::set_current_dir(&sc.0).unwrap();
        let (space, rec) = (dir.join("pos_data"), dir.join("result"));
        let rate = format!("{0}/{0}", Tiny::answers());
        let rates = |t: &str| t.split(|c: char| c == ',' || c.is_whitespace()).filter(|w| *w == rate).count();
        let mut old = String::new();
        let size = ((Tiny::n() + 1 << Tiny::n()) + 7) / 8;
        // pairs of runs of the command that have left different tables at least once
        let (mut told, mut rounds) = ([false; 4], 0);
        for round in 0..ctx.pick(3u64, 8) {
            let words: Vec<u64> = (0..4096).map(|j| mc::mix((round << 20) + j)).collect();
            // the table of a run is the space file before it is emptied for the next run
            let seen: std::sync::Arc<std::sync::Mutex<(Vec<Vec<u8>>, Vec<u8>)>> = Default::default();
            let (to, at) = (seen.clone(), space.clone());
            let see = move || {
                let now = std::fs::read(&at).unwrap_or_default();
                let mut s = to.lock().unwrap();
                if now.len() < s.1.len() && s.1.len() == size && now.len() < size { let t = s.1.clone(); s.0.push(t); }
                s.1 = now;
            };
            let r = mc_rand::with_script(&words, &[], || mc::catch(|| sys::io::watched(see, space_tiny::proof_of_space::pospace::test_pospace))).0;
            ctx.add(1, 5, 1);
            let d = || json!({"round": round});
            if let Err(p) = r { ctx.violation("honest-run", &format!("the space command fails: {} ({})", p.msg, p.at), d()); break; }
            let now = std::fs::read_to_string(&rec).unwrap_or_default();
            if !now.starts_with(&old) { ctx.violation("record-lost", "the space command changes earlier records", d()); break; }
            if rates(&now[old.len()..]) != 5 { ctx.violation("record", &format!("the space command leaves {} records of five runs", rates(&now[old.len()..])), d()); break; }
            old = now;
            let mut tables = seen.lock().unwrap().0.clone();
            let last = std::fs::read(&space).unwrap_or_default();
            // (the first table seen may be the one left by the command before)
            tables.push(last.clone());
            if tables.len() > 5 { tables.drain(..tables.len() - 5); }
            if tables.len() == 5 { rounds += 1; for k in 0..4 { told[k] |= tables[k] != tables[k + 1]; } }
            if last.len() != size { ctx.violation("space-file", "the space file after the command has another size than the marked table", d()); break; }
        }
        ctx.count("commands with all five tables seen", rounds);
        if let (true, Some(k)) = (rounds >= 3, told.iter().position(|x| !x)) { ctx.violation("same-table", &format!("runs {} and {} of the space command leave the same table every time: not two runs with parameters of their own", k + 1, k + 2), json!({"commands": rounds})); }
        std::env::set_current_dir(home).unwrap();
    }
    if ctx.part("shipped sizes") {
        type F = ark_bls12_381::Fr;
        let (df, hc, key, m) = (consts::<F>(DF5, 4), consts::<F>(H5, 5), scatter::<F>(62), scatter::<F>(2));
        let t = table(key, m, &df, Real::n());
        // 40 challenges at the last position, which is answerable; that of shorter positions is not.
        // 60 challenges at the first position, which is not: too few are left for the required answers.
        let last = vec![0x9000_0001_9000_0001u64; 40 * Real::n()];
        let first = vec![0u64; 60 * Real::n()];
        let steered = |w: &[u64], k: usize, answerable: bool| {
            let at = mc_rand::with_script(w, &[], || mc::catch(|| Real::challenges(k, Real::n()))).0.unwrap_or_default();
            let ok = at.len() == k && at.iter().all(|p| t.get(*p).map_or(false, |x| x.is_some() == answerable));
            if !ok { ctx.cap("challenges are not steered to the wanted position"); }
            ok
        };
        ctx.par(2, |which| mc::with_scratch(|sc| {
            let (space, rec) = (sc.path("space"), sc.path("record"));
            std::fs::write(&rec, "earlier record\n").unwrap();
            let mut f = std::fs::OpenOptions::new().read(true).append(true).open(&rec).unwrap();
            let mut r = Ok(());
            if which == 1 {
                if !steered(&first, 60, false) { return; }
                let words: Vec<u64> = first.iter().copied().chain((0..8192).map(|j| mc::mix(j))).collect();
                r = mc_rand::with_script(&words, &[], || mc::catch(|| Real::run(&space, df.clone(), hc.clone(), key, m, &mut f))).0;
                ctx.add(1, 7, 1);
                if r.is_ok() { return ctx.violation("accepted-without-answers", "a complete run succeeds although less than the required number of challenges is answerable", json!(null)); }
                if std::fs::read_to_string(&rec).unwrap_or_default() != "earlier record\n" { return ctx.violation("record-of-failure", "a run that fails is recorded", json!(null)); }
            } else {
                let ends = steered(&last, 40, true);
                // (a run with less than the required number of answerable challenges is right to fail)
                for k in 0..3u64 {
                    let words: Vec<u64> = last.iter().copied().take(if ends { last.len() } else { 0 }).chain((0..8192).map(|j| mc::mix((k << 30) + j))).collect();
                    r = mc_rand::with_script(&words, &[], || mc::catch(|| Real::run(&space, df.clone(), hc.clone(), key, m, &mut f))).0;
                    ctx.add(1, 7, 1);
                    if r.is_ok() { break; }
                }
                if let Err(p) = r { return ctx.violation("honest-run", &format!("a complete honest run fails: {} ({})", p.msg, p.at), json!(null)); }
                let now = std::fs::read_to_string(&rec).unwrap_or_default();
                let rate = format!("{0}/{0}", Real::answers());
                if !now.starts_with("earlier record\n") { return ctx.violation("record-lost", "a run changes earlier records", json!(null)); }
                if now.split(|c: char| c == ',' || c.is_whitespace()).filter(|w| *w == rate).count() != 1 { return ctx.violation("record", &format!("the record of a successful run does not show the rate {rate}: {now:?}"), json!(null)); }
            }
            if std::fs::read(&space).unwrap_or_default() != file_of(&t, Real::n()) { return ctx.violation("space-file", "the space file after a run is not the marked table", json!(null)); }
        }));
    }
    ctx.sample(json!({"key": 3, "m": 4, "challenges": "all 0", "position 0": "not answerable", "outcome": "the run fails and nothing is recorded"}));
    ctx.assume("over the toy fields an ideal proof system stands in for Groth16; over the scalar field Groth16 itself runs");
}
