//! S06-S09, S11: the prover's table, its responses, the verifier.
use crate::r1cs::*;
use crate::subj::*;
use crate::util::*;
use ark_ff::{Field, One, PrimeField, Zero};
use mc::{serde_json::json, Ctx};

fn at<T>(r: Result<T, mc::Panicked>) -> Result<T, String> { r.map_err(|p| format!("panic at {}: {}", p.at, p.msg)) }

/// the table of the definition: entry y is the largest x mapped to y
pub fn table<F: PrimeField>(key: F, m: F, df: &[F], n: usize) -> Vec<Option<usize>> {
    let mut t = vec![None; 1 << n];
    for x in 0..1usize << n { t[low_bits(ref_df(key + fe::<F>(x as u64), m, df, 5), n)] = Some(x); }
    t
}
pub fn file_of(t: &[Option<usize>], n: usize) -> Vec<u8> {
    let mut f = vec![0u8; ((n + 1) * t.len()).div_ceil(8)];
    let mut set = |b: usize| f[b / 8] |= 1 << (b % 8);
    for (y, e) in t.iter().enumerate() {
        if let Some(x) = e {
            for i in 0..n { if x >> i & 1 == 1 { set(y * (n + 1) + i); } }
            set(y * (n + 1) + n);
        }
    }
    f
}

// ---------------------------------------------------------------- S08

/// prepare and mark at `path`; the file must be the encoded table
fn mark_case<S: Space>(ctx: &Ctx, path: &str, before: Option<&[u8]>, key: S::Fr, m: S::Fr, df: &Vec<S::Fr>, n: usize) -> bool {
    match before { None => { let _ = std::fs::remove_file(path); } Some(b) => std::fs::write(path, b).unwrap() }
    let d = |extra: String| json!({"build": S::NAME, "n": n, "key": show(key), "m": show(m), "df_constants": shows(df), "file_before": before.map(|b| b.len()), "difference": extra});
    let len = ((n + 1) * (1 << n) + 7) / 8;
    match at(mc::catch(|| S::prepare(path, n))) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => { ctx.violation("prepare-fails", &format!("prepare_space(n={n}) fails: {e}"), d(e.to_string())); return false; }
        Err(e) => { ctx.violation("prepare-panics", &format!("prepare_space(n={n}): {e}"), d(e)); return false; }
    }
    let f = std::fs::read(path).unwrap_or_default();
    if f.len() != len || f.iter().any(|b| *b != 0) {
        ctx.violation("prepared-file", &format!("the prepared space for n={n} is not {len} zero bytes (has {} bytes, {} nonzero)", f.len(), f.iter().filter(|b| **b != 0).count()), d(format!("{} bytes", f.len())));
        return false;
    }
    if let Err(e) = at(mc::catch(|| S::mark(path, key, m, df, n))) { ctx.violation("mark-panics", &format!("mark_space(n={n}): {e}"), d(e)); return false; }
    let f = std::fs::read(path).unwrap_or_default();
    let want = file_of(&table(key, m, df, n), n);
    if f != want {
        let first = f.iter().zip(&want).position(|(a, b)| a != b);
        ctx.violation("marked-file", &format!("the marked space for n={n} is not the inverse table of the delay function (length {} of {}, first differing byte {first:?})", f.len(), want.len()),
            if n <= 6 { d(format!("got {f:?}, expected {want:?}")) } else { d(format!("{first:?}")) });
        return false;
    }
    true
}

pub fn s08(ctx: &Ctx) {
    ctx.bound("toy fields", "all keys and m, all sizes n <= 3 over 13 and n <= 4 over 31 elements, several constant sets");
    ctx.bound("scalar field", "sizes 0..14, 16 and 20 (thorough: all up to 16, 18, 20), three keys");
    #[cfg(feature = "toy")]
    fn toy<S: Space>(ctx: &Ctx, max_n: usize, salts: &[u64]) {
        let a = all::<S::Fr>();
        for s in salts {
            for n in 0..=max_n {
                if !ctx.part(&format!("{} n {n} constants {s}", S::NAME)) { continue; }
                let df = consts::<S::Fr>(DF5, *s);
                ctx.par(a.len(), |i| mc::with_scratch(|sc| {
                    let path = sc.path("space");
                    for (j, m) in a.iter().enumerate() {
                        // a fresh file, or leftovers of a shorter, equally long or longer one
                        let junk = vec![0xffu8; if j % 3 == 1 { ((n + 1) * (1 << n)).div_ceil(8) } else { (j * 5) % 40 }];
                        if !mark_case::<S>(ctx, &path, if j % 3 == 0 { None } else { Some(&junk) }, a[i], *m, &df, n) { return; }
                        let t = table(a[i], *m, &df, n);
                        ctx.add(t.len() as u64 + 1, 1 << n, 1);
                        ctx.count("entries without preimage", t.iter().filter(|e| e.is_none()).count() as u64);
                        ctx.count("overwritten entries", (t.len() - t.iter().filter(|e| e.is_some()).count()) as u64);
                    }
                }));
            }
        }
    }
    #[cfg(feature = "toy")]
    toy::<Toy13>(ctx, 3, if ctx.quick() { &[0, 2, 3] } else { &[0, 1, 2, 3, 4, 5, 6, 7] });
    #[cfg(feature = "toy")]
    toy::<Toy31>(ctx, 4, if ctx.quick() { &[2] } else { &[0, 1, 2, 3] });
    type F = ark_bls12_381::Fr;
    let mut sizes: Vec<usize> = if ctx.quick() { (0..=20).collect() } else { (0..=21).collect() };
    sizes.reverse();
    let e = edge::<F>();
    let cases: Vec<(usize, usize)> = sizes.iter().flat_map(|n| (0..if *n > 13 { 1 } else { 3 }).map(move |k| (*n, k))).collect();
    if ctx.part("scalar field") {
        ctx.par(cases.len(), |i| mc::with_scratch(|sc| {
            let (n, k) = cases[i];
            // (the last set: at the shipped size both the first and the last x keep their position)
            let df = consts::<F>(DF5, if n > 16 { 4 } else { k as u64 + 1 });
            let (key, m) = if n > 16 { (scatter(62), scatter(2)) } else { ([e[11], -F::one(), F::zero()][k], [e[12], e[3], F::one()][k]) };
            let junk = vec![0xa5u8; 3 << n.min(12)];
            if mark_case::<Real>(ctx, &sc.path("space"), if k == 1 { Some(&junk) } else { None }, key, m, &df, n) {
                ctx.add((1 << n) + 1, 1 << n, 1);
            }
        }));
    }
    // a file of the right length, or nearly so, from an earlier run
    if ctx.part("leftovers of every length") {
        ctx.par(ctx.pick(11, 14), |n| mc::with_scratch(|sc| {
            let len = ((n + 1) * (1usize << n)).div_ceil(8);
            let (df, df2) = (consts::<F>(DF5, 2), consts::<F>(DF5, 3));
            let old = file_of(&table(e[11], e[12], &df2, n), n);
            let mut lens = vec![len, len.saturating_sub(1), len + 1, len / 2, 2 * len];
            lens.dedup();
            for l in lens {
                let mut o = old.clone();
                o.resize(l, 0xff);
                if !mark_case::<Real>(ctx, &sc.path("space"), Some(&o), e[12], e[11], &df, n) { return; }
                ctx.add((1 << n) + 1, 1 << n, 1);
            }
        }));
    }
    // histories: the result of a call does not depend on the call before it
    if ctx.part("every pair of calls in a row") {
        let (ks, ms) = ([e[11], fe(5)], [e[12], fe(7)]);
        let dfs = [consts::<F>(DF5, 2), consts::<F>(DF5, 3), { let mut c = consts::<F>(DF5, 2); c[9] += F::one(); c }];
        let ns = [3usize, 5];
        mc::with_scratch(|sc| ctx.pairs(ks.len() * ms.len() * dfs.len() * ns.len() * 2, |c| {
            let p = sc.path(["a", "b"][c % 2]);
            let c = c / 2;
            let (k, m, d, n) = (ks[c % 2], ms[c / 2 % 2], &dfs[c / 4 % 3], ns[c / 12]);
            mark_case::<Real>(ctx, &p, None, k, m, d, n)
        }));
    }
    let t = table::<toy_field::F13>(fe(3), fe(4), &consts(DF5, 1), 2);
    ctx.sample(json!({"field": 13, "n": 2, "key": 3, "m": 4, "table": t, "file": file_of(&t, 2)}));
}

// ---------------------------------------------------------------- S09

fn ref_response<F: PrimeField>(t: &[Option<usize>], ch: &[usize], key: F, hc: &[F], max: usize) -> (Vec<F>, Vec<usize>, F) {
    let (mut x, mut idx) = (vec![], vec![]);
    for (i, c) in ch.iter().enumerate() {
        if idx.len() == max { break; }
        if let Some(v) = t[*c] { x.push(fe::<F>(v as u64)); idx.push(i); }
    }
    let h = ref_multi(&x, key, hc, 5);
    (x, idx, h)
}

fn response_case<S: Space>(ctx: &Ctx, path: &str, file: &[u8], t: &[Option<usize>], n: usize, ch: &Vec<usize>, key: S::Fr, hc: &Vec<S::Fr>) -> bool {
    let r = at(mc::catch(|| S::response_1(path, ch, key, hc, n)));
    let want = ref_response(t, ch, key, hc, S::answers());
    let d = |g: String| json!({"build": S::NAME, "n": n, "table": if n < 5 { json!(t) } else { json!("large") }, "file": if n < 5 { json!(file) } else { json!(file.len()) }, "challenges": ch, "key": show(key), "got": g,
        "expected": {"x": shows(&want.0), "idx": want.1, "hash": show(want.2)}});
    match r {
        Err(e) => { ctx.violation("response-panics", &format!("response_1 on challenges {ch:?}: {e}"), d(e)); false }
        Ok(r) if r.0 == want.0 && r.1 == want.1 && r.2 == want.2 => true,
        Ok(r) => { ctx.violation("response", &format!("response_1 on challenges {ch:?} answers {:?} at {:?}, expected {:?} at {:?}{}", shows(&r.0), r.1, shows(&want.0), want.1, if r.2 != want.2 { " (hash differs)" } else { "" }), d(format!("x {:?} idx {:?} hash {}", shows(&r.0), r.1, show(r.2)))); false }
    }
}

pub fn s09(ctx: &Ctx) {
    ctx.bound("tables", "every table content for n = 1 (3^2... all flag and value bits) and n = 2, padding bits zero and set");
    ctx.bound("challenges", "all challenge lists up to length 3 for n = 2 (thorough: 4), up to 5 for n = 1; lists of 0..120 challenges with 50 required answers on n = 5");
    // all file contents: every entry is n value bits and a flag; unflagged entries may hold leftovers
    fn contents<S: Space>(ctx: &Ctx, n: usize, max_len: usize, step: usize, keys: &[u64]) {
        if !ctx.part(&format!("{} n {n} all tables", S::NAME)) { return; }
        let entries = 1usize << n;
        let bits = entries * (n + 1);
        let lists: Vec<Vec<usize>> = (0..=max_len).flat_map(|l| mc::all_vecs(entries, l).collect::<Vec<_>>()).collect();
        let total = 1usize << bits;
        ctx.par(total.div_ceil(step), |w| mc::with_scratch(|sc| {
            let c = w * step;
            let path = sc.path("t");
            let mut file: Vec<u8> = (0..bits.div_ceil(8)).map(|i| (c >> (8 * i)) as u8).collect();
            if c % 2 == 1 && bits % 8 != 0 { *file.last_mut().unwrap() |= 0xff << (bits % 8); }
            let t: Vec<Option<usize>> = (0..entries).map(|y| { let e = c >> (y * (n + 1)) & ((1 << (n + 1)) - 1); if e >> n == 1 { Some(e & ((1 << n) - 1)) } else { None } }).collect();
            std::fs::write(&path, &file).unwrap();
            for key in keys {
                let hc = consts::<S::Fr>(H5, key + 2);
                for ch in &lists {
                    if !response_case::<S>(ctx, &path, &file, &t, n, ch, fe(*key), &hc) { return; }
                    ctx.add(1, ch.len() as u64, 1);
                }
            }
            if std::fs::read(&path).unwrap_or_default() != file { ctx.violation("file-changed", "response_1 changed the space file", json!({"before": file, "after": std::fs::read(&path).unwrap_or_default()})); }
        }));
    }
    #[cfg(feature = "toy")]
    contents::<Toy13>(ctx, 1, 5, 1, &[0, 3, 12]);
    #[cfg(feature = "toy")]
    contents::<Toy13>(ctx, 2, ctx.pick(3, 4), 1, if ctx.quick() { &[5] } else { &[0, 5, 9] });
    #[cfg(feature = "toy")]
    contents::<Toy31>(ctx, 2, ctx.pick(2, 3), 1, &[7]);
    contents::<Tiny>(ctx, 1, 3, 1, &[1, 77]);
    // shipped answer count: long lists on a table with known gaps; all sizes up to 8 entry layouts
    if ctx.part("shipped answer count") {
        let e = edge::<ark_bls12_381::Fr>();
        let sizes: Vec<usize> = (1..=ctx.pick(9, 13)).collect();
        ctx.par(sizes.len(), |i| mc::with_scratch(|sc| {
            let n = sizes[i];
            let path = sc.path("t");
            let hc = consts(H5, 3);
            // tables: all flagged, gaps by residue, none flagged; values scattered
            for gap in [1usize, 2, 3, 5, 1 << n, usize::MAX] {
                let t: Vec<Option<usize>> = (0..1usize << n).map(|y| if gap == 1 || (gap != usize::MAX && y % gap != 0) { Some(mc::mix(y as u64) as usize & ((1 << n) - 1)) } else { None }).collect();
                let file = file_of(&t, n);
                std::fs::write(&path, &file).unwrap();
                let mut lens: Vec<usize> = (0..=ctx.pick(8, 120)).collect();
                lens.extend([48, 49, 50, 51, 52, 99, 100, 101, 150]);
                for len in lens {
                    for pat in 0..3u64 {
                        let ch: Vec<usize> = (0..len).map(|k| match pat { 0 => k % (1 << n), 1 => ((1 << n) - 1) - k % (1 << n), _ => mc::mix(k as u64 + 1000 * pat) as usize % (1 << n) }).collect();
                        if !response_case::<Real>(ctx, &path, &file, &t, n, &ch, e[12], &hc) { return; }
                        ctx.add(1, len as u64, 1);
                    }
                }
                if std::fs::read(&path).unwrap_or_default() != file { ctx.violation("file-changed", "response_1 changed the space file", json!({"n": n})); }
            }
        }));
    }
    // large tables: positions around powers of two and at both ends
    if ctx.part("large tables") {
        let hc = consts(H5, 3);
        let sizes: Vec<usize> = ctx.pick(vec![20usize, 18, 17, 16, 15, 13, 12, 11], (11..=22).rev().collect());
        ctx.par(sizes.len(), |i| mc::with_scratch(|sc| {
            let n = sizes[i];
            let path = sc.path("t");
            let t: Vec<Option<usize>> = (0..1usize << n).map(|y| if mc::mix(y as u64 * 3 + n as u64) % 3 != 0 { Some(mc::mix(y as u64) as usize & ((1 << n) - 1)) } else { None }).collect();
            let file = file_of(&t, n);
            std::fs::write(&path, &file).unwrap();
            let mut at: Vec<usize> = (0..20).chain((1 << n) - 20..1 << n).chain((4..n).flat_map(|b| (1usize << b) - 3..(1 << b) + 3)).chain((0..40).map(|k| mc::mix(k) as usize & ((1 << n) - 1))).collect();
            at.sort();
            at.dedup();
            // one entry each of the bytes around 2^16 as well
            at.extend((65_530usize..65_542).map(|b| b * 8 / (n + 1)).filter(|y| *y < 1 << n));
            for ch in at.chunks(7) {
                if !response_case::<Real>(ctx, &path, &file, &t, n, &ch.to_vec(), fe(7), &hc) { return; }
                ctx.add(1, ch.len() as u64, 1);
            }
        }));
    }
    // every position on its own, layouts that cross byte boundaries in every way
    if ctx.part("every position") {
        let hc = consts(H5, 3);
        let max = ctx.pick(10, 12);
        ctx.par(max, |i| mc::with_scratch(|sc| {
            let n = i + 1;
            let path = sc.path("t");
            let t: Vec<Option<usize>> = (0..1usize << n).map(|y| if mc::mix(y as u64 * 3 + n as u64) % 3 != 0 { Some(mc::mix(y as u64) as usize & ((1 << n) - 1)) } else { None }).collect();
            let file = file_of(&t, n);
            std::fs::write(&path, &file).unwrap();
            for y in 0..1usize << n {
                if !response_case::<Real>(ctx, &path, &file, &t, n, &vec![y], fe(7), &hc) { return; }
                ctx.add(1, 1, 1);
            }
        }));
    }
    if ctx.part("every pair of calls in a row") {
        let hcs = [consts::<ark_bls12_381::Fr>(H5, 3), consts(H5, 4)];
        let tabs: Vec<Vec<(Vec<Option<usize>>, Vec<u8>)>> = [3usize, 4].iter().map(|n| (0..3u64).map(|s| {
            let t: Vec<Option<usize>> = (0..1usize << n).map(|y| if mc::mix(y as u64 * 3 + s) % 3 != 0 { Some(mc::mix(y as u64 + 77 * s) as usize & ((1 << n) - 1)) } else { None }).collect();
            let f = file_of(&t, *n);
            (t, f)
        }).collect()).collect();
        let chs = [vec![0usize, 3, 5, 7], vec![7, 5, 3, 0, 1, 2]];
        mc::with_scratch(|sc| ctx.pairs(2 * 2 * 3 * 2 * 2, |c| {
            let p = sc.path("t");
            let (key, hc, (t, f), ch, n) = (fe([7u64, 9][c % 2]), &hcs[c / 2 % 2], &tabs[c / 24][c / 4 % 3], &chs[c / 12 % 2], [3usize, 4][c / 24]);
            std::fs::write(&p, f).unwrap();
            response_case::<Real>(ctx, &p, f, t, n, ch, key, hc)
        }));
    }
    ctx.sample(json!({"n": 1, "table": [null, 1], "challenges": [0, 1, 1, 0], "answers": {"x": [1, 1], "idx": [1, 2]}}));
}

// ---------------------------------------------------------------- S06

/// one honest flow; returns whether at least the required number of challenges was answerable
fn flow<S: Space>(ctx: &Ctx, path: &str, key: S::Fr, m: S::Fr, df: &Vec<S::Fr>, hc: &Vec<S::Fr>, pk: &S::Pk, shape: &Synth<S::Fr>, n: usize, ch: &Vec<usize>, prove: bool) -> bool {
    let d = |g: String| json!({"build": S::NAME, "n": n, "key": show(key), "m": show(m), "df_constants": shows(df), "hash_constants": shows(hc), "challenges": ch, "failure": g});
    let (x, idx, h) = match at(mc::catch(|| S::response_1(path, ch, key, hc, n))) { Ok(r) => r, Err(e) => { ctx.violation("response-panics", &format!("first response: {e}"), d(e)); return false; } };
    let t = table(key, m, df, n);
    let answerable = ch.iter().filter(|c| t[**c].is_some()).count();
    if answerable < S::answers() { return false; }
    if x.len() != S::answers() || idx.len() != S::answers() {
        ctx.violation("answer-count", &format!("{} answers to {} answerable challenges", x.len(), answerable), d(format!("{:?}", idx)));
        return false;
    }
    let want = { let mut w = vec![key, m]; w.extend(idx.iter().map(|i| fe::<S::Fr>(ch[*i] as u64))); w.push(ref_multi(&x, key, hc, 5)); w };
    let xo: Vec<_> = x.iter().map(|x| Some(*x)).collect();
    let yo: Vec<_> = idx.iter().map(|i| Some(fe::<S::Fr>(ch[*i] as u64))).collect();
    match at(mc::catch(|| S::synth(Some(key), &xo, Some(m), df, &yo, Some(h), hc, false))) {
        Ok(Ok(s)) => {
            ctx.add(1, s.m.num_constraints as u64, 0);
            if !s.satisfied { ctx.violation("honest-unsatisfied", "the honest witness does not satisfy the circuit", d("unsatisfied".into())); return false; }
            if publics(&s) != want { ctx.violation("public-inputs", &format!("public inputs {:?}, expected key, m, positions, hash {:?}", shows(&publics(&s)), shows(&want)), d("public inputs".into())); return false; }
            if !same_shape(&s.m, &shape.m) { ctx.violation("setup-shape", "the circuit at key generation differs from the one at proving", d("shape".into())); return false; }
        }
        Ok(Err(e)) => { ctx.violation("honest-synthesis", &e, d(e.clone())); return false; }
        Err(e) => { ctx.violation("honest-panics", &e, d(e.clone())); return false; }
    }
    if prove {
        let r = at(mc::catch(|| S::response_2(pk.clone(), key, &x, m, df, ch, &idx, h, hc)));
        let (pvk, proof) = match r { Ok(r) => r, Err(e) => { ctx.violation("prove-panics", &format!("second response: {e}"), d(e)); return false; } };
        if let Err(e) = at(mc::catch(|| S::verify(pvk, proof, key, m, ch, &idx, h))) { ctx.violation("honest-rejected", &format!("the honest proof is rejected: {e}"), d(e)); return false; }
        ctx.add(0, 6, 1);
    }
    true
}

fn shape_of<S: Space>(ctx: &Ctx, df: &[S::Fr], hc: &[S::Fr]) -> Option<Synth<S::Fr>> {
    let none = vec![None; S::answers()];
    match at(mc::catch(|| S::synth(None, &none, None, df, &none, None, hc, true))) {
        Ok(Ok(s)) => Some(s),
        Ok(Err(e)) | Err(e) => { ctx.violation("setup", &format!("key generation: {e}"), json!({"build": S::NAME})); None }
    }
}

pub fn s06(ctx: &Ctx) {
    ctx.bound("toy fields", "whole flow for all keys and m over 13 and 31 elements, all challenge lists of length 2 (13: also 3) over 2-bit positions with at least two answerable, ideal proof system");
    ctx.bound("scalar field", "2-bit positions with Groth16 proofs; shipped sizes: witness synthesis for 50 answers, one complete run (thorough: three)");
    #[cfg(feature = "toy")]
    fn toy<S: Space>(ctx: &Ctx, salts: &[u64], lens: &[usize]) {
        let a = all::<S::Fr>();
        let n = S::n();
        for s in salts {
            if !ctx.part(&format!("{} constants {s}", S::NAME)) { continue; }
            let (df, hc) = (consts::<S::Fr>(DF5, *s), consts::<S::Fr>(H5, s + 50));
            let Some(shape) = shape_of::<S>(ctx, &df, &hc) else { return };
            let pk = match at(mc::catch(|| S::keys(&df, &hc))) { Ok(k) => k, Err(e) => { ctx.violation("setup", &format!("key generation: {e}"), json!({"build": S::NAME})); return; } };
            let lists: Vec<Vec<usize>> = lens.iter().flat_map(|l| mc::all_vecs(1 << n, *l).collect::<Vec<_>>()).collect();
            ctx.par(a.len(), |i| mc::with_scratch(|sc| {
                let path = sc.path("space");
                for m in &a {
                    if let Err(e) = at(mc::catch(|| { S::prepare(&path, n).unwrap(); S::mark(&path, a[i], *m, &df, n) })) { ctx.violation("mark-panics", &e, json!({"key": show(a[i]), "m": show(*m), "constants": s})); return; }
                    for ch in &lists {
                        if flow::<S>(ctx, &path, a[i], *m, &df, &hc, &pk, &shape, n, ch, true) { ctx.count("accepted flows", 1); } else { ctx.count("flows with too few answerable challenges", 1); }
                        if ctx.stopped() { return; }
                    }
                }
            }));
        }
    }
    #[cfg(feature = "toy")]
    toy::<Toy13>(ctx, if ctx.quick() { &[1, 2] } else { &[0, 1, 2, 3, 4, 5] }, ctx.pick(&[2], &[2, 3]));
    #[cfg(feature = "toy")]
    toy::<Toy31>(ctx, if ctx.quick() { &[3] } else { &[0, 2, 3, 4] }, &[2]);
    type F = ark_bls12_381::Fr;
    let e = edge::<F>();
    if ctx.part("scalar field, small sizes, Groth16") {
        let n = Tiny::n();
        let (df, hc) = (consts::<F>(DF5, 2), consts::<F>(H5, 3));
        if let Some(shape) = shape_of::<Tiny>(ctx, &df, &hc) {
            match at(mc::catch(|| Tiny::keys(&df, &hc))) {
                Err(er) => ctx.violation("setup", &format!("key generation: {er}"), json!({})),
                Ok(pk) => {
                    let keys: Vec<(F, F)> = (0..ctx.pick(8, 32u64)).map(|i| (if i < e.len() as u64 { e[i as usize] } else { scatter(i) }, scatter(100 + i))).collect();
                    ctx.par(keys.len(), |i| mc::with_scratch(|sc| {
                        let path = sc.path("space");
                        let (key, m) = keys[i];
                        if let Err(er) = at(mc::catch(|| { Tiny::prepare(&path, n).unwrap(); Tiny::mark(&path, key, m, &df, n) })) { ctx.violation("mark-panics", &er, json!({"key": show(key)})); return; }
                        let mut proved = 0;
                        for ch in mc::all_vecs(1 << n, 3) {
                            if flow::<Tiny>(ctx, &path, key, m, &df, &hc, &pk, &shape, n, &ch, proved < ctx.pick(2, 12)) { proved += 1; ctx.count("accepted flows", 1); }
                            if ctx.stopped() { return; }
                        }
                    }));
                }
            }
        }
    }
    #[cfg(feature = "toy")]
    if ctx.part("every pair of complete flows in a row") {
        type T = Toy31;
        let n = T::n();
        type G = <T as Space>::Fr;
        let dfs = [consts::<G>(DF5, 3), { let mut c = consts::<G>(DF5, 3); *c.last_mut().unwrap() += G::one(); c }];
        let hcs = [consts::<G>(H5, 4), { let mut c = consts::<G>(H5, 4); *c.last_mut().unwrap() += G::one(); c }];
        let (ks, ms) = ([fe::<G>(3), fe(17)], [fe::<G>(4), fe(20)]);
        mc::with_scratch(|sc| ctx.pairs(2 * 2 * 2 * 2 * 2, |c| {
            let (key, m, df, hc) = (ks[c % 2], ms[c / 2 % 2], &dfs[c / 4 % 2], &hcs[c / 8 % 2]);
            let ch = if c / 16 == 0 { vec![0usize, 1, 2, 3] } else { vec![3, 2, 1, 0] };
            let path = sc.path("space");
            let Some(shape) = shape_of::<T>(ctx, df, hc) else { return false };
            let pk = match at(mc::catch(|| { T::prepare(&path, n).unwrap(); T::mark(&path, key, m, df, n); T::keys(df, hc) })) { Ok(k) => k, Err(e) => { ctx.violation("setup", &format!("a flow after another one: {e}"), json!({"case": c})); return false; } };
            if flow::<T>(ctx, &path, key, m, df, hc, &pk, &shape, n, &ch, true) { ctx.count("accepted flows", 1); }
            !ctx.violated()
        }));
    }
    if ctx.part("shipped sizes, 50 answers, synthesis") {
        let cases: Vec<u64> = (0..ctx.pick(4, 16)).collect();
        let n = Real::n();
        ctx.par(cases.len(), |i| {
            let s = cases[i];
            let (df, hc) = (consts::<F>(DF5, s), consts::<F>(H5, s + 1));
            let Some(shape) = shape_of::<Real>(ctx, &df, &hc) else { return };
            let (key, m) = (scatter::<F>(s + 5), scatter::<F>(s + 6));
            // answers as a table would hold them: x below 2^n at its own position
            let x: Vec<F> = (0..Real::answers() as u64).map(|j| fe(mc::mix(j + s) & ((1 << n) - 1))).collect();
            let yn: Vec<F> = x.iter().map(|x| fe(low_bits(ref_df(key + x, m, &df, 5), n) as u64)).collect();
            let h = ref_multi(&x, key, &hc, 5);
            let xo: Vec<_> = x.iter().map(|x| Some(*x)).collect();
            let yo: Vec<_> = yn.iter().map(|x| Some(*x)).collect();
            let mut want = vec![key, m]; want.extend(&yn); want.push(h);
            match at(mc::catch(|| Real::synth(Some(key), &xo, Some(m), &df, &yo, Some(h), &hc, false))) {
                Ok(Ok(sy)) => {
                    ctx.add(1, sy.m.num_constraints as u64, 1);
                    if !sy.satisfied || publics(&sy) != want || !same_shape(&sy.m, &shape.m) {
                        ctx.violation("honest-unsatisfied", &format!("shipped sizes: honest witness satisfied={} public inputs as expected={} same circuit as at key generation={}", sy.satisfied, publics(&sy) == want, same_shape(&sy.m, &shape.m)), json!({"constants": s, "key": show(key), "m": show(m), "x": shows(&x)}));
                    }
                }
                Ok(Err(er)) | Err(er) => ctx.violation("honest-synthesis", &er, json!({"constants": s})),
            }
        });
    }
    if ctx.part("shipped sizes, complete run") {
        ctx.par(ctx.pick(1, 3), |i| {
            let sc = mc::Scratch::new();
            let path = sc.path("space");
            let rep = sc.path("report");
            let stop = std::sync::atomic::AtomicBool::new(false);
            // a complete run takes longer than the watchdog allows for single operations
            std::thread::scope(|t| {
                t.spawn(|| { let s = std::time::Instant::now(); while !stop.load(std::sync::atomic::Ordering::Relaxed) && s.elapsed().as_secs() < 400 { ctx.tick(); std::thread::sleep(std::time::Duration::from_millis(200)); } });
                let r = at(mc::catch(|| {
                    let (df, hc, key, m) = if i == 0 { space_real::proof_of_space::pospace::prepare_params() } else { (consts::<F>(DF5, i as u64), consts::<F>(H5, 4), scatter(i as u64), scatter(9)) };
                    let mut f = std::fs::File::create(&rep).unwrap();
                    space_real::proof_of_space::pospace::pospace(&path, df, hc, key, m, &mut f);
                }));
                stop.store(true, std::sync::atomic::Ordering::Relaxed);
                if let Err(er) = r { ctx.violation("complete-run", &format!("the complete honest run fails: {er}"), json!({"failure": er})); }
                else { ctx.add(0, 7, 1); ctx.count("complete runs", 1); }
            });
        });
    }
    ctx.sample(json!({"field": 13, "flow": ["prepare_space", "mark_space", "response_1", "construct_circuit", "response_2", "verify"], "challenges": [0, 3], "outcome": "accepted"}));
    ctx.assume("over the toy fields an ideal proof system stands in for Groth16; Groth16 itself is exercised over the scalar field");
    ctx.assume("the pospace run presumes that 50 of 100 challenges are answerable (probability of the opposite below 1e-6)");
}

// ---------------------------------------------------------------- S07

fn accepted<S: Space>(pvk: &S::Pvk, proof: &S::Proof, key: S::Fr, m: S::Fr, ch: &Vec<usize>, idx: &Vec<usize>, h: S::Fr) -> bool {
    mc::catch(|| S::verify(pvk.clone(), proof.clone(), key, m, ch, idx, h)).is_ok()
}

/// a circuit that any public values satisfy
#[derive(Clone)]
struct Loose<F: PrimeField>(Vec<F>);
impl<F: PrimeField> ark_relations::r1cs::ConstraintSynthesizer<F> for Loose<F> {
    fn generate_constraints(self, cs: ark_relations::r1cs::ConstraintSystemRef<F>) -> Result<(), ark_relations::r1cs::SynthesisError> {
        use ark_relations::{lc, r1cs::Variable};
        for v in self.0 {
            let i = cs.new_input_variable(|| Ok(v))?;
            let w = cs.new_witness_variable(|| Ok(v))?;
            cs.enforce_constraint(lc!() + i, lc!() + Variable::One, lc!() + w)?;
        }
        Ok(())
    }
}

/// The shipped number of answers: a proof that is valid for exactly one list of public values (of a circuit
/// without further constraints), offered for index lists that are off in one place and for other values.
fn s07_many(ctx: &Ctx) {
    use ark_bls12_381::{Bls12_381, Fr};
    let k = Real::answers();
    let (key, m, h) = (scatter::<Fr>(1), scatter::<Fr>(2), scatter::<Fr>(3));
    // all challenges the same, then all different: the public values say nothing, or everything, about the indices
    for same in [true, false] {
        let total = 2 * k;
        let ch: Vec<usize> = (0..total).map(|i| if same { 12345 } else { 1000 + 7 * i }).collect();
        let good: Vec<Vec<usize>> = vec![(0..k).collect(), (k..total).collect(), (0..k).map(|i| 2 * i).collect(), (0..k).map(|i| 2 * i + 1).collect()];
        ctx.par(good.len(), |g| {
            let idx = &good[g];
            let home: Vec<Fr> = [key, m].into_iter().chain(idx.iter().map(|i| fe::<Fr>(ch[*i] as u64))).chain([h]).collect();
            let mut rng = mc_rand::rngs::mock::StepRng::new(7 + g as u64, 0x9e37_79b9_7f4a_7c15);
            let c = Loose(home);
            let pk = match ark_groth16::generate_random_parameters::<Bls12_381, _, _>(c.clone(), &mut rng) { Ok(p) => p, Err(_) => return ctx.cap("no keys for the loose circuit") };
            let Ok(proof) = ark_groth16::create_random_proof(c, &pk, &mut rng) else { return ctx.cap("no proof of the loose circuit") };
            let pvk = ark_groth16::prepare_verifying_key(&pk.vk);
            let mut cases: Vec<(String, Fr, Fr, Vec<usize>, Vec<usize>, Fr)> = vec![];
            if !accepted::<Real>(&pvk, &proof, key, m, &ch, idx, h) { return ctx.cap("the public values of the verifier are laid out differently"); }
            for i in 0..k - 1 {
                let mut d = idx.clone(); d[i + 1] = d[i]; cases.push((format!("answer {} named twice", i), key, m, ch.clone(), d, h));
                let mut d = idx.clone(); d.swap(i, i + 1); cases.push((format!("answers {i} and {} exchanged", i + 1), key, m, ch.clone(), d, h));
                let mut d = idx.clone(); d[i] = idx[k - 1]; cases.push((format!("the last index at {i}"), key, m, ch.clone(), d, h));
                let mut d = idx.clone(); d[i + 1] = idx[0]; cases.push((format!("the first index at {}", i + 1), key, m, ch.clone(), d, h));
            }
            for i in 0..k {
                let mut d = idx.clone(); d[i] = total; cases.push((format!("index {i} outside the list"), key, m, ch.clone(), d, h));
                let mut d = idx.clone(); d.remove(i); cases.push((format!("index {i} left out"), key, m, ch.clone(), d, h));
                for b in [0, 1, 19, 20, 32] { let mut c = ch.clone(); c[idx[i]] ^= 1 << b; cases.push((format!("challenge of answer {i} changed in bit {b}"), key, m, c, idx.clone(), h)); }
            }
            let mut d = idx.clone(); d.reverse(); cases.push(("reversed".into(), key, m, ch.clone(), d, h));
            let mut d = idx.clone(); d.rotate_left(1); cases.push(("rotated".into(), key, m, ch.clone(), d, h));
            cases.push(("key changed".into(), key + Fr::one(), m, ch.clone(), idx.clone(), h));
            cases.push(("m changed".into(), key, m + Fr::one(), ch.clone(), idx.clone(), h));
            cases.push(("hash changed".into(), key, m, ch.clone(), idx.clone(), h + Fr::one()));
            cases.push(("all indices the same".into(), key, m, ch.clone(), vec![idx[0]; k], h));
            ctx.par(cases.len(), |i| {
                let (w, key, m, c, d, h) = &cases[i];
                ctx.add(1, 1, 1);
                if accepted::<Real>(&pvk, &proof, *key, *m, c, d, *h) { ctx.violation("accepts-invalid", &format!("verify accepts with {k} answers: {w}"), json!({"case": w, "indices": d})); }
            });
        });
    }
}

pub fn s07(ctx: &Ctx) {
    ctx.bound("toy field", "all statements (key, m, hash over 13 elements; index lists of length 0..3 over a list of 4 challenges incl. out of range; other challenge lists) against valid, unsatisfied, tampered and foreign proofs");
    ctx.bound("Groth16", "every component of an accepted statement changed on its own, proof elements exchanged, foreign keys; with the shipped number of answers each index repeated, exchanged, left out or out of range and each challenge changed");
    #[cfg(feature = "toy")]
    s07_ideal(ctx);
    let n = Tiny::n();
    if ctx.part("Groth16") {
        use ark_bls12_381::Fr;
        let e = edge::<Fr>();
        let (df, hc) = (consts::<Fr>(DF5, 2), consts::<Fr>(H5, 3));
        let (key, m) = (e[11], e[12]);
        let t = table(key, m, &df, n);
        let good: Vec<usize> = (0..1 << n).filter(|y| t[*y].is_some()).collect();
        let bad: Vec<usize> = (0..1 << n).filter(|y| t[*y].is_none()).collect();
        let mut ch = vec![good[0], *good.last().unwrap(), good[0]];
        ch.extend(&bad);
        let idx = vec![0usize, 1];
        let x: Vec<Fr> = idx.iter().map(|i| fe(t[ch[*i]].unwrap() as u64)).collect();
        let h = ref_multi(&x, key, &hc, 5);
        let made = at(mc::catch(|| {
            let pk = Tiny::keys(&df, &hc);
            let pk2 = Tiny::keys(&df, &hc);
            let a = Tiny::response_2(pk.clone(), key, &x, m, &df, &ch, &idx, h, &hc);
            let b = Tiny::response_2(pk2, key, &x, m, &df, &ch, &idx, h, &hc);
            (a, b, pk)
        }));
        let ((pvk, proof), (pvk2, proof2), pk) = match made { Ok(r) => r, Err(_) => { ctx.cap("no honest Groth16 proof (see S06)"); return; } };
        if !accepted::<Tiny>(&pvk, &proof, key, m, &ch, &idx, h) { ctx.violation("rejects-valid", "a valid Groth16 proof is rejected", json!({"challenges": ch, "indices": idx})); return; }
        let one = Fr::one();
        let mut cases: Vec<(String, _, _, Fr, Fr, Vec<usize>, Vec<usize>, Fr)> = vec![];
        for (i, v) in [one, -one, fe(2), e[8]].into_iter().enumerate() {
            cases.push((format!("key changed {i}"), pvk.clone(), proof.clone(), key + v, m, ch.clone(), idx.clone(), h));
            cases.push((format!("m changed {i}"), pvk.clone(), proof.clone(), key, m + v, ch.clone(), idx.clone(), h));
            cases.push((format!("hash changed {i}"), pvk.clone(), proof.clone(), key, m, ch.clone(), idx.clone(), h + v));
        }
        cases.push(("key and m exchanged".into(), pvk.clone(), proof.clone(), m, key, ch.clone(), idx.clone(), h));
        for ix in (0..4).flat_map(|l| mc::all_vecs(ch.len() + 1, l).collect::<Vec<_>>()) {
            let inc = ix.windows(2).all(|w| w[0] < w[1]) && ix.iter().all(|i| *i < ch.len());
            if inc && ix.iter().map(|i| ch[*i]).collect::<Vec<_>>() == idx.iter().map(|i| ch[*i]).collect::<Vec<_>>() { continue; }
            cases.push((format!("indices {ix:?}"), pvk.clone(), proof.clone(), key, m, ch.clone(), ix, h));
        }
        for c in mc::all_vecs(1 << n, 2) { if c != ch[..2] { let mut c2 = ch.clone(); c2[0] = c[0]; c2[1] = c[1]; cases.push((format!("challenges {c2:?}"), pvk.clone(), proof.clone(), key, m, c2, idx.clone(), h)); } }
        // positions that agree with the proven ones only in their low bits
        for k in [n, 8, 16, 31, 32, 33, 48, 63] { for i in 0..2 { let mut c2 = ch.clone(); c2[i] += 1usize << k; cases.push((format!("challenge {i} with bit {k}"), pvk.clone(), proof.clone(), key, m, c2, idx.clone(), h)); } }
        // long challenge lists: the answered challenges anywhere among others
        {
            let other = (0..1usize << n).find(|y| *y != ch[0] && *y != ch[1]).unwrap();
            let at = [0usize, 1, 2, 7, 8, 63, 64, 65, 127, 128, 129, 255, 256, 257, 298, 299, 1023, 1024, 1025, 65_535, 65_536, 65_537, 69_999];
            let mut pairs: Vec<(usize, usize)> = at.windows(2).map(|w| (w[0], w[1])).collect();
            pairs.extend(at.iter().enumerate().flat_map(|(k, a)| at[k + 1..].iter().map(move |b| (*a, *b))).filter(|(a, b)| (a + b) % ctx.pick(5, 1) == 0));
            ctx.par(pairs.len(), |k| {
                let (i, j) = pairs[k];
                let mut c = vec![other; if j < 300 { 300 } else { 70_000 }];
                c[i] = ch[0];
                c[j] = ch[1];
                ctx.add(1, 1, 1);
                if !accepted::<Tiny>(&pvk, &proof, key, m, &c, &vec![i, j], h) { ctx.violation("rejects-valid", "a valid proof is rejected", json!({"challenges": c.len(), "indices": [i, j]})); }
                for x in [(i + 1, j), (i, j - 1), (i.wrapping_sub(1), j), (i, j + 1)] {
                    if x.0 >= x.1 || x == (i, j) || x.1 >= c.len() { continue; }
                    ctx.add(1, 1, 1);
                    if accepted::<Tiny>(&pvk, &proof, key, m, &c, &vec![x.0, x.1], h) { ctx.violation("accepts-invalid", "verify accepts a proof for other challenges than the named ones", json!({"challenges": c.len(), "answered": [i, j], "named": [x.0, x.1]})); }
                }
            });
        }
        let swaps: Vec<(&str, <Tiny as Space>::Proof)> = vec![
            ("A of another proof", { let mut p = proof.clone(); p.a = proof2.a; p }),
            ("B of another proof", { let mut p = proof.clone(); p.b = proof2.b; p }),
            ("C of another proof", { let mut p = proof.clone(); p.c = proof2.c; p }),
            ("A and C exchanged", { let mut p = proof.clone(); std::mem::swap(&mut p.a, &mut p.c); p }),
            ("A negated", { let mut p = proof.clone(); p.a = -p.a; p }),
            ("B negated", { let mut p = proof.clone(); p.b = -p.b; p }),
            ("C negated", { let mut p = proof.clone(); p.c = -p.c; p }),
            ("zero elements", ark_groth16::Proof::default()),
        ];
        for (w, p) in swaps { cases.push((w.into(), pvk.clone(), p, key, m, ch.clone(), idx.clone(), h)); }
        cases.push(("foreign key".into(), pvk2.clone(), proof.clone(), key, m, ch.clone(), idx.clone(), h));
        cases.push(("foreign proof".into(), pvk.clone(), proof2.clone(), key, m, ch.clone(), idx.clone(), h));
        // the prover code run on wrong answers
        for dx in [one, -one, fe::<Fr>(4)] {
            let x2 = vec![x[0] + dx, x[1]];
            if low_bits(ref_df(key + x2[0], m, &df, 5), n) == ch[0] { continue; }
            let h2 = ref_multi(&x2, key, &hc, 5);
            if let Ok((v, p)) = mc::catch(|| Tiny::response_2(pk.clone(), key, &x2, m, &df, &ch, &idx, h2, &hc)) { cases.push(("wrong answer".into(), v, p, key, m, ch.clone(), idx.clone(), h2)); }
        }
        for b in &bad {
            let c2 = vec![ch[0], *b]; let x2 = vec![x[0], fe(0)]; let h2 = ref_multi(&x2, key, &hc, 5);
            if let Ok((v, p)) = mc::catch(|| Tiny::response_2(pk.clone(), key, &x2, m, &df, &c2, &idx, h2, &hc)) { cases.push(("unanswerable challenge".into(), v, p, key, m, c2, idx.clone(), h2)); }
        }
        ctx.count("Groth16 statements", cases.len() as u64);
        ctx.par(cases.len(), |i| {
            let (w, v, p, k, mm, c, ix, hh) = &cases[i];
            ctx.add(1, 1, 1);
            if accepted::<Tiny>(v, p, *k, *mm, c, ix, *hh) { ctx.violation("accepts-invalid", &format!("verify accepts: {w}"), json!({"case": w, "challenges": c, "indices": ix})); }
        });
    }
    if ctx.part("shipped number of answers") { s07_many(ctx); }
    ctx.assume("Groth16 itself (ark-groth16) is trusted to be sound; the check covers how the verifier uses it");
    ctx.assume("rejection means a panic, as the interface has no return value");
}

// ---------------------------------------------------------------- S11

pub fn s11(ctx: &Ctx) {
    ctx.bound("outcomes", "tree of all draws over words that repeat a 2-bit (or position-wide) pattern, breadth first, 150 thousand nodes per request (thorough: 1.5 million), requests of up to 6 position bits (thorough: 8); shapes for counts 0..200 and widths 0..63");
    let pats = [0u64, 0x5555555555555555, 0xAAAAAAAAAAAAAAAA, u64::MAX];
    let tail: Vec<u64> = vec![];
    // shape for every count and width
    if ctx.part("shape") {
        let counts: Vec<usize> = (0..=ctx.pick(40, 200)).chain([99, 100, 101, 1000]).collect();
        ctx.par(counts.len(), |i| {
            for end in 0..=63usize {
                for s in [&pats[0..1], &pats[3..4], &pats[1..2], &tail[..]] {
                    let (r, _) = mc_rand::with_script(&if s.len() == 1 { vec![s[0]; 64] } else { vec![] }, &tail, || at(mc::catch(|| Real::challenges(counts[i], end))));
                    ctx.add(1, counts[i] as u64, 1);
                    match r {
                        Err(e) => { ctx.violation("panics", &format!("create_challenges({}, {end}): {e}", counts[i]), json!({"n": counts[i], "end": end})); return; }
                        Ok(c) if c.len() != counts[i] => { ctx.violation("count", &format!("create_challenges({}, {end}) returned {} challenges", counts[i], c.len()), json!({"n": counts[i], "end": end})); return; }
                        Ok(c) => if let Some(b) = c.iter().find(|v| end < 64 && **v >> end != 0) { ctx.violation("range", &format!("create_challenges({}, {end}) returned {b}", counts[i]), json!({"n": counts[i], "end": end, "value": b})); return; },
                    }
                }
            }
        });
    }
    // coverage: every list is reached by some outcome, and bits are balanced over all outcomes
    let combos: Vec<(usize, usize)> = if ctx.quick() { vec![(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (1, 4), (4, 1), (2, 3), (3, 2), (5, 1)] } else { vec![(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (1, 4), (4, 1), (1, 5), (5, 1), (2, 3), (3, 2), (1, 6), (6, 1), (2, 4), (4, 2), (7, 1)] };
    for (n, end) in &combos { coverage(ctx, *n, *end); }
    witnesses(ctx);
    ctx.assume("the random source is the thread generator of the rand crate, uniform over its words; two leading and the repeated bits of each word stand for the word");
}

/// Words in which every `w` neighbouring bits repeat: leading and trailing bits take every value.
fn alphabet(w: usize) -> Vec<u64> { (0..1u64 << w).map(|v| (0..64).map(|b| (v >> (b % w) & 1) << b).sum()).collect() }

/// Breadth-first tree of draws over an alphabet of equally likely words: lists with their share of the
/// outcomes, and the share not explored within the budget.
fn draw_tree(ctx: &Ctx, n: usize, end: usize, alpha: &[u64], budget: usize) -> Option<(std::collections::BTreeMap<Vec<usize>, f64>, f64)> {
    let tail: Vec<u64> = vec![];
    let mut open: Vec<Vec<u64>> = vec![vec![]];
    let mut got = std::collections::BTreeMap::new();
    let mut nodes = 0;
    let mut share = 1.0f64;
    while !open.is_empty() && nodes + open.len() <= budget {
        let mut next = vec![];
        for s in &open {
            let (r, used) = mc_rand::with_script(s, &tail, || mc::catch(|| Real::challenges(n, end)));
            nodes += 1;
            ctx.add(1, used as u64, 0);
            let r = r.ok()?;
            if used <= s.len() { *got.entry(r).or_insert(0.0) += share; ctx.add(0, 0, 1); }
            else { for a in alpha { let mut t = s.clone(); t.push(*a); next.push(t); } }
        }
        share /= alpha.len() as f64;
        open = next;
    }
    let rest = open.len() as f64 * share;
    Some((got, rest))
}

fn coverage(ctx: &Ctx, n: usize, end: usize) {
    if !ctx.part(&format!("coverage {n} challenges of {end} bits")) { return; }
    let tail: Vec<u64> = vec![];
    // is the random source drawn from at all?
    let (_, used) = mc_rand::with_script(&[], &tail, || mc::catch(|| Real::challenges(n, end)));
    if used == 0 {
        let outs: std::collections::HashSet<Vec<usize>> = (0..200).filter_map(|_| mc::catch(|| Real::challenges(n, end)).ok()).collect();
        if outs.len() <= 1 { ctx.violation("constant", &format!("create_challenges({n}, {end}) always returns the same challenges"), json!({"n": n, "end": end})); }
        else { ctx.cap("random source not scripted"); }
        return;
    }
    let budget = ctx.pick(150_000, 1_500_000);
    let mut alphas = vec![alphabet(2)];
    if end > 2 { alphas.push(alphabet(end)); }
    // one word may also serve the whole list
    if n > 1 && n * end > 2 { alphas.push(alphabet(n * end)); }
    let trees: Vec<_> = alphas.iter().filter_map(|a| draw_tree(ctx, n, end, a, budget)).collect();
    if trees.is_empty() { return; }
    // The words of an alphabet are special: what they show is reported only if words of no special
    // shape show it as well (a way of drawing that looks at other bits of a word is not a violation).
    let plain: Vec<Vec<usize>> = (0..(400u64 << (n * end)).max(20_000)).filter_map(|k| {
        let words: Vec<u64> = (0..8 * (n * end) as u64 + 16).map(|j| mc::mix((k << 24) + j + 7)).collect();
        mc_rand::with_script(&words, &[], || mc::catch(|| Real::challenges(n, end)).ok()).0
    }).collect();
    ctx.add(plain.len() as u64, plain.len() as u64, plain.len() as u64);
    let missing: Vec<Vec<usize>> = mc::all_vecs(1 << end, n).filter(|v| trees.iter().all(|(g, _)| !g.contains_key(v)) && !plain.contains(v)).collect();
    if !missing.is_empty() {
        ctx.violation("unreachable", &format!("{} of {} lists of {n} challenges of {end} bits are produced by no outcome, e.g. {:?}", missing.len(), (1u64 << end).pow(n as u32), missing[0]), json!({"n": n, "end": end, "missing": missing[0]}));
        return;
    }
    for (g, rest) in &trees {
        for c in 0..n { for b in 0..end {
            let ones: f64 = g.iter().filter(|(k, _)| k.get(c).map(|v| v >> b & 1 == 1).unwrap_or(false)).map(|(_, v)| v).sum();
            let zeros: f64 = g.values().sum::<f64>() - ones;
            let set = plain.iter().filter(|l| l.get(c).map(|v| v >> b & 1 == 1).unwrap_or(false)).count() as f64 / plain.len().max(1) as f64;
            if (ones - zeros).abs() > rest + 1e-9 && (set - 0.5).abs() > 0.02 {
                ctx.violation("biased", &format!("bit {b} of challenge {c} (of {n} with {end} bits) is set in a share {ones:.4} and clear in {zeros:.4} of the outcomes (unexplored {rest:.4})"), json!({"n": n, "end": end, "ones": ones, "zeros": zeros}));
                return;
            }
        } }
    }
    ctx.count("lists reached", trees[0].0.len() as u64);
    ctx.sample(json!({"n": n, "bits": end, "lists reached": trees[0].0.len(), "share unexplored": trees[0].1}));
}

/// Wider requests: for every pair of bits an outcome exists for each of the four values.
fn witnesses(ctx: &Ctx) {
    let mut reqs: Vec<(usize, usize)> = (1..=63).map(|e| (2, e)).collect();
    reqs.extend([(1000, 20), (300, 40), (3, 20), (10, 8), (100, 20), (50, 20), (100, 1)]);
    if !ctx.quick() { reqs.extend([(5000, 20), (1000, 63), (70_000, 1)]); }
    if !ctx.part("bits of wide requests") { return; }
    ctx.par(reqs.len(), |i| {
        let (n, end) = reqs[i];
        let outs: Vec<Vec<usize>> = (0..ctx.pick(160u64, 600)).filter_map(|k| {
            // long enough that no draw repeats
            let words: Vec<u64> = (0..8 * (n * end) as u64 + 64).map(|j| mc::mix((k << 32) + j)).collect();
            let (r, used) = mc_rand::with_script(&words, &[], || mc::catch(|| Real::challenges(n, end)).ok());
            ctx.add(1, used as u64, 1);
            r
        }).collect();
        if outs.iter().any(|o| o.len() != n) { return; }
        let bit = |o: &Vec<usize>, p: usize| o[p / end] >> (p % end) & 1;
        let all = n * end;
        let pairs: Vec<(usize, usize)> = if all <= 130 { (0..all).flat_map(|a| (0..a).map(move |b| (a, b))).collect() } else { (end..all).map(|a| (a, a - end)).chain((1..all).map(|a| (a, a - 1))).chain((1..all).map(|a| (a, 0))).collect() };
        for (a, b) in pairs {
            let mut seen = [false; 4];
            for o in &outs { seen[bit(o, a) * 2 + bit(o, b)] = true; if seen == [true; 4] { break; } }
            if seen != [true; 4] {
                ctx.violation("dependent-bits", &format!("{n} challenges of {end} bits: bits {a} and {b} (counted over the list) never take all four values in {} outcomes", outs.len()), json!({"n": n, "end": end, "bits": [a, b], "seen": seen}));
                return;
            }
        }
    });
}

#[cfg(feature = "toy")]
fn s07_ideal(ctx: &Ctx) {
    type T = Toy13;
    type F = toy_field::F13;
    let a = all::<F>();
    let n = T::n();
    let (df, hc) = (consts::<F>(DF5, 2), consts::<F>(H5, 3));
    if ctx.part("ideal proof system") {
        let keys = at(mc::catch(|| (T::keys(&df, &hc), T::keys(&df, &hc))));
        let (pk, other) = match keys { Ok(k) => k, Err(e) => { ctx.violation("setup", &e, json!({})); return; } };
        // challenge list with a repeated position
        let ch = vec![1usize, 3, 0, 1];
        let mut starts = vec![];
        for key in &a { for m in &a {
            let t = table(*key, *m, &df, n);
            for idx in mc::subsets(4).filter(|s| s.len() == T::answers()) {
                if idx.iter().all(|i| t[ch[*i]].is_some()) { starts.push((*key, *m, idx)); }
            }
        } }
        let step = ctx.pick(7, 1);
        let starts: Vec<_> = starts.into_iter().step_by(step).collect();
        ctx.count("accepted statements perturbed", starts.len() as u64);
        let idxs: Vec<Vec<usize>> = (0..=ctx.pick(3, 4)).flat_map(|l| mc::all_vecs(6, l).collect::<Vec<_>>()).collect();
        let lists: Vec<Vec<usize>> = mc::all_vecs(1 << n, 4).chain([vec![1, 3], vec![], vec![1, 3, 0, 1, 2], vec![1, 3 + 4, 0, 1]]).collect();
        ctx.par(starts.len(), |i| {
            let (key, m, idx) = &starts[i];
            let t = table(*key, *m, &df, n);
            let x: Vec<F> = idx.iter().map(|i| fe(t[ch[*i]].unwrap() as u64)).collect();
            let h = ref_multi(&x, *key, &hc, 5);
            let stmt = |key: F, m: F, ch: &Vec<usize>, idx: &Vec<usize>, h: F| -> Option<Vec<F>> {
                if !idx.windows(2).all(|w| w[0] < w[1]) || idx.iter().any(|i| *i >= ch.len()) { return None; }
                let mut v = vec![key, m];
                for i in idx { v.push(fe::<F>(ch[*i] as u64)); }
                v.push(h);
                Some(v)
            };
            let home = stmt(*key, *m, &ch, idx, h).unwrap();
            let r = at(mc::catch(|| T::response_2(pk.clone(), *key, &x, *m, &df, &ch, idx, h, &hc)));
            let (pvk, proof) = match r { Ok(r) => r, Err(_) => return }; // S06
            let made_for = proof.inputs.clone();
            if made_for != home { return; } // S06
            let check = |what: &str, pvk: &<T as Space>::Pvk, pr: &<T as Space>::Proof, valid: bool, key: F, m: F, ch: &Vec<usize>, idx: &Vec<usize>, h: F| {
                let got = accepted::<T>(pvk, pr, key, m, ch, idx, h);
                let want = valid && stmt(key, m, ch, idx, h).as_ref() == Some(&home);
                ctx.add(0, 1, 1);
                if got != want {
                    ctx.violation(if got { "accepts-invalid" } else { "rejects-valid" }, &format!("verify {} a proof ({what}) of {:?} for key {} m {} challenges {ch:?} indices {idx:?} hash {}", if got { "accepts" } else { "rejects" }, shows(&home), show(key), show(m), show(h)),
                        json!({"proof_for": shows(&home), "proof": what, "key": show(key), "m": show(m), "challenges": ch, "indices": idx, "hash": show(h), "accepted": got}));
                }
                got
            };
            for k2 in &a { check("valid", &pvk, &proof, true, *k2, *m, &ch, idx, h); }
            for m2 in &a { check("valid", &pvk, &proof, true, *key, *m2, &ch, idx, h); }
            for h2 in &a { check("valid", &pvk, &proof, true, *key, *m, &ch, idx, *h2); }
            check("valid", &pvk, &proof, true, *m, *key, &ch, idx, h);
            for i2 in &idxs { check("valid", &pvk, &proof, true, *key, *m, &ch, i2, h); }
            for c2 in &lists { check("valid", &pvk, &proof, true, *key, *m, c2, idx, h); }
            // two components at once
            for k2 in &a { for h2 in &a { check("valid", &pvk, &proof, true, *k2, *m, &ch, idx, *h2); } }
            if !ctx.quick() { for k2 in &a { for m2 in &a { for h2 in &a { check("valid", &pvk, &proof, true, *k2, *m2, &ch, idx, *h2); } } } }
            // bad proofs of the very statement
            let mut bad = proof.clone(); bad.tampered = true;
            check("tampered", &pvk, &bad, false, *key, *m, &ch, idx, h);
            let mut bad = proof.clone(); bad.satisfied = false;
            check("of an unsatisfied witness", &pvk, &bad, false, *key, *m, &ch, idx, h);
            let mut bad = proof.clone(); bad.shape_ok = false;
            check("of another circuit", &pvk, &bad, false, *key, *m, &ch, idx, h);
            let opvk = toy_groth16::prepare_verifying_key(&other.vk);
            check("under a foreign key", &opvk, &proof, false, *key, *m, &ch, idx, h);
            // proofs of wrong answers made by the prover code itself
            for wx in &a {
                let mut x2 = x.clone();
                if x2[0] == *wx { continue; }
                x2[0] = *wx;
                let h2 = ref_multi(&x2, *key, &hc, 5);
                let ok = low_bits(ref_df(*key + x2[0], *m, &df, 5), n) == ch[idx[0]];
                if let Ok((v2, p2)) = mc::catch(|| T::response_2(pk.clone(), *key, &x2, *m, &df, &ch, idx, h2, &hc)) {
                    let got = accepted::<T>(&v2, &p2, *key, *m, &ch, idx, h2);
                    ctx.add(0, 1, 1);
                    if got && !ok { ctx.violation("accepts-wrong-answer", &format!("a proof made from a wrong answer {} is accepted", show(*wx)), json!({"key": show(*key), "m": show(*m), "x": shows(&x2), "challenges": ch, "indices": idx})); }
                }
            }
            ctx.add(1, 0, 0);
        });
        // one answer named twice, or answers named in another order, in challenge lists of every length
        {
            let (key, m): (F, F) = (fe(3), fe(4));
            let t = table::<F>(key, m, &df, n);
            let good: Vec<usize> = (0..1 << n).filter(|y| t[*y].is_some()).collect();
            let made: Vec<_> = mc::all_vecs(good.len(), T::answers()).filter_map(|v| {
                let pos: Vec<usize> = v.iter().map(|i| good[*i]).collect();
                let x: Vec<F> = pos.iter().map(|y| fe(t[*y].unwrap() as u64)).collect();
                let h = ref_multi(&x, key, &hc, 5);
                let idx: Vec<usize> = (0..pos.len()).collect();
                mc::catch(|| T::response_2(pk.clone(), key, &x, m, &df, &pos, &idx, h, &hc)).ok().map(|r| (pos, h, r))
            }).collect();
            let other = (0..1usize << n).find(|y| t[*y].is_none()).unwrap_or(0);
            let lens: Vec<usize> = (1..=ctx.pick(40, 140)).chain([63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 65_536, 65_537]).collect();
            ctx.par(lens.len(), |k| for (pos, h, (pvk, proof)) in &made {
                let len = lens[k];
                let mut at: Vec<usize> = [0, 1, 2, len / 2, len.saturating_sub(3), len.saturating_sub(2), len - 1].into_iter().filter(|i| *i < len).collect();
                at.sort();
                at.dedup();
                for i in &at { for j in &at {
                    let mut ch = vec![other; len];
                    ch[*j] = pos[1];
                    ch[*i] = pos[0];
                    let idx = vec![*i, *j];
                    let want = i < j;
                    let got = accepted::<T>(pvk, proof, key, m, &ch, &idx, *h);
                    ctx.add(0, 1, 1);
                    if got != want { return ctx.violation(if got { "accepts-invalid" } else { "rejects-valid" }, &format!("verify {} a proof of the positions {pos:?} for {len} challenges and indices {idx:?}", if got { "accepts" } else { "rejects" }), json!({"positions": pos, "challenges": len, "indices": idx})); }
                } }
            });
        }
        // more answers: a proof of as many equal positions, offered for every list of indices
        for k in 3..=ctx.pick(5usize, 6) {
            let mut pvk = toy_groth16::prepare_verifying_key(&pk.vk);
            pvk.vk.gamma_abc_g1 = vec![(); k + 4];
            let (key, m, h): (F, F, F) = (fe(3), fe(4), fe(5));
            let proof = toy_groth16::Proof { id: pvk.vk.id, inputs: [key, m].into_iter().chain((0..k).map(|_| fe::<F>(2))).chain([h]).collect(), shape_ok: true, satisfied: true, tampered: false };
            let ch = vec![2usize; k + 1];
            for idx in mc::all_vecs(k + 2, k) {
                ctx.add(0, 1, 1);
                if idx.windows(2).all(|w| w[0] < w[1]) && idx.iter().all(|i| *i < ch.len()) { continue; }
                if accepted::<T>(&pvk, &proof, key, m, &ch, &idx, h) { return ctx.violation("accepts-invalid", &format!("verify accepts the indices {idx:?} for {k} answers"), json!({"answers": k, "indices": idx})); }
            }
        }
        // answer counts other than the one the key was made for
        for k in 0..=4usize {
            if k == T::answers() { continue; }
            let key = fe(3); let m = fe(4);
            let t = table::<F>(key, m, &df, n);
            let good: Vec<usize> = (0..4).filter(|y| t[*y].is_some()).collect();
            let ch: Vec<usize> = (0..k).map(|i| good[i % good.len()]).collect();
            let idx: Vec<usize> = (0..k).collect();
            let x: Vec<F> = ch.iter().map(|c| fe(t[*c].unwrap() as u64)).collect();
            let h = ref_multi(&x, key, &hc, 5);
            if let Ok((v, p)) = mc::catch(|| T::response_2(pk.clone(), key, &x, m, &df, &ch, &idx, h, &hc)) {
                ctx.add(1, 1, 1);
                if accepted::<T>(&v, &p, key, m, &ch, &idx, h) { ctx.violation("accepts-wrong-count", &format!("a proof of {k} answers is accepted under the key for {}", T::answers()), json!({"answers": k})); }
            }
        }
        ctx.sample(json!({"proof_for": {"key": 3, "m": 4, "challenges": ch, "indices": [0, 1]}, "indices [0, 0]": "rejected", "indices [3, 1]": "rejected"}));
    }
}
