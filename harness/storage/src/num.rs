use super::util::*;
use mc::{serde_json::json, Ctx};
use num_bigint::BigInt;
use rug::Integer;
use storage_real::{proof_of_storage::{common::*, postorage::prepare_params}, vde::{compare_modpow, rug_sloth as gmp, rug_vde, sloth as big}, zk_vde};

fn b(x: u64) -> BigInt { BigInt::from(x) }
fn i(x: u64) -> Integer { Integer::from(x) }
fn to_b(x: &Integer) -> BigInt { x.to_string().parse().unwrap() }

type Shipped = [(&'static str, u32, [&'static str; 3]); 6];
fn shipped() -> Shipped {
    [("P_64", 64, [gmp::P_64, big::P_64, compare_modpow::P_64]), ("P_128", 128, [gmp::P_128, big::P_128, compare_modpow::P_128]), ("P_256", 256, [gmp::P_256, big::P_256, compare_modpow::P_256]),
     ("P_512", 512, [gmp::P_512, big::P_512, compare_modpow::P_512]), ("P_1024", 1024, [gmp::P_1024, big::P_1024, compare_modpow::P_1024]), ("P_2048", 2048, [gmp::P_2048, big::P_2048, compare_modpow::P_2048])]
}
/// edge values of [0,p): both ends, around half, powers of two and their neighbours, and fixed mixed values
fn edges(p: &Integer, mixed: usize) -> Vec<Integer> {
    let mut v: Vec<Integer> = vec![];
    for d in 0..8u32 { v.push(Integer::from(d)); v.push(Integer::from(p - (d + 1))); v.push(Integer::from(p >> 1u32) + d); v.push(Integer::from(p >> 2u32) + d); }
    let bits = p.significant_bits();
    for k in (0..bits).step_by((bits as usize / 32).max(1)) { let x = Integer::from(1) << k; v.push(Integer::from(&x - 1u32)); v.push(Integer::from(&x + 1u32)); v.push(x); }
    for k in 0..mixed {
        let bytes: Vec<u8> = (0..bits.div_ceil(8)).map(|j| mc::mix(((k as u64) << 20) + j as u64) as u8).collect();
        v.push(int(&bytes) % p);
    }
    v.retain(|x| x < p && *x >= 0);
    v.sort();
    v.dedup();
    v
}

pub fn t04(ctx: &Ctx) {
    if ctx.part("all values of small primes") {
        let ps = primes3(ctx.pick(420, 1600));
        ctx.bound("largest_prime", *ps.last().unwrap());
        ctx.par(ps.len(), |k| {
            let p = ps[ps.len() - 1 - k];
            let (pi, pb) = (i(p), b(p));
            let mut seen = vec![false; p as usize];
            let mut seen_inv = vec![false; p as usize];
            let bad = |key: &str, what: &str, x: u64, t: usize| ctx.violation(key, what, json!({"p": p, "x": x, "t": t}));
            for x in 0..p {
                let r = mc::catch(|| {
                    (gmp::single_sloth(&i(x), &pi), big::single_sloth(&b(x), &pb), gmp::single_sloth_inv(&i(x), &pi), big::single_sloth_inv(&b(x), &pb))
                });
                let Ok((y, yb, z, zb)) = r else { return bad("panic", "a round of the permutation fails", x, 1) };
                if to_b(&y) != yb || to_b(&z) != zb { return bad("versions", "the two versions of the permutation differ", x, 1); }
                if y < 0 || y >= pi || z < 0 || z >= pi { return bad("range", "a round leaves [0,p)", x, 1); }
                let (y, z) = (y.to_u64().unwrap(), z.to_u64().unwrap());
                if std::mem::replace(&mut seen[y as usize], true) || std::mem::replace(&mut seen_inv[z as usize], true) { return bad("permutation", "a round maps two values to one", x, 1); }
                if i(y) != ref_sloth1(&i(x), &pi) { return bad("definition", "a round is not the square-root permutation", x, 1); }
                if gmp::single_sloth_inv(&i(y), &pi) != x || big::single_sloth_inv(&b(y), &pb) != b(x) { return bad("inverse", "inverting a round does not return the value", x, 1); }
                let mut cur = i(x);
                for t in 0..ctx.pick(5usize, 9) {
                    let Ok((a, ab)) = mc::catch(|| (gmp::sloth(&i(x), &pi, t), big::sloth(&b(x), &pb, t))) else { return bad("panic", "the permutation fails", x, t) };
                    if a != cur { return bad("rounds", "t rounds are not t times one round", x, t); }
                    if to_b(&a) != ab { return bad("versions", "the two versions of the permutation differ", x, t); }
                    let Ok((u, ub)) = mc::catch(|| (gmp::sloth_inv(&a, &pi, t), big::sloth_inv(&ab, &pb, t))) else { return bad("panic", "the inverse fails", x, t) };
                    if u != x || ub != b(x) { return bad("inverse", "inverting t rounds of t rounds does not return the value", x, t); }
                    let Ok((f, fb)) = mc::catch(|| (gmp::sloth_inv(&i(x), &pi, t), big::sloth_inv(&b(x), &pb, t))) else { return bad("panic", "the inverse fails", x, t) };
                    if to_b(&f) != fb { return bad("versions", "the two versions of the inverse differ", x, t); }
                    if gmp::sloth(&f, &pi, t) != x { return bad("inverse", "t rounds of t inverse rounds do not return the value", x, t); }
                    cur = ref_sloth1(&cur, &pi);
                    ctx.add(0, 4, 1);
                }
                ctx.add(1, 0, 0);
            }
        });
    }
    if ctx.part("long chains") {
        let ps = primes3(ctx.pick(60, 200));
        ctx.par(ps.len(), |k| {
            let p = ps[k];
            let (pi, pb) = (i(p), b(p));
            for x in 0..p { for t in [p as usize, 2 * p as usize + 1, 100] {
                let a = gmp::sloth(&i(x), &pi, t);
                let ok = mc::catch(|| gmp::sloth_inv(&a, &pi, t) == x && big::sloth(&b(x), &pb, t) == to_b(&a) && big::sloth_inv(&to_b(&a), &pb, t) == b(x)).unwrap_or(false);
                if !ok { ctx.violation("inverse", "inverting t rounds of t rounds does not return the value", json!({"p": p, "x": x, "t": t})); }
                ctx.add(1, 4, 1);
            } }
        });
    }
    if ctx.part("very long chains") {
        // every round count up to a bound on small primes, and single large counts
        let ps = [7u64, 11, 19, 23, 43];
        ctx.par(ps.len(), |k| {
            let p = ps[k];
            let (pi, pb) = (i(p), b(p));
            let next: Vec<u64> = (0..p).map(|x| ref_sloth1(&i(x), &pi).to_u64().unwrap()).collect();
            let mut ts: Vec<usize> = (0..ctx.pick(300, 1200)).collect();
            ts.extend([499, 500, 501, 511, 512, 513, 767, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 10_000, 10_001, 32_767, 32_769]);
            if k < ctx.pick(2, 5) { ts.extend([65_535, 65_536, 65_537, 70_001]); }
            ts.dedup();
            let mut at: Vec<u64> = (0..p).collect();
            let mut done = 0usize;
            for t in ts {
                while done < t { for x in at.iter_mut() { *x = next[*x as usize]; } done += 1; }
                for x in 0..p {
                    // long chains: a few starting values each
                    if t > 600 && (x + t as u64) % p > 1 { continue; }
                    let y = at[x as usize];
                    let r = mc::catch(|| (gmp::sloth(&i(x), &pi, t), big::sloth(&b(x), &pb, t), gmp::sloth_inv(&i(y), &pi, t), big::sloth_inv(&b(y), &pb, t)));
                    ctx.add(1, 4 * t as u64, 1);
                    match r {
                        Err(_) => return ctx.violation("panic", "the permutation fails", json!({"p": p, "x": x, "t": t})),
                        Ok((u, ub, v, vb)) => if u != y || ub != b(y) || v != x || vb != b(x) { return ctx.violation("rounds", "t rounds are not t times one round", json!({"p": p, "x": x, "t": t, "expected": y, "got": [u.to_string(), ub.to_string()], "inverse": [v.to_string(), vb.to_string()]})); }
                    }
                }
            }
        });
    }
    if ctx.part("every pair of calls in a row") {
        let v = triples();
        let want: Vec<Integer> = v.iter().map(|(x, p, t)| { let mut r = x.clone(); for _ in 0..*t { r = ref_sloth1(&r, p); } r }).collect();
        for kind in 0..4 {
            ctx.pairs(v.len(), |c| {
                let ((x, p, t), y) = (&v[c], &want[c]);
                let ok = mc::catch(|| match kind { 0 => gmp::sloth(x, p, *t) == *y, 1 => gmp::sloth_inv(y, p, *t) == *x, 2 => big::sloth(&to_b(x), &to_b(p), *t) == to_b(y), _ => big::sloth_inv(&to_b(y), &to_b(p), *t) == to_b(x) }).unwrap_or(false);
                if !ok { ctx.violation("history", "the result differs from the definition after another call", json!({"p": p.to_string(), "x": x.to_string(), "t": t, "function": kind})); }
                ok
            });
        }
        // all four functions mixed
        ctx.pairs(4 * 24, |c| {
            let ((x, p, t), y) = (&v[c / 4], &want[c / 4]);
            let ok = mc::catch(|| match c % 4 { 0 => gmp::sloth(x, p, *t) == *y, 1 => gmp::sloth_inv(y, p, *t) == *x, 2 => big::sloth(&to_b(x), &to_b(p), *t) == to_b(y), _ => big::sloth_inv(&to_b(y), &to_b(p), *t) == to_b(x) }).unwrap_or(false);
            if !ok { ctx.violation("history", "the result differs from the definition after another call", json!({"p": p.to_string(), "x": x.to_string(), "t": t, "function": c % 4})); }
            ok
        });
    }
    // primes around the sizes of machine words, and the shipped ones
    if ctx.part("edge values of large primes") {
        let mut ps: Vec<Integer> = shipped().iter().map(|s| s.2[0].parse().unwrap()).collect();
        for bits in [8u32, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129] {
            let mut p = (Integer::from(1) << bits) - 1u32;
            while !is_prime(&p) { p -= 4; }
            ps.push(p);
            let mut p = (Integer::from(1) << bits) + 3u32;
            while !is_prime(&p) { p += 4; }
            ps.push(p);
        }
        let mut cases = vec![];
        for p in &ps { let n = if p.significant_bits() > 1000 { ctx.pick(4, 40) } else { ctx.pick(20, 200) }; for x in edges(p, n) { cases.push((p.clone(), x)); } }
        ctx.par(cases.len(), |k| {
            let (p, x) = &cases[cases.len() - 1 - k];
            let pb = to_b(p);
            let big_p = p.significant_bits() > 600;
            for t in if big_p { vec![1] } else { vec![1, 2, 5] } {
                let d = || json!({"p": p.to_string(), "x": x.to_string(), "t": t});
                match mc::catch(|| { let y = gmp::sloth(x, p, t); let z = gmp::sloth_inv(&y, p, t); let w = gmp::sloth_inv(x, p, t); let v = gmp::sloth(&w, p, t); (y, z, w, v) }) {
                    Err(q) => ctx.violation("panic", &format!("the permutation fails: {}", q.msg), d()),
                    Ok((y, z, w, v)) => {
                        if z != *x || v != *x { ctx.violation("inverse", "permutation and inverse do not undo each other", d()); }
                        if y < 0 || y >= *p || w < 0 || w >= *p { ctx.violation("range", "a result leaves [0,p)", d()); }
                        let mut r = x.clone();
                        for _ in 0..t { r = ref_sloth1(&r, p); }
                        if r != y { ctx.violation("definition", "the permutation is not the square-root permutation", d()); }
                        if !big_p || k % 9 == 0 {
                            match mc::catch(|| (big::sloth(&to_b(x), &pb, t), big::sloth_inv(&to_b(x), &pb, t))) {
                                Ok((yb, wb)) => if yb != to_b(&y) || wb != to_b(&w) { ctx.violation("versions", "the two versions differ", d()); },
                                Err(q) => ctx.violation("panic", &format!("the permutation fails: {}", q.msg), d()),
                            }
                        }
                    }
                }
                ctx.add(1, 4, 1);
            }
        });
    }
    // one or few bits: powers of two and their neighbours, multiples of high powers, at every bit of the shipped primes
    if ctx.part("powers of two under the shipped primes") {
        let mut cases: Vec<(Integer, Integer)> = vec![];
        for s in shipped() {
            let p: Integer = s.2[0].parse().unwrap();
            let bits = p.significant_bits();
            for k in (0..bits).filter(|k| bits < 600 || !ctx.quick() || k % (bits / 128) == 0 || k % 64 < 2) {
                let b = Integer::from(1) << k;
                let near: Vec<Integer> = if bits < 600 || !ctx.quick() { vec![b.clone(), Integer::from(&b - 1u32), Integer::from(&b + 1u32), Integer::from(&b * 5u32), Integer::from(&p - &b)] } else { vec![b.clone(), if k % 2 == 0 { Integer::from(&b * 5u32) } else { Integer::from(&p - &b) }] };
                for x in near { if x >= 0 && x < p { cases.push((p.clone(), x)); } }
            }
        }
        ctx.par(cases.len(), |k| {
            let (p, x) = &cases[cases.len() - 1 - k];
            let d = || json!({"p": p.to_string(), "x": x.to_string()});
            match mc::catch(|| { let y = gmp::sloth(x, p, 1); let z = gmp::sloth_inv(&y, p, 1); let w = gmp::sloth_inv(x, p, 1); (y, z, w) }) {
                Err(q) => ctx.violation("panic", &format!("the permutation fails: {}", q.msg), d()),
                Ok((y, z, w)) => {
                    if z != *x { ctx.violation("inverse", "permutation and inverse do not undo each other", d()); }
                    if y != ref_sloth1(x, p) || (w < 0 || w >= *p || ref_sloth1(&w, p) != *x) { ctx.violation("definition", "the permutation is not the square-root permutation", d()); }
                    if p.significant_bits() < 300 && mc::catch(|| (big::sloth(&to_b(x), &to_b(p), 1), big::sloth_inv(&to_b(x), &to_b(p), 1))).ok() != Some((to_b(&y), to_b(&w))) { ctx.violation("versions", "the two versions differ", d()); }
                }
            }
            ctx.add(1, 3, 1);
        });
    }
}

/// Call histories: values, moduli and round counts that differ in one respect, every ordered pair in a row.
fn triples() -> Vec<(Integer, Integer, usize)> {
    let ps: Vec<Integer> = [("P_64", 0), ("P_256", 2)].iter().map(|(_, k)| shipped()[*k].2[0].parse().unwrap()).chain([i(251), i(239), i(65_519)]).collect();
    let mut v = vec![];
    for p in &ps { for x in [i(5), i(6), Integer::from(p - 2u32), Integer::from(p >> 1u32)] { for t in [1usize, 2, 3] { v.push((x.clone(), p.clone(), t)); } } }
    v
}

fn field_legendre<const M: u64>(ctx: &Ctx) {
    use ark_ff::{Field, One, Zero};
    use toy_field::F;
    let squares: std::collections::HashSet<u64> = (1..M).map(|x| x * x % M).collect();
    for x in 0..M {
        for p in [0u64, 1, M - 1] {
            let r = mc::catch(|| zk_vde::sloth::legendre(F::<M>::from(x), F::<M>::from(p)));
            let want = if x == 0 { F::<M>::zero() } else if squares.contains(&x) { F::<M>::one() } else { -F::<M>::one() };
            if r.ok() != Some(want) { ctx.violation("field", "the field version of the Legendre symbol is wrong", json!({"p": M, "x": x})); }
            ctx.add(1, 1, 1);
        }
    }
    let _ = F::<M>::characteristic();
}

pub fn t05(ctx: &Ctx) {
    if ctx.part("integer Legendre symbol") {
        let ps = odd_primes(ctx.pick(1600, 5000));
        ctx.bound("largest_prime", *ps.last().unwrap());
        ctx.par(ps.len(), |k| {
            let p = ps[ps.len() - 1 - k];
            let squares: std::collections::HashSet<u64> = (1..p).map(|x| x * x % p).collect();
            for x in 0..p {
                let want: i64 = if x == 0 { 0 } else if squares.contains(&x) { 1 } else { -1 };
                let g = mc::catch(|| gmp::legendre(i(x), &i(p)));
                let n = mc::catch(|| big::legendre(b(x), &b(p)));
                if g.as_ref().ok() != Some(&Integer::from(want)) { ctx.violation("gmp", "the Legendre symbol of the GMP version is wrong", json!({"p": p, "x": x, "got": g.map(|v| v.to_string()).unwrap_or("panic".into())})); }
                if n.as_ref().ok() != Some(&BigInt::from(want)) { ctx.violation("bigint", "the Legendre symbol of the bigint version is wrong", json!({"p": p, "x": x, "got": n.map(|v| v.to_string()).unwrap_or("panic".into())})); }
                ctx.add(1, 2, 1);
            }
        });
    }
    if ctx.part("Legendre symbol, large primes") {
        let mut cases = vec![];
        let mut ps: Vec<Integer> = shipped().iter().map(|s| s.2[0].parse().unwrap()).collect();
        // every residue of p modulo 8, at word sizes
        for bits in [31u32, 32, 33, 63, 64, 65, 127, 129] { for r in [1u32, 3, 5, 7] {
            let mut p = (Integer::from(1) << bits) + r;
            while !is_prime(&p) { p += 8; }
            ps.push(p);
        } }
        for p in &ps { for x in edges(p, ctx.pick(20, 200)) { cases.push((p.clone(), x)); } }
        // odd multiples of powers of two, even and odd exponents up to the size of the prime
        for p in &ps {
            let bits = p.significant_bits();
            for k in (1..bits).step_by(if bits < 300 { 1 } else { ctx.pick(bits as usize / 60 | 1, 5) }) { for m in [1u32, 3, 5, 7] { let x = Integer::from(m) << k; if x < *p { cases.push((p.clone(), x)); } } }
        }
        ctx.par(cases.len(), |k| {
            let (p, x) = &cases[cases.len() - 1 - k];
            let want = x.jacobi(p);
            let g = mc::catch(|| gmp::legendre(x.clone(), p));
            let n = mc::catch(|| big::legendre(to_b(x), &to_b(p)));
            if g.ok() != Some(Integer::from(want)) { ctx.violation("gmp", "the Legendre symbol of the GMP version is wrong", json!({"p": p.to_string(), "x": x.to_string()})); }
            if n.ok() != Some(BigInt::from(want)) { ctx.violation("bigint", "the Legendre symbol of the bigint version is wrong", json!({"p": p.to_string(), "x": x.to_string()})); }
            ctx.add(1, 2, 1);
        });
    }
    if ctx.part("every pair of calls in a row") {
        let v = triples();
        ctx.pairs(v.len() * 3, |c| {
            let (x, p, t) = &v[c / 3];
            let want = x.jacobi(p);
            let ok = mc::catch(|| match c % 3 {
                0 => gmp::legendre(x.clone(), p) == want,
                1 => big::legendre(to_b(x), &to_b(p)) == BigInt::from(want),
                _ => compare_modpow::fast_modpow(to_b(x), b(1000 + *t as u64), to_b(p)) == to_b(&x.clone().pow_mod(&i(1000 + *t as u64), p).unwrap()),
            }).unwrap_or(false);
            if !ok { ctx.violation("history", "the result differs from the definition after another call", json!({"p": p.to_string(), "x": x.to_string(), "function": c % 3})); }
            ok
        });
    }
    if ctx.part("Legendre symbol as a field element") {
        field_legendre::<11>(ctx); field_legendre::<13>(ctx); field_legendre::<17>(ctx); field_legendre::<19>(ctx); field_legendre::<23>(ctx);
        field_legendre::<29>(ctx); field_legendre::<31>(ctx); field_legendre::<37>(ctx); field_legendre::<41>(ctx); field_legendre::<43>(ctx);
        field_legendre::<97>(ctx); field_legendre::<101>(ctx); field_legendre::<127>(ctx); field_legendre::<251>(ctx); field_legendre::<257>(ctx);
        use ark_bls12_381::{Fq, Fr};
        use ark_ff::PrimeField;
        fn real<F: PrimeField + ark_ff::SquareRootField>(ctx: &Ctx, n: u64) {
            let mut xs: Vec<F> = (0..64u64).map(F::from).collect();
            xs.extend((1..64u64).map(|k| -F::from(k)));
            let mut t = F::one();
            for k in 0..n { t = t * F::from(0x9E3779B97F4A7C15u64) + F::from(k); xs.push(t); xs.push(t * t); xs.push(-(t * t)); }
            for x in xs {
                let want = match x.legendre() { ark_ff::LegendreSymbol::Zero => F::zero(), ark_ff::LegendreSymbol::QuadraticResidue => F::one(), _ => -F::one() };
                if mc::catch(|| zk_vde::sloth::legendre(x, F::zero())).ok() != Some(want) { ctx.violation("field", "the field version of the Legendre symbol is wrong", json!({"x": x.to_string()})); }
                ctx.add(1, 1, 1);
            }
        }
        real::<Fr>(ctx, ctx.pick(100, 2000));
        real::<Fq>(ctx, ctx.pick(100, 2000));
    }
    if ctx.part("modular exponentiation") {
        let pmax = ctx.pick(110u64, 256);
        ctx.par(pmax as usize - 1, |k| {
            let p = k as u64 + 2;
            for x in 0..=2 * p + 1 {
                let mut want = 1 % p;
                for t in 0..ctx.pick(140u64, 600) {
                    if mc::catch(|| compare_modpow::fast_modpow(b(x), b(t), b(p))).ok() != Some(b(want)) { ctx.violation("modpow", "fast modular exponentiation is wrong", json!({"x": x, "t": t, "p": p})); return; }
                    want = want * (x % p) % p;
                    ctx.add(1, 1, 1);
                }
            }
        });
        let mut cases = vec![];
        for s in shipped() {
            let p: Integer = s.2[0].parse().unwrap();
            let es = edges(&p, 2);
            let n = if s.1 > 600 { 6 } else { 14 };
            for (j, x) in es.iter().enumerate() { if j % (es.len() / n) == 0 { for e in [Integer::new(), i(1), i(2), i(3), i(65537), Integer::from(&p - 1u32), Integer::from(&p >> 1u32), Integer::from(&p + 1u32) >> 2u32] { cases.push((x.clone(), e, p.clone())); } } }
        }
        // exponents with few bits set, or few missing, of every length
        for p in [i(65_519), shipped()[0].2[0].parse().unwrap(), shipped()[2].2[0].parse().unwrap()] {
            for k in 0..ctx.pick(300u32, 2200) {
                let b = Integer::from(1) << k;
                for e in [b.clone(), Integer::from(&b - 1u32), Integer::from(&b + 1u32), Integer::from(&b * 3u32), Integer::from(&b * 0x8000_0001u32), Integer::from(&b * &b) + &b] { cases.push((i(3), e.clone(), p.clone())); cases.push((Integer::from(&p - 2u32), e, p.clone())); }
            }
        }
        for k in (300..2300u32).step_by(ctx.pick(61, 7)) { let b = Integer::from(1) << k; for e in [b.clone(), Integer::from(&b - 1u32), Integer::from(&b + 1u32)] { cases.push((i(3), e, i(65_519))); } }
        ctx.par(cases.len(), |k| {
            let (x, e, p) = &cases[cases.len() - 1 - k];
            let want = x.clone().pow_mod(e, p).unwrap();
            if mc::catch(|| compare_modpow::fast_modpow(to_b(x), to_b(e), to_b(p))).ok() != Some(to_b(&want)) { ctx.violation("modpow", "fast modular exponentiation is wrong", json!({"x": x.to_string(), "t": e.to_string(), "p": p.to_string()})); }
            ctx.add(1, 1, 1);
        });
    }
}

pub fn t06(ctx: &Ctx) {
    if ctx.part("modular addition and subtraction, one byte") {
        // every modulus of one byte, every value below it, every one-byte mask; then longer masks
        ctx.par(255, |k| {
            let p = 256 - k as u64;
            let pi = i(p);
            for x in 0..p {
                let l = vec![x as u8];
                for m in 0..256u64 {
                    let r = vec![m as u8];
                    let Ok((a, s)) = mc::catch(|| (modadd(&l, &r, &pi), modsub(&l, &r, &pi))) else { return ctx.violation("panic", "modular addition or subtraction fails", json!({"p": p, "x": x, "mask": m})) };
                    if a != [((x + m) % p) as u8] { return ctx.violation("modadd", "modular addition is wrong", json!({"p": p, "x": x, "mask": m, "got": a})); }
                    if s != [((x + p * 256 - m) % p) as u8] { return ctx.violation("modsub", "modular subtraction is wrong", json!({"p": p, "x": x, "mask": m, "got": s})); }
                }
            }
            ctx.add(p, p * 256 * 2, p * 256);
        });
    }
    if ctx.part("modular addition and subtraction, longer units and masks") {
        let mut cases: Vec<(Integer, usize)> = vec![];
        for (len, top) in [(1usize, 256u64), (2, 65536)] { for p in [2, 3, 251, 255, 256, 257, 65521, 65535, 65536] { if p <= top { cases.push((i(p), len)); } } }
        cases.push(((Integer::from(1) << 24u32) - 1u32, 3));
        cases.push(((Integer::from(1) << 24u32) - 17u32, 4));
        for s in shipped() { cases.push((s.2[0].parse().unwrap(), s.1 as usize / 8)); cases.push((s.2[0].parse().unwrap(), s.1 as usize / 8 + 1)); }
        let mut masks: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![255], vec![0, 0, 0], vec![0, 1], vec![255, 255]];
        for n in [2usize, 31, 32, 33, 64, 300] { masks.push(vec![255; n]); masks.push(pattern(3, n)); let mut v = vec![0; n]; v[n - 1] = 128; masks.push(v); }
        ctx.par(cases.len(), |k| {
            let (p, len) = &cases[k];
            let mut masks = masks.clone();
            for f in [1u32, 2, 3, 255, 256] { for d in [-1i32, 0, 1] {
                let m = Integer::from(p * f) + d;
                let mut b = m.to_digits::<u8>(rug::integer::Order::Lsf);
                masks.push(b.clone());
                for n in [*len, *len + 1, 32] { if b.len() < n { b.resize(n, 0); masks.push(b.clone()); } }
            } }
            for x in edges(p, ctx.pick(10, 200)) {
                let l = bytes(&x, *len);
                for m in &masks {
                    let mi = int(m);
                    let want_a = bytes(&(Integer::from(&x + &mi) % p), *len);
                    let mut w = Integer::from(&x - &mi) % p;
                    if w < 0 { w += p; }
                    let want_s = bytes(&w, *len);
                    let d = || json!({"p": p.to_string(), "x": x.to_string(), "mask": m});
                    match mc::catch(|| (modadd(&l, m, p), modsub(&l, m, p))) {
                        Err(q) => ctx.violation("panic", &format!("modular addition or subtraction fails: {}", q.msg), d()),
                        Ok((a, s)) => {
                            if a != want_a { ctx.violation("modadd", "modular addition is wrong or of the wrong length", d()); }
                            if s != want_s { ctx.violation("modsub", "modular subtraction is wrong or of the wrong length", d()); }
                            if mc::catch(|| (modsub(&a, m, p), modadd(&s, m, p))).ok() != Some((l.clone(), l.clone())) { ctx.violation("undo", "addition and subtraction do not undo each other", d()); }
                        }
                    }
                    ctx.add(1, 4, 1);
                }
            }
        });
    }
    if ctx.part("delay encoding") {
        let ps = primes3(ctx.pick(700, 2000));
        ctx.par(ps.len(), |k| {
            let p = ps[ps.len() - 1 - k];
            let min = if p > 256 { 2 } else { 1 };
            for x in 0..p { for l in min..min + 3 { for t in 0..3 { for mode in ["sloth", "other", ""] {
                if mode != "sloth" && t == 2 { continue; }
                let xb = bytes(&i(x), l);
                let r = mc::catch(|| { let y = rug_vde::vde(&xb, &i(p), t, &mode.to_string(), l); let z = rug_vde::vde_inv(&y, &i(p), t, &mode.to_string(), l); (y, z) });
                match r {
                    Ok((y, z)) if y.len() == l && z == xb && int(&y) < p => {
                    }
                    _ => ctx.violation("vde", "delay encoding and decoding do not undo each other at the requested length", json!({"p": p, "x": x, "length": l, "rounds": t, "mode": mode})),
                }
                // decoding any value, encoding it again
                let r = mc::catch(|| { let y = rug_vde::vde_inv(&xb, &i(p), t, &mode.to_string(), l); let z = rug_vde::vde(&y, &i(p), t, &mode.to_string(), l); (y, z) });
                if !matches!(&r, Ok((y, z)) if y.len() == l && *z == xb) { ctx.violation("vde", "delay decoding and encoding do not undo each other at the requested length", json!({"p": p, "x": x, "length": l, "rounds": t, "mode": mode})); }
                // a shorter representation of the same value encodes to the same
                if l > min { let short = bytes(&i(x), l - 1); if mc::catch(|| rug_vde::vde(&short, &i(p), t, &mode.to_string(), l)).ok() != mc::catch(|| rug_vde::vde(&xb, &i(p), t, &mode.to_string(), l)).ok() { ctx.violation("vde", "leading zero bytes change the encoding", json!({"p": p, "x": x})); } }
                ctx.add(1, 4, 2);
            } } } }
        });
        let mut cases = vec![];
        for s in shipped() { let p: Integer = s.2[0].parse().unwrap(); for x in edges(&p, ctx.pick(4, 30)) { cases.push((p.clone(), x, s.1 as usize / 8)); } }
        ctx.par(cases.len(), |k| {
            let (p, x, l) = &cases[cases.len() - 1 - k];
            if *l > 64 && k % ctx.pick(6, 1) != 0 { return; }
            let xb = bytes(x, *l);
            let r = mc::catch(|| { let y = rug_vde::vde(&xb, p, 1, &"sloth".to_string(), *l); let z = rug_vde::vde_inv(&y, p, 1, &"sloth".to_string(), *l); let a = rug_vde::vde_inv(&xb, p, 1, &"sloth".to_string(), *l); (y, z, a) });
            if !matches!(&r, Ok((y, z, a)) if y.len() == *l && *z == xb && a.len() == *l) { ctx.violation("vde", "delay encoding and decoding do not undo each other at the requested length", json!({"p": p.to_string(), "x": x.to_string()})); }
            ctx.add(1, 3, 1);
        });
    }
    if ctx.part("every pair of calls in a row") {
        let v = triples();
        let sloth = |x: &Integer, p: &Integer, t: usize| { let mut r = x.clone(); for _ in 0..t { r = ref_sloth1(&r, p); } r };
        let y: Vec<Integer> = v.iter().map(|(x, p, t)| sloth(x, p, *t)).collect();
        ctx.pairs(v.len() * 4, |c| {
            let ((x, p, t), y) = (&v[c / 4], &y[c / 4]);
            let l = p.significant_bits().div_ceil(8) as usize;
            let (xb, yb) = (bytes(x, l), bytes(y, l));
            let m = "sloth".to_string();
            let ok = mc::catch(|| match c % 4 {
                0 => { let e = rug_vde::vde(&xb, p, *t, &m, l + 1); e == bytes(y, l + 1) }
                1 => { let e = rug_vde::vde_inv(&yb, p, *t, &m, l); e == xb }
                2 => modadd(&xb, &yb, p) == bytes(&(Integer::from(x + y) % p), l),
                _ => modsub(&xb, &yb, p) == bytes(&((Integer::from(x - y) + p) % p), l),
            }).unwrap_or(false);
            if !ok { ctx.violation("history", "the result differs from the definition after another call", json!({"p": p.to_string(), "x": x.to_string(), "t": t, "function": c % 4})); }
            ok
        });
    }
    if ctx.part("splitting, joining, xor, reading") {
        for n in 0..=24usize { for u in 1..=n.max(1) { if n % u == 0 {
            for pat in [0, 1, 2] {
                let d = pattern(pat, n);
                let want: Vec<Vec<u8>> = d.chunks(u).map(|c| c.to_vec()).collect();
                match mc::catch(|| { let v = to_units(&d, u); let j = com_units(&v); (v, j) }) {
                    Ok((v, j)) if v == want && j == d => {}
                    _ => ctx.violation("units", "splitting into units and joining do not undo each other", json!({"length": n, "unit": u})),
                }
                ctx.add(1, 2, 1);
            }
        } } }
        // joining units of different lengths keeps every byte
        for v in mc::all_vecs(4, 3) {
            let d: Vec<Vec<u8>> = v.iter().enumerate().map(|(k, &n)| pattern(2 + k, n)).collect();
            if mc::catch(|| com_units(&d)).ok() != Some(d.concat()) { ctx.violation("join", "joining loses or changes bytes", json!({"lengths": v})); }
            ctx.add(1, 1, 1);
        }
        for a in 0..=6usize { for b in 0..=6usize { for k in 0..4 {
            let (x, y) = (pattern(k, a), pattern(3 - k, b));
            let want: Vec<u8> = (0..a.max(b)).map(|j| x.get(j).unwrap_or(&0) ^ y.get(j).unwrap_or(&0)).collect();
            if mc::catch(|| vecu8_xor(&x, &y)).ok() != Some(want) { ctx.violation("xor", "byte-wise xor is wrong", json!({"lengths": [a, b]})); }
            ctx.add(1, 1, 1);
        } } }
        let long = [0usize, 1, 2, 31, 63, 64, 65, 127, 128, 255, 256, 257, 300, 511, 512, 513, 1000, 4097, 65_535, 65_536, 65_537, 70_000];
        for a in long { for b in long {
            let (x, y) = (pattern(2, a), pattern(3, b));
            let want: Vec<u8> = (0..a.max(b)).map(|j| x.get(j).unwrap_or(&0) ^ y.get(j).unwrap_or(&0)).collect();
            if mc::catch(|| vecu8_xor(&x, &y)).ok() != Some(want) { ctx.violation("xor", "byte-wise xor is wrong", json!({"lengths": [a, b]})); }
            ctx.add(1, 1, 1);
        } }
        for u in [1usize, 2, 3, 63, 64, 65, 128, 256, 257, 1000, 65_537] { for n in [1usize, 2, 3, 64, 255, 256, 257, 1000, 65_537] { if u * n < 300_000 {
            let d = pattern(4, n * u);
            let want: Vec<Vec<u8>> = d.chunks(u).map(|c| c.to_vec()).collect();
            match mc::catch(|| { let v = to_units(&d, u); let j = com_units(&v); (v, j) }) { Ok((v, j)) if v == want && j == d => {} _ => ctx.violation("units", "splitting into units and joining do not undo each other", json!({"length": n * u, "unit": u})) }
            ctx.add(1, 2, 1);
        } } }
        for x in 0..=255u8 { for y in 0..=255u8 {
            if mc::catch(|| vecu8_xor(&vec![x, y], &vec![y])).ok() != Some(vec![x ^ y, y]) { ctx.violation("xor", "byte-wise xor is wrong", json!({"values": [x, y]})); }
            ctx.add(1, 1, 1);
        } }
        mc::with_scratch(|s| for n in 0..=9usize {
            let p = s.path("r");
            let d = pattern(2, n);
            put(&p, &d);
            let mut f = std::fs::File::open(&p).unwrap();
            for a in 0..=11usize { for l in 0..=11usize {
                let want: Vec<u8> = (a..a + l).map(|k| *d.get(k).unwrap_or(&0)).collect();
                if mc::catch(|| read_file(&mut f, a, l)).ok() != Some(want) { ctx.violation("read", "reading a range of a file is wrong", json!({"file": n, "begin": a, "length": l})); }
                ctx.add(1, 1, 1);
            } }
        });
    }
}

pub fn t15(ctx: &Ctx) {
    if ctx.part("primes") {
        for (name, bits, copies) in shipped() {
            let d = json!({"prime": name});
            let vals: Vec<Option<Integer>> = copies.iter().map(|c| c.parse().ok()).collect();
            ctx.add(copies.len() as u64, copies.len() as u64, copies.len() as u64);
            for (k, v) in vals.iter().enumerate() {
                let Some(v) = v else { ctx.violation("number", "a shipped prime is not a number", d.clone()); continue };
                let at = ["vde/rug_sloth.rs", "vde/sloth.rs", "vde/compare_modpow.rs"][k];
                let d = json!({"prime": name, "copy": at});
                if !is_prime(v) { ctx.violation("prime", &format!("{name} in {at} is not prime"), d.clone()); }
                if v.clone() % 4u32 != 3 { ctx.violation("residue", &format!("{name} in {at} is not 3 modulo 4"), d.clone()); }
                if v.significant_bits() != bits { ctx.violation("size", &format!("{name} in {at} does not have {bits} bits"), d.clone()); }
                if vals[0].as_ref() != Some(v) { ctx.violation("copies", &format!("the copies of {name} differ"), d); }
            }
        }
    }
    if ctx.part("presets") {
        for l in (0..=ctx.pick(300usize, 5000)).chain([1024, 1 << 20, usize::MAX]) {
            let Ok(p) = mc::catch(|| gen_posdata(l)) else { ctx.violation("panic", "a preset cannot be made", json!({"l": l})); continue };
            ctx.add(1, 1, 1);
            let d = json!({"preset": l, "data_l": p.data_l, "unit_l": p.unit_l, "block_l": p.block_l, "unit_pl": p.unit_pl, "block_pl": p.block_pl, "big_block_l": p.big_block_l, "big_block_pl": p.big_block_pl});
            let bad = |k: &str, w: &str| ctx.violation(k, &format!("preset {l}: {w}"), d.clone());
            if p.unit_l == 0 || p.block_l == 0 || p.data_l == 0 { bad("empty", "a size is zero"); continue }
            if p.data_l % p.block_l != 0 { bad("blocks", "the data does not divide into blocks") }
            if p.block_l % p.unit_l != 0 || p.big_block_l % p.unit_l != 0 { bad("units", "a block does not divide into units") }
            if p.unit_pl != p.unit_l + 1 { bad("pad", "a padded unit is not one byte longer") }
            if p.block_pl != p.block_l / p.unit_l * p.unit_pl { bad("padded-block", "the padded block does not hold the padded units") }
            if p.big_block_pl != p.big_block_l / p.unit_l * p.unit_pl { bad("padded-big-block", "the padded big block does not hold the padded units") }
            if p.leaves_to_prove_count > p.data_l / p.block_l { bad("challenges", "more challenges than blocks") }
            if p.seal_rounds == 0 || p.vde_rounds == 0 { bad("rounds", "no sealing at all") }
            let want = match l { 1 => 1, 4 => 4, 16 => 16, _ => 64 };
            if p.data_l != 63 * 16 * 1024 * want { bad("size", "the data size is not the advertised one") }
            let Ok((key, iv)) = mc::catch(|| prepare_params(p.unit_pl)) else { bad("params", "no parameters for this preset"); continue };
            if key < Integer::from(1) << (8 * p.unit_l as u32) { bad("key-small", "the key is smaller than some original unit") }
            if key > Integer::from(1) << (8 * p.unit_pl as u32) { bad("key-large", "results modulo the key do not fit in a padded unit") }
            if iv.len() != 128 { bad("iv", "the IV does not have 128 bytes") }
        }
    }
    if ctx.part("key for a padded unit length") {
        for (pl, want) in [(64usize, gmp::P_512), (128, gmp::P_1024), (256, gmp::P_2048)] {
            let Ok((key, _)) = mc::catch(|| prepare_params(pl)) else { ctx.violation("panic", "no parameters for a shipped size", json!({"unit_pl": pl})); continue };
            if key != want.parse::<Integer>().unwrap() || key < Integer::from(1) << (8 * (pl as u32 - 1)) || key > Integer::from(1) << (8 * pl as u32) || !is_prime(&key) || key.clone() % 4u32 != 3 {
                ctx.violation("key", "the key for a shipped unit size is not the matching prime", json!({"unit_pl": pl}));
            }
            ctx.add(1, 1, 1);
        }
        // every other length still gets some usable prime
        for pl in 1..=300usize {
            match mc::catch(|| prepare_params(pl)) { Ok((k, _)) if is_prime(&k) && k.clone() % 4u32 == 3 => {} _ => ctx.violation("key", "the key is not a usable prime", json!({"unit_pl": pl})) }
            ctx.add(1, 1, 1);
        }
    }
}
