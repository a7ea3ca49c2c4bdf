use mc::{serde_json::json, Ctx};
use space_real::proof_of_space::convert::*;

fn ref_bits(b: &[u8]) -> Vec<bool> { b.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)).collect() }
fn ref_bytes(b: &[bool]) -> Vec<u8> {
    let mut r = vec![0u8; b.len().div_ceil(8)];
    for (i, x) in b.iter().enumerate() { if *x { r[i / 8] |= 1 << (i % 8); } }
    r
}
fn value(b: &[bool]) -> u64 { b.iter().enumerate().map(|(i, x)| (*x as u64) << i).sum() }

fn cmp<T: PartialEq + std::fmt::Debug>(ctx: &Ctx, name: &str, input: &dyn Fn() -> String, got: Result<T, mc::Panicked>, want: T) -> bool {
    match got {
        Ok(g) if g == want => true,
        Ok(g) => { ctx.violation(name, &format!("{name}({}) = {g:?}, expected {want:?}", input()), json!({"function": name, "input": input(), "got": format!("{g:?}"), "expected": format!("{want:?}")})); false }
        Err(p) => { ctx.violation(&format!("{name}-panics"), &format!("{name}({}) panics at {}: {}", input(), p.at, p.msg), json!({"function": name, "input": input()})); false }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.bound("byte lists", "all lists up to 2 bytes (thorough: 3), scattered lists up to 300 bytes, constant and scattered ones up to 2^17 (thorough: 2^20)");
    ctx.bound("bit lists", "all lists up to 18 bits (thorough: 22), one- and two-bit lists of every length up to 64, scattered lists up to 2000 bits");
    ctx.bound("integers", "all x below 2^14 (thorough 2^18) with all widths 0..70; all one-, two-bit and all-ones values with all widths 0..130");
    if ctx.part("bytes") {
        for len in 0..=ctx.pick(2usize, 3) {
            let total = 256usize.pow(len as u32);
            ctx.par(256.min(total), |w| for i in (w..total).step_by(256.min(total)) {
                let b: Vec<u8> = (0..len).map(|k| (i >> (8 * k)) as u8).collect();
                let bits = ref_bits(&b);
                cmp(ctx, "bytes_to_bits", &|| format!("{b:?}"), mc::catch(|| bytes_to_bits(&b)), bits.clone());
                cmp(ctx, "bits_to_bytes", &|| format!("{bits:?}"), mc::catch(|| bits_to_bytes(&bits)), b.clone());
                ctx.add(1, 2, 2);
            });
        }
        for len in 0..=300u64 {
            let b: Vec<u8> = (0..len).map(|i| mc::mix(i + 1000 * len) as u8).collect();
            let bits = ref_bits(&b);
            cmp(ctx, "bytes_to_bits", &|| format!("{b:?}"), mc::catch(|| bytes_to_bits(&b)), bits.clone());
            cmp(ctx, "bits_to_bytes", &|| format!("{bits:?}"), mc::catch(|| bits_to_bytes(&bits)), b.clone());
            ctx.add(1, 2, 2);
        }
    }
    if ctx.part("bits") {
        for len in 0..=ctx.pick(18usize, 22) {
            let total = 1usize << len;
            ctx.par(256.min(total), |w| for i in (w..total).step_by(256.min(total)) {
                let b: Vec<bool> = (0..len).map(|k| i >> k & 1 == 1).collect();
                cmp(ctx, "bits_to_bytes", &|| format!("{b:?}"), mc::catch(|| bits_to_bytes(&b)), ref_bytes(&b));
                cmp(ctx, "bits_to_usize", &|| format!("{b:?}"), mc::catch(|| bits_to_usize(&b)), i);
                ctx.add(1, 2, 2);
            });
        }
        for len in 0..=64usize {
            let mut vs: Vec<u64> = vec![0, u64::MAX];
            for i in 0..len { vs.push(1 << i); vs.push(!(1 << i)); for j in 0..i { vs.push(1 << i | 1 << j); } }
            for v in vs {
                let b: Vec<bool> = (0..len).map(|k| v >> k & 1 == 1).collect();
                cmp(ctx, "bits_to_usize", &|| format!("{b:?}"), mc::catch(|| bits_to_usize(&b)), value(&b) as usize);
                cmp(ctx, "bits_to_bytes", &|| format!("{b:?}"), mc::catch(|| bits_to_bytes(&b)), ref_bytes(&b));
                ctx.add(1, 2, 2);
            }
        }
        for len in 0..=2000u64 {
            let b: Vec<bool> = (0..len).map(|i| mc::mix(i + 5000 * len) & 1 == 1).collect();
            cmp(ctx, "bits_to_bytes", &|| format!("{b:?}"), mc::catch(|| bits_to_bytes(&b)), ref_bytes(&b));
            ctx.add(1, 1, 1);
        }
    }
    if ctx.part("integers") {
        let total = 1usize << ctx.pick(14, 18);
        let mut xs: Vec<usize> = (0..total).collect();
        for i in 0..64 { xs.push(1 << i); xs.push((1usize << i) - 1); xs.push(!(1 << i)); for j in 0..i { xs.push(1 << i | 1 << j); } }
        xs.extend([usize::MAX, usize::MAX - 1, 0x5555555555555555, 0xAAAAAAAAAAAAAAAA]);
        xs.extend((0..200).map(|i| mc::mix(i) as usize));
        ctx.par(512, |w| for i in (w..xs.len()).step_by(512) {
            let x = xs[i];
            for n in 0..=if i < total { 70usize } else { 130 } {
                let want: Vec<bool> = (0..n).map(|k| k < 64 && x >> k & 1 == 1).collect();
                let ok = cmp(ctx, "usize_to_bits", &|| format!("{x}, {n}"), mc::catch(|| usize_to_bits(x, n)), want.clone());
                if ok && n <= 64 { cmp(ctx, "bits_to_usize", &|| format!("{want:?}"), mc::catch(|| bits_to_usize(&want)), value(&want) as usize); }
                if !ok { return; }
            }
            ctx.add(1, 71, 71 + 65);
        });
    }
    if ctx.part("long lists") {
        let mut lens: Vec<usize> = (9..=ctx.pick(17u32, 20)).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1]).collect();
        lens.extend([1000, 5000, 12_345, 30_011]);
        ctx.par(lens.len(), |k| {
            let len = lens[lens.len() - 1 - k];
            for kind in 0..3u64 {
                let b: Vec<u8> = (0..len as u64).map(|i| match kind { 0 => mc::mix(i + 1000 * len as u64) as u8, 1 => 0, _ => 255 }).collect();
                let bits = ref_bits(&b);
                if mc::catch(|| bytes_to_bits(&b)).ok().as_ref() != Some(&bits) { ctx.violation("bytes_to_bits", &format!("bytes_to_bits of {len} bytes is wrong"), json!({"bytes": len, "kind": kind})); }
                for cut in [0usize, 1, 5, 7] {
                    let part = bits[..bits.len() - cut].to_vec();
                    if mc::catch(|| bits_to_bytes(&part)).ok() != Some(ref_bytes(&part)) { ctx.violation("bits_to_bytes", &format!("bits_to_bytes of {} bits is wrong", part.len()), json!({"bits": part.len(), "kind": kind})); }
                }
                ctx.add(1, 5, 5);
            }
        });
        // leading zeros beyond the width of an integer
        for len in (65..=200usize).chain([1000, 5000]) { for v in [0u64, 1, 5, 1 << 63, u64::MAX, 0x5555_5555_5555_5555] {
            let b: Vec<bool> = (0..len).map(|k| k < 64 && v >> k & 1 == 1).collect();
            cmp(ctx, "bits_to_usize", &|| format!("{v} in {len} bits"), mc::catch(|| bits_to_usize(&b)), v as usize);
            cmp(ctx, "usize_to_bits", &|| format!("{v}, {len}"), mc::catch(|| usize_to_bits(v as usize, len)), b);
            ctx.add(1, 2, 2);
        } }
    }
    if ctx.part("every pair of calls in a row") {
        let bytes: Vec<Vec<u8>> = vec![vec![], vec![1], vec![128], vec![1, 0], vec![0, 1], vec![7; 9], (0..40).collect(), (0..41).collect(), (0..40).map(|x| x ^ (x == 39) as u8).collect()];
        let ints = [0usize, 1, 2, 5, 255, 256, 1 << 20, (1 << 20) | 1, usize::MAX];
        let widths = [0usize, 1, 8, 9, 20, 21, 64];
        let (nb, ni) = (bytes.len(), ints.len() * widths.len());
        ctx.pairs(2 * nb + 2 * ni, |c| {
            let ok = mc::catch(|| {
                if c < nb { bytes_to_bits(&bytes[c]) == ref_bits(&bytes[c]) }
                else if c < 2 * nb { bits_to_bytes(&ref_bits(&bytes[c - nb])) == bytes[c - nb] }
                else {
                    let (x, n) = (ints[(c - 2 * nb) % ints.len()], widths[(c - 2 * nb) / ints.len() % widths.len()]);
                    let want: Vec<bool> = (0..n).map(|k| x >> k & 1 == 1).collect();
                    if c < 2 * nb + ni { usize_to_bits(x, n) == want } else { bits_to_usize(&want) == value(&want) as usize }
                }
            }).unwrap_or(false);
            if !ok { ctx.violation("history", "a conversion is wrong after another call", json!({"case": c})); }
            ok
        });
    }
    ctx.sample(json!({"bytes": [1, 128], "bits": ref_bits(&[1, 128])}));
    ctx.sample(json!({"x": 5, "n": 2, "bits": [true, false]}));
}
