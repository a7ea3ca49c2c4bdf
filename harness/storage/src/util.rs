//! Parameters, files and the independent reference of the sealing definition.
use rug::{integer::{IsPrime, Order}, Integer};
use std::io::Write;
pub use storage_real::proof_of_storage::postorage::PosPara;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg { pub blocks: usize, pub units: usize, pub unit_l: usize, pub seal: usize, pub vde: usize, pub ml: usize, pub cl: usize, pub ms: usize, pub cs: usize }
macro_rules! para_of { ($t:ty, $c:expr) => { {
    let (c, pl) = ($c, $c.unit_l + 1);
    <$t>::clone(&PosParaOf {
        data_l: c.blocks * c.units * c.unit_l,
        unit_l: c.unit_l, block_l: c.units * c.unit_l, big_block_l: c.units * c.unit_l,
        unit_pl: pl, block_pl: c.units * pl, big_block_pl: c.units * pl,
        seal_rounds: c.seal, vde_rounds: c.vde, vde_mode: "sloth".to_string(),
        mode_l: c.ml, cnt_l: c.cl, mode_s: c.ms, cnt_s: c.cs, leaves_to_prove_count: 3,
    })
} } }
impl Cfg {
    pub fn para(&self) -> PosPara { use storage_real::proof_of_storage::postorage::PosPara as PosParaOf; para_of!(PosParaOf, self) }
    /// the same for the instrumented build
    pub fn para_sched(&self) -> storage_sched::proof_of_storage::postorage::PosPara { use storage_sched::proof_of_storage::postorage::PosPara as PosParaOf; para_of!(PosParaOf, self) }
    pub fn of(p: &PosPara) -> Cfg {
        Cfg { blocks: p.data_l / p.block_l, units: p.block_l / p.unit_l, unit_l: p.unit_l, seal: p.seal_rounds, vde: p.vde_rounds, ml: p.mode_l, cl: p.cnt_l, ms: p.mode_s, cs: p.cnt_s }
    }
}
pub fn js(c: &Cfg) -> mc::serde_json::Value {
    mc::serde_json::json!({"blocks": c.blocks, "units_per_block": c.units, "unit_l": c.unit_l, "seal_rounds": c.seal, "vde_rounds": c.vde, "mode_l": c.ml, "cnt_l": c.cl, "mode_s": c.ms, "cnt_s": c.cs})
}

pub fn is_prime(p: &Integer) -> bool { p.is_probably_prime(40) != IsPrime::No }
/// smallest prime congruent to 3 mod 4 above 256^unit_l, and the largest one below 256^(unit_l + 1)
pub fn small_key(unit_l: usize) -> Integer {
    let mut p = (Integer::from(1) << (8 * unit_l as u32)) + 3u32;
    while !is_prime(&p) { p += 4; }
    p
}
pub fn large_key(unit_l: usize) -> Integer {
    let mut p = (Integer::from(1) << (8 * (unit_l as u32 + 1))) - 1u32;
    while !is_prime(&p) { p -= 4; }
    p
}
pub fn primes3(below: u64) -> Vec<u64> { (3..below).step_by(4).filter(|&p| is_prime(&Integer::from(p))).collect() }
pub fn odd_primes(below: u64) -> Vec<u64> { (3..below).step_by(2).filter(|&p| is_prime(&Integer::from(p))).collect() }

pub fn put(path: &str, data: &[u8]) { std::fs::File::create(path).unwrap().write_all(data).unwrap(); }
pub fn get(path: &str) -> Vec<u8> { std::fs::read(path).unwrap() }

/// data patterns: constant extremes and position-dependent bytes
pub fn pattern(kind: usize, n: usize) -> Vec<u8> {
    match kind {
        0 => vec![0; n],
        1 => vec![255; n],
        // zeros and ones scattered among other bytes
        40 => (0..n).map(|i| { let x = mc::mix(i as u64 ^ 0x4_0000_0000); match x >> 60 { 0..=4 => 0, 5 | 6 => 255, _ => x as u8 } }).collect(),
        k => (0..n).map(|i| mc::mix((i as u64) ^ ((k as u64) << 32)) as u8).collect(),
    }
}
pub fn padded(data: &[u8], unit_l: usize) -> Vec<u8> {
    data.chunks(unit_l).flat_map(|u| u.iter().copied().chain([0])).collect()
}
/// padded data as blocks of units
pub fn blocks_of(padded: &[u8], c: &Cfg) -> Vec<Vec<Vec<u8>>> {
    let pl = c.unit_l + 1;
    padded.chunks(c.units * pl).map(|b| b.chunks(pl).map(|u| u.to_vec()).collect()).collect()
}

// ---- reference ----

pub fn b3(d: &[u8]) -> [u8; 32] { *blake3::hash(d).as_bytes() }

/// candidate positions of a hash-driven dependency list: the digest chain read in groups of 1, 2 or 3 bytes
fn digest_indices(num: usize, data: &[u8], want: usize) -> Vec<Vec<usize>> {
    let step = if num <= 1 << 8 { 1 } else if num <= 1 << 16 { 2 } else { 3 };
    let mut d: [u8; 16] = b3(data)[..16].try_into().unwrap();
    let mut out = vec![];
    let rounds = 1usize.max(want / (8 * step));
    for r in 0..rounds {
        if r > 0 { d = b3(&d)[..16].try_into().unwrap(); }
        let v = d.chunks_exact(step).map(|c| c.iter().enumerate().map(|(j, &b)| (b as usize) << (8 * j)).sum()).collect();
        out.push(v);
    }
    out
}
pub fn ref_long_random(num: usize, data: &[u8], index: usize, count: usize) -> Vec<usize> {
    if index == 0 { return vec![]; }
    let v: std::collections::BTreeSet<usize> = digest_indices(num, data, count).concat().into_iter().take(count).map(|x| x % index).collect();
    v.into_iter().collect()
}
pub fn ref_short_random(num: usize, data: &[u8], index: usize, count: usize) -> Vec<usize> {
    let v: std::collections::BTreeSet<usize> = digest_indices(num, data, count).concat().into_iter().map(|x| x % num).filter(|&x| x != index).take(count).collect();
    v.into_iter().collect()
}
pub fn ref_long_rule(index: usize, count: usize, mode: usize) -> Vec<usize> {
    let count = if mode == 3 { index / 10 } else { count };
    (0..count as u128).map(|i| match mode { 1 => Some(1 + 2 * i), 2 | 3 => if i < 100 { Some(1 + (1u128 << i)) } else { None }, _ => None })
        .filter_map(|d| d.filter(|&d| d <= index as u128).map(|d| index - d as usize)).collect()
}
pub fn ref_short_rule(num: usize, index: usize, count: usize, mode: usize) -> Vec<usize> {
    let (num, index) = (num as i128, index as i128);
    let ok = |x: i128| x >= 0 && x < num;
    match mode {
        // alternately left and right at odd distances, whatever lies inside the block, up to count
        1 => (0..num).flat_map(|e| [index - (1 + 2 * e), index + 1 + 2 * e]).filter(|&x| ok(x)).take(count).map(|x| x as usize).collect(),
        // -1-2^0, -1+2^1, -1-2^2, ...; ends at the first position outside the block
        2 => (0..count.min(100) as u32).map(|i| if i % 2 == 0 { index - 1 - (1i128 << i) } else { index - 1 + (1i128 << i) }).take_while(|&x| ok(x)).map(|x| x as usize).collect(),
        _ => vec![],
    }
}

pub fn int(b: &[u8]) -> Integer { Integer::from_digits(b, Order::Lsf) }
pub fn bytes(x: &Integer, l: usize) -> Vec<u8> {
    let mut v = x.to_digits::<u8>(Order::Lsf);
    assert!(v.len() <= l);
    v.resize(l, 0);
    v
}
/// one round of the delay permutation: the even root of x or the odd root of -x, then neighbours exchanged
pub fn ref_sloth1(x: &Integer, p: &Integer) -> Integer {
    if x.is_zero() { return Integer::new(); }
    let sq = x.jacobi(p) == 1;
    let a = if sq { x.clone() } else { Integer::from(p - x) };
    let e = Integer::from(p + 1u32) >> 2u32;
    let r = a.pow_mod(&e, p).unwrap();
    let y = if r.is_even() == sq { r } else { p - r };
    if y.is_even() { y - 1u32 } else { (y + 1u32) % p }
}
/// literal inverse, also defined on representatives not below p
pub fn ref_sloth1_inv(y: &Integer, p: &Integer) -> Integer {
    if y.is_zero() { return Integer::new(); }
    let x = if y.is_odd() { Integer::from(y + 1u32) % p } else { Integer::from(y - 1u32) % p };
    let s = Integer::from(&x * &x) % p;
    if x.is_odd() { p - s } else { s }
}
pub fn long_deps(c: &Cfg, idx2: usize, prev_id: &[u8]) -> Vec<usize> {
    if c.ml != 0 { return ref_long_rule(idx2, c.cl, c.ml); }
    if idx2 == 0 { return vec![]; }
    ref_long_random(c.blocks, prev_id, idx2, if c.cl == 0 { idx2 / 10 + 1 } else { c.cl })
}
fn short_deps(c: &Cfg, units: &[Vec<u8>], idx1: usize) -> Vec<usize> {
    if c.ms != 0 { return ref_short_rule(units.len(), idx1, c.cs, c.ms); }
    ref_short_random(units.len(), if idx1 == 0 { &[] } else { &units[idx1 - 1] }, idx1, c.cs)
}
fn mask(c: &Cfg, units: &[Vec<u8>], deps: &[&Vec<Vec<u8>>], idx1: usize, idx2: usize, prev_id: &[u8], iv: &[u8]) -> Integer {
    let mut d = vec![];
    for b in deps { d.extend_from_slice(&b[idx1]); }
    for i in short_deps(c, units, idx1) { d.extend_from_slice(&units[i]); }
    if idx1 == 0 { d.extend_from_slice(if idx2 == 0 { iv } else { prev_id }); }
    int(&b3(&d))
}
pub fn id_of(b: &[Vec<u8>]) -> Vec<u8> { b3(&b.concat()).to_vec() }
/// the sealing definition: sealed blocks and their identities
pub fn ref_seal(c: &Cfg, plain: &[Vec<Vec<u8>>], p: &Integer, iv: &[u8]) -> (Vec<Vec<Vec<u8>>>, Vec<Vec<u8>>) {
    let mut out: Vec<Vec<Vec<u8>>> = vec![];
    let mut ids: Vec<Vec<u8>> = vec![];
    for (i2, b) in plain.iter().enumerate() {
        let prev = if i2 == 0 { vec![] } else { ids[i2 - 1].clone() };
        let deps: Vec<&Vec<Vec<u8>>> = long_deps(c, i2, &prev).into_iter().map(|i| &out[i]).collect();
        let mut u = b.clone();
        for _ in 0..c.seal {
            for i1 in 0..u.len() {
                let m = mask(c, &u, &deps, i1, i2, &prev, iv);
                let mut x = (int(&u[i1]) + m) % p;
                for _ in 0..c.vde { x = ref_sloth1(&x, p); }
                u[i1] = bytes(&x, c.unit_l + 1);
            }
        }
        ids.push(id_of(&u));
        out.push(u);
    }
    (out, ids)
}
pub fn ref_unseal_block(c: &Cfg, block: &[Vec<u8>], idx2: usize, prev_id: &[u8], deps: &[Vec<Vec<u8>>], p: &Integer, iv: &[u8]) -> Vec<Vec<u8>> {
    let mut u = block.to_vec();
    let deps: Vec<&Vec<Vec<u8>>> = deps.iter().collect();
    for _ in 0..c.seal {
        for i1 in (0..u.len()).rev() {
            let m = mask(c, &u, &deps, i1, idx2, prev_id, iv);
            let mut x = int(&u[i1]);
            for _ in 0..c.vde { x = ref_sloth1_inv(&x, p); }
            let mut y = (x - m) % p;
            if y < 0 { y += p; }
            u[i1] = bytes(&y, c.unit_l + 1);
        }
    }
    u
}

/// the configuration grid
pub fn grid(blocks: &[usize], units: &[usize], unit_l: usize, seal: &[usize], vde: &[usize], ml: &[usize], cl: &[usize], ms: &[usize], cs: &[usize]) -> Vec<Cfg> {
    let mut v = vec![];
    for &blocks in blocks { for &units in units { for &seal in seal { for &vde in vde { for &ml in ml { for &cl in cl {
        // the count is not used by the size-driven rule
        if ml >= 3 && cl != 0 { continue; }
        for &ms in ms { for &cs in cs {
            if ms >= 3 && cs != cs.min(1) { continue; }
            v.push(Cfg { blocks, units, unit_l, seal, vde, ml, cl, ms, cs });
        } }
    } } } } } }
    v
}

/// every dimension of a configuration, one at a time, at and around sizes where code likes to switch
pub fn ladder(quick: bool) -> Vec<Cfg> {
    let base = Cfg { blocks: 3, units: 2, unit_l: 1, seal: 1, vde: 1, ml: 0, cl: 2, ms: 0, cs: 1 };
    let mut v = vec![];
    let top = if quick { 70 } else { 200 };
    let sizes: Vec<usize> = (1..=top).filter(|n| !quick || *n < 36 || n % 8 < 2 || n % 8 == 7).chain([99, 100, 101, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513]).chain(if quick { vec![1025] } else { vec![999, 1000, 1001, 1023, 1024, 1025, 2049, 4097, 10001] }).collect();
    for (ml, cl, ms, cs) in [(0, 0, 0, 2), (0, 3, 1, 3), (1, 4, 2, 3), (2, 12, 1, 2), (3, 0, 0, 10)] {
        for &n in &sizes {
            v.push(Cfg { blocks: n, units: 2, ml, cl, ms, cs, ..base });
            v.push(Cfg { units: n, blocks: 2, ml, cl, ms, cs, ..base });
        }
        for seal in 0..=if quick { 9 } else { 40 } { v.push(Cfg { seal, units: 3, ml, cl, ms, cs, ..base }); }
        for vde in (0..=if quick { 12 } else { 70 }).chain([63, 64, 65, 100, 129, 257]) { v.push(Cfg { vde, ml, cl, ms, cs, ..base }); }
        for l in (2..=if quick { 12 } else { 40 }).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128]) { v.push(Cfg { unit_l: l, units: 2, ml, cl, ms, cs, ..base }); }
    }
    for ml in [0, 1, 2] { for cl in (0..=if quick { 20 } else { 70 }).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000]) { v.push(Cfg { blocks: 40, ml, cl, ..base }); } }
    for ms in [0, 1, 2] { for cs in (0..=if quick { 20 } else { 70 }).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000]) { v.push(Cfg { units: 40, ms, cs, ..base }); } }
    v
}
/// several dimensions above small sizes at once, up to the shape of the shipped presets
pub fn combos(quick: bool) -> Vec<Cfg> {
    let mut v = vec![];
    let sizes: &[usize] = if quick { &[2, 12, 45, 130] } else { &[2, 5, 12, 20, 45, 70, 130, 260] };
    for (k, &blocks) in sizes.iter().enumerate() { for (j, &units) in sizes.iter().enumerate() { for (i, unit_l) in [1usize, 9, 45, 63].into_iter().enumerate() { for (h, (seal, vde)) in [(1usize, 1usize), (2, 1), (1, 10), (4, 2)].into_iter().enumerate() {
        let cost = blocks * units * seal * vde * [1, 2, 10, 16][i];
        if cost > if quick { 70_000 } else { 1_000_000 } { continue; }
        let rules = [(0, 0, 0, 10), (0, 3, 1, 5), (1, 4, 0, 4), (2, 12, 2, 8), (3, 0, 0, 1)];
        for (r, (ml, cl, ms, cs)) in rules.into_iter().enumerate() {
            // in quick runs the preset's rule and one more, in turn
            if quick && r != 0 && r != 1 + (k + j + i + h) % 4 { continue; }
            v.push(Cfg { blocks, units, unit_l, seal, vde, ml, cl, ms, cs });
        }
    } } } }
    // much dependency data for each unit
    for (blocks, units, unit_l, cl, cs) in [(40usize, 3usize, 63usize, 38usize, 2usize), (3, 100, 63, 2, 98), (30, 30, 127, 28, 28), (3, 70, 255, 2, 68), (130, 2, 63, 260, 1), (300, 2, 63, 600, 1), (2, 300, 63, 1, 600), (70, 2, 255, 68, 2), (140, 2, 255, 280, 1), (2, 600, 63, 1, 1200)] {
        for (ml, ms) in if quick { vec![(1, 1)] } else { vec![(1, 1), (0, 0), (1, 0), (0, 1)] } { v.push(Cfg { blocks, units, unit_l, seal: 1, vde: 1, ml, cl: cl, ms, cs: cs }); }
    }
    // the smallest presets, with fewer blocks
    v.push(Cfg { blocks: 2, units: 64, unit_l: 63, seal: 2, vde: 10, ml: 0, cl: 0, ms: 0, cs: 10 });
    v.push(Cfg { blocks: 1, units: 256, unit_l: 63, seal: 2, vde: 10, ml: 0, cl: 0, ms: 0, cs: 10 });
    v.sort_by_key(|c| c.blocks * c.units * c.unit_l * c.seal * c.vde);
    v
}
/// positions of 0..n: both ends, around powers of two, and others up to about `max`
pub fn marks(n: usize, max: usize) -> Vec<usize> {
    if n <= max { return (0..n).collect(); }
    let mut v: Vec<usize> = vec![0, n / 2, n - 1];
    if max > 3 {
        for b in 0..usize::BITS { let p = 1usize << b; if p > n { break; } v.extend([p.saturating_sub(1), p, p + 1]); }
        let rest = max.saturating_sub(v.len());
        v.extend((0..rest as u64).map(|k| mc::mix(k + n as u64) as usize % n));
    }
    v.retain(|x| *x < n);
    v.sort();
    v.dedup();
    v
}
/// counts beyond 16 bits
pub fn huge() -> Vec<Cfg> {
    let b = Cfg { blocks: 2, units: 1, unit_l: 1, seal: 1, vde: 1, ml: 1, cl: 1, ms: 0, cs: 1 };
    vec![Cfg { blocks: 65_600, ml: 1, ..b }, Cfg { blocks: 65_600, ml: 0, cl: 2, ..b }, Cfg { blocks: 65_600, ml: 2, cl: 17, ..b },
         Cfg { units: 65_600, ms: 0, ..b }, Cfg { units: 65_600, ms: 1, cs: 2, ..b }, Cfg { units: 65_600, ms: 2, cs: 17, ..b }]
}
/// keys for every unit length, made once
pub fn ladder_key(l: usize, large: bool) -> Integer {
    static C: std::sync::OnceLock<std::sync::Mutex<std::collections::HashMap<(usize, bool), Integer>>> = std::sync::OnceLock::new();
    let c = C.get_or_init(Default::default);
    if let Some(k) = c.lock().unwrap().get(&(l, large)) { return k.clone(); }
    let k = if large { large_key(l) } else { small_key(l) };
    c.lock().unwrap().insert((l, large), k.clone());
    k
}
