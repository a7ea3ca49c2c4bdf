use super::util::*;
use mc::{serde_json::json, Ctx};
use rug::Integer;
use storage_real::proof_of_storage::{common::gen_posdata, prover::*, verifier::*};

pub fn ivs() -> Vec<Vec<u8>> { vec![pattern(7, 128), vec![], vec![0], pattern(9, 64)] }

/// pads and seals `data`; the sealed file is at the returned path
pub fn do_seal(para: &PosPara, data: &[u8], key: &Integer, iv: &Vec<u8>, s: &mc::Scratch) -> (String, String, Vec<Vec<u8>>) {
    let (o, f) = (s.path("origin"), s.path("sealed"));
    put(&o, data);
    copy_and_pad(&o, &f, para.data_l, para.unit_l);
    let ids = seal(para, &f, key, iv).0;
    (o, f, ids)
}

fn round_trip(ctx: &Ctx, cfg: &Cfg, para: &PosPara, data: &[u8], key: &Integer, iv: &Vec<u8>) {
    let r = mc::with_scratch(|s| mc::catch(|| {
        let (o, f, _) = do_seal(para, data, key, iv, s);
        let sealed = get(&f);
        unseal(para, &f, key, iv);
        let plain = get(&f);
        let u = s.path("unsealed");
        copy_and_compress(&f, &u, para.data_l, para.unit_l, para.unit_pl);
        (get(&o), sealed, plain, get(&u))
    }));
    let d = || json!({"config": js(cfg), "data_head": &data[..data.len().min(64)], "key": key.to_string(), "iv_len": iv.len()});
    match r {
        Err(p) => ctx.violation("panic", &format!("sealing or unsealing failed at {}: {}", p.at, p.msg), d()),
        Ok((o, sealed, plain, back)) => {
            let want = padded(data, para.unit_l);
            if o != data { ctx.violation("origin", "the original file was changed", d()) }
            if sealed.len() != want.len() { ctx.violation("sealed-length", "the sealed file has a wrong length", d()) }
            if plain != want { ctx.violation("unseal", "unsealing in place does not give the padded file", d()) }
            else if back != data { ctx.violation("compress", "the unsealed copy differs from the original", d()) }
        }
    }
    ctx.add(cfg.blocks as u64 * 2, (cfg.blocks * cfg.units * cfg.seal.max(1) * 2) as u64, 1);
}

pub fn t01(ctx: &Ctx) {
    // 1. configuration grid
    if ctx.part("configurations") {
        let q = ctx.quick();
        let g = grid(if q { &[1, 2, 3, 12] } else { &[1, 2, 3, 4, 7, 12, 21] }, if q { &[1, 2, 3, 5] } else { &[1, 2, 3, 4, 5, 8] }, 1,
            if q { &[1, 2] } else { &[0, 1, 2, 3] }, if q { &[1, 2] } else { &[0, 1, 3] }, &[0, 1, 2, 3, 4], if q { &[0, 1, 3] } else { &[0, 1, 2, 3, 9] }, &[0, 1, 2, 3], if q { &[0, 1, 2, 10] } else { &[0, 1, 2, 3, 4, 10, 20] });
        ctx.bound("configuration_grid", g.len());
        let keys = [small_key(1), large_key(1)];
        let ivs = ivs();
        ctx.par(g.len(), |i| {
            let c = &g[i];
            let para = c.para();
            for (k, key) in keys.iter().enumerate() {
                for pat in if ctx.quick() { vec![1, 2 + i % 5] } else { vec![0, 1, 2 + i % 5] } {
                    round_trip(ctx, c, &para, &pattern(pat, para.data_l), key, &ivs[(i + k) % ivs.len()]);
                }
            }
        });
    }
    // degenerate round counts and a larger unit
    if ctx.part("round counts and unit lengths") {
        let mut g = grid(&[1, 3], &[1, 3], 1, &[0, 1, 2, 3, 5], &[0, 1, 2, 3, 4, 7], &[0, 2], &[0, 2], &[0, 1, 2], &[2]);
        g.extend(grid(&[2, 13], &[12, 20], 1, &[0, 1, 2, 4, 8], &[0, 1, 6, 12], &[0, 1], &[0, 3], &[0, 1], &[3]));
        for l in [2, 3, 7] { g.extend(grid(&[1, 4], &[1, 3], l, &[1, 2], &[1, 2], &[0, 1, 2], &[0, 2], &[0, 1, 2], &[0, 2])); }
        ctx.par(g.len(), |i| {
            let c = &g[i];
            let para = c.para();
            for key in [small_key(c.unit_l), large_key(c.unit_l)] {
                for pat in [0, 1, 2] { round_trip(ctx, c, &para, &pattern(pat, para.data_l), &key, &pattern(7, 128)); }
            }
        });
    }
    // 2. every content of a two-byte file
    if ctx.part("every content of a two-byte file") {
        let shapes: Vec<(usize, usize, usize)> = if ctx.quick() { vec![(2, 1, 0), (1, 2, 0)] } else { vec![(2, 1, 0), (1, 2, 0), (2, 1, 1), (1, 2, 1), (1, 2, 2)] };
        for (blocks, units, m) in shapes {
            let c = Cfg { blocks, units, unit_l: 1, seal: 1, vde: 1, ml: m, cl: 1, ms: m, cs: 1 };
            let para = c.para();
            let key = small_key(1);
            let step = ctx.pick(64, 256);
            ctx.par(step, |a| for x in (a * 256)..(a * 256 + 256) {
                // quick: first byte in steps of 4, second complete
                let (b0, b1) = if ctx.quick() { (x / 256 * 4 + 3, x % 256) } else { (x / 256, x % 256) };
                round_trip(ctx, &c, &para, &[b0 as u8, b1 as u8], &key, &vec![5; 4]);
            });
        }
    }
    // 3. counts at which the dependency rules change: more than 256 and 65536 positions, counts beyond the bits of an index
    if ctx.part("large counts") {
        let mut v = vec![];
        for (ml, cl) in [(0, 0), (0, 3), (0, 20), (1, 5), (2, 70), (3, 0)] {
            v.push(Cfg { blocks: 300, units: 2, unit_l: 1, seal: 1, vde: 1, ml, cl, ms: 1, cs: 1 });
            v.push(Cfg { blocks: 256, units: 1, unit_l: 1, seal: 1, vde: 1, ml, cl, ms: 0, cs: 1 });
            v.push(Cfg { blocks: 720, units: 1, unit_l: 1, seal: 1, vde: 1, ml, cl, ms: 2, cs: 1 });
        }
        for (ms, cs) in [(0, 1), (0, 10), (0, 40), (1, 10), (1, 300), (2, 70)] {
            for units in [256, 257, 300] { v.push(Cfg { blocks: 2, units, unit_l: 1, seal: 2, vde: 1, ml: 0, cl: 1, ms, cs }); }
        }
        v.push(Cfg { blocks: 1, units: 65537, unit_l: 1, seal: 1, vde: 1, ml: 1, cl: 1, ms: 0, cs: 3 });
        if !ctx.quick() {
            v.push(Cfg { blocks: 2, units: 65536, unit_l: 1, seal: 1, vde: 1, ml: 0, cl: 2, ms: 0, cs: 10 });
            v.push(Cfg { blocks: 65537, units: 1, unit_l: 1, seal: 1, vde: 1, ml: 0, cl: 4, ms: 0, cs: 1 });
            v.push(Cfg { blocks: 65537, units: 1, unit_l: 1, seal: 1, vde: 1, ml: 2, cl: 20, ms: 1, cs: 1 });
        }
        ctx.par(v.len(), |i| {
            let c = &v[v.len() - 1 - i];
            let para = c.para();
            round_trip(ctx, c, &para, &pattern(2 + i % 7, para.data_l), &if i % 2 == 0 { small_key(1) } else { large_key(1) }, &pattern(8, 128));
        });
    }
    if ctx.part("each dimension at many sizes") {
        let v = ladder(ctx.quick());
        ctx.bound("ladder", v.len());
        ctx.par(v.len(), |i| {
            let c = &v[v.len() - 1 - i];
            let para = c.para();
            round_trip(ctx, c, &para, &pattern(2 + i % 7, para.data_l), &ladder_key(c.unit_l, i % 2 == 0), &pattern(8, [128, 0, 1, 64, 200][i % 5]));
        });
    }
    if ctx.part("several large dimensions") {
        let v = combos(ctx.quick());
        ctx.bound("combinations", v.len());
        ctx.par(v.len(), |i| {
            let c = &v[v.len() - 1 - i];
            let para = c.para();
            round_trip(ctx, c, &para, &pattern(if i % 3 == 0 { 3 } else { 40 }, para.data_l), &ladder_key(c.unit_l, i % 2 == 0), &pattern(8, 128));
        });
    }
    if ctx.part("very many blocks or units") {
        let v: Vec<Cfg> = huge();
        ctx.par(v.len(), |i| {
            let c = &v[i];
            let para = c.para();
            round_trip(ctx, c, &para, &pattern(2 + i % 7, para.data_l), &ladder_key(c.unit_l, i % 2 == 0), &pattern(8, 128));
        });
    }
    // 4. the shipped presets and primes, with fewer blocks
    if ctx.part("shipped presets") {
        use storage_real::vde::rug_sloth::*;
        let mut v: Vec<(PosPara, &str, usize)> = vec![];
        for (l, n) in ctx.pick([(1, 12), (4, 3), (16, 2), (64, 1)], [(1, 64), (4, 16), (16, 6), (64, 2)]) {
            let mut p = gen_posdata(l);
            p.data_l = n * p.block_l;
            if ctx.quick() && l > 4 { p.vde_rounds = 2; p.seal_rounds = 1; }
            v.push((p, P_512, 3));
        }
        for (pl, key) in [(64, P_512), (128, P_1024), (256, P_2048)] {
            for pat in [0, 1, 2] {
                let c = Cfg { blocks: 3, units: 3, unit_l: pl - 1, seal: 2, vde: 2, ml: 0, cl: 0, ms: 0, cs: 10 };
                v.push((c.para(), key, pat));
            }
        }
        ctx.par(v.len(), |i| {
            let (p, k, pat) = &v[v.len() - 1 - i];
            let key: Integer = k.parse().unwrap();
            round_trip(ctx, &Cfg::of(p), p, &pattern(*pat, p.data_l), &key, &pattern(11, 128));
        });
    }
    history_seal(ctx, false);
    ctx.assume("the key is a prime congruent to 3 modulo 4 with 256^unit_l <= key <= 256^unit_pl, and sizes divide evenly");
}

/// Call histories: one thread, the same paths, every ordered pair of settings in a row. Each setting differs
/// from some other one in a single component (data, key, vector, sizes, rules, rounds).
struct Setting { c: Cfg, data: Vec<u8>, key: Integer, iv: Vec<u8>, sealed: Vec<u8>, ids: Vec<Vec<u8>> }
fn settings() -> Vec<Setting> {
    let b = Cfg { blocks: 6, units: 5, unit_l: 2, seal: 1, vde: 1, ml: 0, cl: 2, ms: 0, cs: 2 };
    let cs = [b, Cfg { ml: 1, ..b }, Cfg { cl: 1, ..b }, Cfg { ms: 1, ..b }, Cfg { cs: 1, ..b }, Cfg { seal: 2, ..b }, Cfg { vde: 2, ..b }, Cfg { blocks: 5, units: 6, ..b }, Cfg { blocks: 7, ..b }, Cfg { units: 15, blocks: 4, unit_l: 1, ..b }];
    let mut v = vec![];
    for c in cs { for d in [3usize, 4] { for k in 0..2 { for i in [7usize, 8] {
        // combinations other than of the base setting: only one more deviation
        if c != b && (d != 3) as u8 + (k != 0) as u8 + (i != 7) as u8 > 1 { continue; }
        let data = pattern(d, c.blocks * c.units * c.unit_l);
        let key = ladder_key(c.unit_l, k == 1);
        let iv = pattern(i, 16);
        let (sealed, ids) = ref_seal(&c, &blocks_of(&padded(&data, c.unit_l), &c), &key, &iv);
        v.push(Setting { c, data, key, iv, sealed: sealed.concat().concat(), ids });
    } } } }
    // blocks above the size of small buffers
    for (units, unit_l, blocks) in [(120usize, 2usize, 3usize), (120, 2, 1), (70, 4, 3)] { for d in [3usize, 4] {
        let c = Cfg { units, unit_l, blocks, ..b };
        let (data, key, iv) = (pattern(d, blocks * units * unit_l), ladder_key(unit_l, false), pattern(7, 16));
        let (sealed, ids) = ref_seal(&c, &blocks_of(&padded(&data, c.unit_l), &c), &key, &iv);
        v.push(Setting { c, data, key, iv, sealed: sealed.concat().concat(), ids });
    } }
    // a single byte of the original, near the end
    let mut data = v[0].data.clone();
    let l = data.len();
    data[l - 2] ^= 1;
    let (c, key, iv) = (v[0].c, v[0].key.clone(), v[0].iv.clone());
    let (sealed, ids) = ref_seal(&c, &blocks_of(&padded(&data, c.unit_l), &c), &key, &iv);
    v.push(Setting { c, data, key, iv, sealed: sealed.concat().concat(), ids });
    v
}
fn history_seal(ctx: &Ctx, exact: bool) {
    if !ctx.part("every pair of calls in a row") { return; }
    let v = settings();
    mc::with_scratch(|s| ctx.pairs(v.len(), |i| {
        let x = &v[i];
        let para = x.c.para();
        let r = mc::catch(|| {
            let (o, f, ids) = do_seal(&para, &x.data, &x.key, &x.iv, s);
            let sealed = get(&f);
            unseal(&para, &f, &x.key, &x.iv);
            (get(&o), sealed, ids, get(&f))
        });
        let d = || json!({"config": js(&x.c), "setting": i});
        match r {
            Err(p) => { ctx.violation("panic", &format!("sealing or unsealing failed at {}: {}", p.at, p.msg), d()); false }
            Ok((o, sealed, ids, plain)) => {
                if o != x.data || plain != padded(&x.data, x.c.unit_l) { ctx.violation("history", "sealing and unsealing after another call does not give the original", d()); return false; }
                if exact && (sealed != x.sealed || ids != x.ids) { ctx.violation("history", "sealing after another call does not give the sealed file of the definition", d()); return false; }
                true
            }
        }
    }));
}
fn history_unseal(ctx: &Ctx) {
    if !ctx.part("every pair of calls in a row") { return; }
    let v = settings();
    mc::with_scratch(|s| ctx.pairs(v.len(), |i| {
        let x = &v[i];
        let para = x.c.para();
        let f = s.path("sealed");
        put(&f, &x.sealed);
        let want = blocks_of(&padded(&x.data, x.c.unit_l), &x.c);
        let n = x.c.blocks;
        let d = || json!({"config": js(&x.c), "setting": i});
        for list in if n < 3 { vec![(0..n).rev().collect(), vec![0]] } else { vec![vec![n - 1, 1, 2], vec![2]] } {
            let out = mc::catch(|| {
                let pr: Vec<_> = list.iter().map(|b| single_unseal_prepare(&f, *b, &para)).collect();
                let mut bl = pr.iter().map(|p| p.0.clone()).collect();
                batch_unseal(&para, &list, &mut bl, &pr.iter().map(|p| p.1.clone()).collect(), &pr.iter().map(|p| p.2.clone()).collect(), &x.key, &x.iv)
            });
            match out { Ok(o) if o.len() == list.len() && list.iter().zip(&o).all(|(b, o)| *o == want[*b]) => {} _ => { ctx.violation("history", "unsealing blocks after another call does not return their original content", d()); return false; } }
        }
        match mc::catch(|| { let (i, mut bl, ids, dep) = batch_unseal_prepare(&f, para.block_pl - 1, n.min(3) * para.block_pl, &para); (i.clone(), batch_unseal(&para, &i, &mut bl, &ids, &dep, &x.key, &x.iv)) }) {
            Ok((i, o)) if i == (0..n.min(3)).collect::<Vec<_>>() && o.len() == i.len() && i.iter().all(|b| o[*b] == want[*b]) => true,
            _ => { ctx.violation("history", "unsealing a byte range after another call does not return the original blocks", d()); false }
        }
    }));
}
fn history_verify(ctx: &Ctx) {
    if !ctx.part("every pair of calls in a row") { return; }
    let v = settings();
    // each setting honest, and with a changed byte of the original
    mc::with_scratch(|s| ctx.pairs(2 * v.len(), |i| {
        let (x, bad) = (&v[i / 2], i % 2 == 1);
        let para = x.c.para();
        let (f, o) = (s.path("sealed"), s.path("origin"));
        put(&f, &x.sealed);
        let mut data = x.data.clone();
        let at = 1.min(x.c.blocks - 1);
        if bad { data[at * para.block_l + 1] ^= 0x40; }
        put(&o, &data);
        let ok = mc::catch(|| { let (i, bl, ids, dep) = batch_unseal_prepare(&f, 0, (at + 1) * para.block_pl, &para); batch_unseal_and_verify(&para, &o, &i, &bl, &ids, &dep, &x.key, &x.iv) }).is_ok();
        let blk = blocks_of(&padded(&x.data, x.c.unit_l), &x.c);
        let ok2 = mc::catch(|| batch_verify(&o, at, &blk[at], para.block_l, para.unit_l)).is_ok();
        if ok == bad || ok2 == bad { ctx.violation("history", if bad { "a verification after another call accepts other data" } else { "a verification after another call rejects the original" }, json!({"config": js(&x.c), "setting": i / 2})); return false; }
        true
    }));
}

pub fn t02(ctx: &Ctx) {
    history_unseal(ctx);
    let key = small_key(1);
    let q = ctx.quick();
    if ctx.part("subsets and byte ranges") {
        let g = grid(if q { &[1, 2, 4] } else { &[1, 2, 3, 5, 7] }, if q { &[1, 3] } else { &[1, 2, 3, 4] }, 1, &[1, 2], &[1], &[0, 1, 2, 3, 4], &[0, 1, 3], &[0, 1, 2], if q { &[2] } else { &[0, 1, 3, 10] });
        ctx.bound("configurations", g.len());
        ctx.par(g.len(), |i| subset_case(ctx, &g[i], &key, true));
    }
    if ctx.part("many blocks, all singles and ranges of whole and split blocks") {
        let g: Vec<Cfg> = [(0, 0), (0, 4), (1, 3), (2, 70), (3, 0)].iter().flat_map(|&(ml, cl)| [13usize, 31, 300].map(|blocks| Cfg { blocks, units: 2, unit_l: 1, seal: 1, vde: 1, ml, cl, ms: 0, cs: 1 })).collect();
        ctx.par(g.len(), |i| subset_case(ctx, &g[i], &key, false));
    }
    if ctx.part("each dimension at many sizes") {
        let v = ladder(ctx.quick());
        ctx.bound("ladder", v.len());
        ctx.par(v.len(), |i| { let c = &v[v.len() - 1 - i]; subset_case(ctx, c, &ladder_key(c.unit_l, i % 2 == 0), false) });
    }
    if ctx.part("several large dimensions") {
        let v = combos(ctx.quick());
        ctx.bound("combinations", v.len());
        ctx.par(v.len(), |i| {
            let c = &v[v.len() - 1 - i];
            let (para, key, iv) = (c.para(), ladder_key(c.unit_l, i % 2 == 0), pattern(7, 16));
            let plain = blocks_of(&padded(&pattern(40, para.data_l), c.unit_l), c);
            // what is sealed by the definition comes back, block by block and as a range
            let (sealed, _) = ref_seal(c, &plain, &key, &iv);
            mc::with_scratch(|s| {
                let f = s.path("sealed");
                put(&f, &sealed.concat().concat());
                let n = c.blocks;
                let mut list = vec![n - 1, 0, n / 2, 1.min(n - 1), n.saturating_sub(2)];
                if n > 40 { list.truncate(3); }
                let out = mc::catch(|| {
                    let pr: Vec<_> = list.iter().map(|b| single_unseal_prepare(&f, *b, &para)).collect();
                    let mut bl = pr.iter().map(|p| p.0.clone()).collect();
                    batch_unseal(&para, &list, &mut bl, &pr.iter().map(|p| p.1.clone()).collect(), &pr.iter().map(|p| p.2.clone()).collect(), &key, &iv)
                });
                if !matches!(&out, Ok(o) if o.len() == list.len() && list.iter().zip(o).all(|(b, o)| *o == plain[*b])) { return ctx.violation("subset", "unsealing a list of blocks does not return their original content", json!({"config": js(c), "blocks": list})); }
                let m = n.min(3);
                let out = mc::catch(|| { let (i, mut bl, ids, dep) = batch_unseal_prepare(&f, (n - m) * para.block_pl + 1, n * para.block_pl - 1, &para); (i.clone(), batch_unseal(&para, &i, &mut bl, &ids, &dep, &key, &iv)) });
                if !matches!(&out, Ok((i, o)) if *i == (n - m..n).collect::<Vec<_>>() && o[..] == plain[n - m..]) { return ctx.violation("range", "unsealing a byte range does not return the original blocks", json!({"config": js(c), "last_blocks": m})); }
                ctx.add(2, (list.len() + m) as u64, 2);
            });
        });
    }
    if ctx.part("very many blocks or units") {
        let v = huge();
        ctx.par(v.len(), |i| {
            let c = &v[i];
            let para = c.para();
            let (key, iv, data) = (ladder_key(1, i % 2 == 0), pattern(7, 16), pattern(3, para.data_l));
            let want = blocks_of(&padded(&data, c.unit_l), c);
            mc::with_scratch(|s| {
                let Ok((_, f, _)) = mc::catch(|| do_seal(&para, &data, &key, &iv, s)) else { ctx.cap("sealing failed, nothing to unseal"); return };
                let fail = |k: &str, what: &str, d: mc::serde_json::Value| ctx.violation(k, what, json!({"config": js(c), "case": d}));
                let mut at: Vec<usize> = [0usize, 1, 255, 256, 257, 32_767, 32_768, 32_769, 65_534, 65_535, 65_536, 65_537, c.blocks - 1].into_iter().filter(|b| *b < c.blocks).collect();
                at.sort();
                at.dedup();
                for w in at.iter().map(|b| vec![*b]).chain([at.clone()]) {
                    let out = mc::catch(|| {
                        let pr: Vec<_> = w.iter().map(|b| single_unseal_prepare(&f, *b, &para)).collect();
                        let mut bl = pr.iter().map(|p| p.0.clone()).collect();
                        batch_unseal(&para, &w, &mut bl, &pr.iter().map(|p| p.1.clone()).collect(), &pr.iter().map(|p| p.2.clone()).collect(), &key, &iv)
                    });
                    match out {
                        Err(p) => return fail("unseal-panic", &format!("unsealing failed: {}", p.msg), json!({"blocks": w})),
                        Ok(o) => if o.len() != w.len() || w.iter().zip(&o).any(|(&b, o)| *o != want[b]) { return fail("subset", "unsealing a list of blocks does not return their original content", json!({"blocks": w})); }
                    }
                    ctx.add(1, w.len() as u64, 1);
                }
                for b in at.iter().copied().filter(|b| b + 2 <= c.blocks) {
                    let (x, y) = (b * para.block_pl + 1, (b + 1) * para.block_pl + 1);
                    match mc::catch(|| { let (i, mut bl, ids, dep) = batch_unseal_prepare(&f, x, y, &para); (i.clone(), batch_unseal(&para, &i, &mut bl, &ids, &dep, &key, &iv)) }) {
                        Err(p) => return fail("range-panic", &format!("unsealing a byte range failed: {}", p.msg), json!({"range": [x, y]})),
                        Ok((i, o)) => if i != [b, b + 1] || o.len() != 2 || o[0] != want[b] || o[1] != want[b + 1] { return fail("range", "unsealing a byte range does not return the original blocks", json!({"range": [x, y], "blocks": i})); }
                    }
                    ctx.add(1, 2, 1);
                }
            });
        });
    }
    if ctx.part("larger units") {
        let g = grid(&[3], &[2, 3], 3, &[2], &[2], &[0, 1, 2], &[0, 2], &[0, 1, 2], &[2]);
        let key = large_key(3);
        ctx.par(g.len(), |i| subset_case(ctx, &g[i], &key, true));
    }
}
fn subset_case(ctx: &Ctx, c: &Cfg, key: &Integer, full: bool) {
    let para = c.para();
    let iv = pattern(7, 16);
    let data = pattern(3, para.data_l);
    let want = blocks_of(&padded(&data, c.unit_l), c);
    mc::with_scratch(|s| {
        let Ok((_, f, _)) = mc::catch(|| do_seal(&para, &data, key, &iv, s)) else { ctx.cap("sealing failed, nothing to unseal"); return };
        let sealed = get(&f);
        let fail = |key: &str, what: &str, d: mc::serde_json::Value| ctx.violation(key, what, json!({"config": js(c), "case": d}));
        let singles: Vec<_> = (0..c.blocks).map(|b| mc::catch(|| single_unseal_prepare(&f, b, &para))).collect();
        let mut prep = vec![];
        for (b, r) in singles.into_iter().enumerate() {
            match r { Ok(x) => prep.push(x), Err(p) => return fail("prepare-panic", &format!("preparing block {b} failed: {}", p.msg), json!({"block": b})) }
        }
        // what preparation hands out is the sealed block itself
        for (b, p) in prep.iter().enumerate() {
            if p.0.concat() != sealed[b * para.block_pl..(b + 1) * para.block_pl] { return fail("prepare-block", "preparing a block does not return its sealed bytes", json!({"block": b})); }
        }
        let run = |list: &[usize]| {
            let mut bl: Vec<_> = list.iter().map(|&b| prep[b].0.clone()).collect();
            let ids: Vec<_> = list.iter().map(|&b| prep[b].1.clone()).collect();
            let dep: Vec<_> = list.iter().map(|&b| prep[b].2.clone()).collect();
            let (ids0, dep0) = (ids.clone(), dep.clone());
            match mc::catch(|| batch_unseal(&para, &list.to_vec(), &mut bl, &ids, &dep, key, &iv)) {
                Err(p) => fail("unseal-panic", &format!("unsealing failed: {}", p.msg), json!({"blocks": list})),
                Ok(out) => {
                    if out.len() != list.len() || list.iter().zip(&out).any(|(&b, o)| *o != want[b]) {
                        fail("subset", "unsealing a list of blocks does not return their original content", json!({"blocks": list}));
                    }
                    if ids != ids0 || dep != dep0 { fail("inputs", "unsealing changed its inputs", json!({"blocks": list})); }
                }
            }
            ctx.add(1, list.len() as u64 + 1, 1);
        };
        if full {
            for set in mc::subsets(c.blocks) {
                run(&set);
                if set.len() > 1 { let mut r = set.clone(); r.reverse(); run(&r); let mut r = set.clone(); r.rotate_left(1); run(&r); }
            }
            // the same block twice in one list
            run(&[0, 0]);
        } else {
            for b in 0..c.blocks { run(&[b]); }
            if c.blocks > 1 { run(&[c.blocks - 1, 0]); run(&(0..c.blocks).step_by(2).collect::<Vec<_>>()); }
            run(&(0..c.blocks).collect::<Vec<_>>());
            run(&(0..c.blocks).rev().collect::<Vec<_>>());
            // blocks named again after every distance
            if c.blocks <= 70 { for d in 1..=c.blocks { if d > 35 && d % 8 > 1 { continue; } run(&(0..d).chain(0..d).chain((0..d).rev()).collect::<Vec<_>>()); } }
        }
        // byte ranges
        let pl = para.block_pl;
        let cuts: Vec<usize> = if full { (0..=sealed.len()).collect() }
            else { let mut v: Vec<usize> = (0..=c.blocks).filter(|b| *b < 4 || *b + 3 > c.blocks || (*b % 50 == 7 && c.blocks < 400)).flat_map(|b| [(b * pl).saturating_sub(1), b * pl, (b * pl + 1).min(sealed.len())]).collect(); v.dedup(); v };
        for (x, &a) in cuts.iter().enumerate() {
            for (y, &b) in cuts.iter().enumerate().skip(x) {
                // long ranges: only some of the pairs
                if !full && (b - a) / pl > 60 && (x + y) % 7 != 0 { continue; }
                let exp: Vec<usize> = if a == b { vec![] } else { (a / pl..=(b - 1) / pl).collect() };
                match mc::catch(|| { let (i, mut bl, ids, dep) = batch_unseal_prepare(&f, a, b, &para); let bl0 = bl.clone(); (i.clone(), bl0, batch_unseal(&para, &i, &mut bl, &ids, &dep, key, &iv)) }) {
                    Err(p) => return fail("range-panic", &format!("unsealing a byte range failed: {}", p.msg), json!({"range": [a, b]})),
                    Ok((i, bl, out)) => {
                        if i != exp { return fail("range-blocks", "a byte range selects the wrong blocks", json!({"range": [a, b], "got": i, "want": exp})); }
                        if bl.len() != i.len() || bl.iter().zip(&i).any(|(x, &b)| *x != prep[b].0) { return fail("range-prepare", "a byte range prepares other blocks than asked one by one", json!({"range": [a, b]})); }
                        if out.len() != i.len() || out.iter().zip(&i).any(|(o, &b)| *o != want[b]) { return fail("range", "unsealing a byte range does not return the original blocks", json!({"range": [a, b]})); }
                    }
                }
                ctx.add(1, exp.len() as u64 + 1, 1);
            }
            if ctx.stopped() { return; }
        }
        if get(&f) != sealed { fail("sealed-changed", "unsealing blocks changed the sealed file", json!(null)); }
        ctx.add(1, 0, 0);
    });
}

pub fn t08(ctx: &Ctx) {
    history_verify(ctx);
    // content comparison alone
    if ctx.part("content comparison") {
        let shapes: Vec<(usize, usize, usize)> = ctx.pick(vec![(1, 1, 1), (2, 1, 1), (2, 3, 1), (3, 2, 2), (1, 2, 3)], vec![(1, 1, 1), (2, 1, 1), (2, 3, 1), (3, 2, 2), (1, 2, 3), (4, 5, 2), (2, 4, 7)]);
        ctx.par(shapes.len(), |i| {
            let (blocks, units, unit_l) = shapes[i];
            let c = Cfg { blocks, units, unit_l, seal: 1, vde: 1, ml: 1, cl: 1, ms: 1, cs: 1 };
            let para = c.para();
            mc::with_scratch(|s| for pat in [0, 2] {
                let data = pattern(pat, para.data_l);
                let o = s.path("o");
                put(&o, &data);
                let want = blocks_of(&padded(&data, unit_l), &c);
                for b in 0..blocks {
                    let ok = mc::catch(|| batch_verify(&o, b, &want[b], para.block_l, unit_l)).is_ok();
                    ctx.add(1, 1, 1);
                    if !ok { ctx.violation("reject-honest", "content verification rejects the original content", json!({"config": js(&c), "block": b})); }
                    for u in 0..units { for k in 0..=unit_l { for v in 0..=255u8 {
                        let mut x = want[b].clone();
                        x[u][k] = v;
                        let same = x[u][..unit_l] == want[b][u][..unit_l];
                        let ok = mc::catch(|| batch_verify(&o, b, &x, para.block_l, unit_l)).is_ok();
                        ctx.add(1, 1, 1);
                        if ok != same { ctx.violation("verify", &format!("content verification {} a block whose data {}", if ok { "accepts" } else { "rejects" }, if same { "is original" } else { "differs" }), json!({"config": js(&c), "block": b, "unit": u, "byte": k, "value": v})); }
                    } } }
                    // data bytes that are missing do not equal the original
                    for n in 0..units {
                        let x = want[b][..n].to_vec();
                        if mc::catch(|| batch_verify(&o, b, &x, para.block_l, unit_l)).is_ok() { ctx.violation("verify-short", "content verification accepts a block with missing units", json!({"config": js(&c), "block": b, "units": n})); }
                        for k in 0..unit_l {
                            let mut x = want[b].clone();
                            x[n].truncate(k);
                            if mc::catch(|| batch_verify(&o, b, &x, para.block_l, unit_l)).is_ok() { ctx.violation("verify-short", "content verification accepts a unit with missing bytes", json!({"config": js(&c), "block": b, "unit": n, "bytes": k})); }
                        }
                        ctx.add(1, 1, 1 + unit_l as u64);
                    }
                    // compared with another block's content
                    for b2 in 0..blocks {
                        let ok = mc::catch(|| batch_verify(&o, b2, &want[b], para.block_l, unit_l)).is_ok();
                        ctx.add(1, 1, 1);
                        if ok != (want[b2] == want[b]) { ctx.violation("verify-index", "content verification compares with the wrong block", json!({"config": js(&c), "block": b, "as": b2})); }
                    }
                }
            });
        });
    }
    if ctx.part("unseal and verify") {
        let q = ctx.quick();
        let g = grid(if q { &[1, 3] } else { &[1, 2, 3, 4] }, if q { &[1, 2, 3] } else { &[1, 2, 3, 4] }, 1, &[1, 2], &[1], &[0, 1, 2], &[0, 2], &[0, 1, 2], &[0, 2]);
        let key = small_key(1);
        let other = large_key(1);
        ctx.bound("configurations", g.len());
        ctx.par(g.len(), |i| verify_case(ctx, &g[i], &key, &other));
    }
    // one altered byte anywhere in blocks of many sizes
    if ctx.part("content comparison, many sizes") {
        let mut shapes = vec![];
        for n in (1..=ctx.pick(40usize, 140)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]) { shapes.push((2usize, n, 2usize)); shapes.push((n, 2, 2)); shapes.push((2, 2, n)); }
        ctx.par(shapes.len(), |i| {
            let (blocks, units, unit_l) = shapes[i];
            let c = Cfg { blocks, units, unit_l, seal: 1, vde: 1, ml: 1, cl: 1, ms: 1, cs: 1 };
            let para = c.para();
            mc::with_scratch(|s| {
                let data = pattern(2, para.data_l);
                let o = s.path("o");
                put(&o, &data);
                let want = blocks_of(&padded(&data, unit_l), &c);
                for b in 0..blocks {
                    if mc::catch(|| batch_verify(&o, b, &want[b], para.block_l, unit_l)).is_err() { return ctx.violation("reject-honest", "content verification rejects the original content", json!({"config": js(&c), "block": b})); }
                    for u in 0..units { for k in 0..unit_l { for v in [1u8, 0x80] {
                        let mut x = want[b].clone();
                        x[u][k] ^= v;
                        if mc::catch(|| batch_verify(&o, b, &x, para.block_l, unit_l)).is_ok() { return ctx.violation("verify", "content verification accepts a block whose data differs", json!({"config": js(&c), "block": b, "unit": u, "byte": k, "xor": v})); }
                        ctx.add(1, 1, 1);
                    } } }
                    // several differences that could cancel out
                    if units > 1 { let mut x = want[b].clone(); x[0][0] ^= 1; x[units - 1][0] ^= 1; if mc::catch(|| batch_verify(&o, b, &x, para.block_l, unit_l)).is_ok() { return ctx.violation("verify", "content verification accepts two altered bytes", json!({"config": js(&c), "block": b})); } }
                    if units > 1 && want[b][0] != want[b][1] { let mut x = want[b].clone(); x.swap(0, 1); if mc::catch(|| batch_verify(&o, b, &x, para.block_l, unit_l)).is_ok() { return ctx.violation("verify", "content verification accepts exchanged units", json!({"config": js(&c), "block": b})); } }
                }
            });
        });
    }
    if ctx.part("content comparison, large blocks") {
        let shapes = [(1usize, 513usize, 1usize), (2, 1025, 2), (1, 4097, 1), (1, 66_000, 1), (2, 3, 513), (1, 2, 1025), (1, 2, 5000), (1, 1, 70_000), (66_000, 1, 1), (3, 70, 63), (2, 64, 63), (1, 256, 63), (2, 270, 127)];
        ctx.par(shapes.len(), |i| {
            let (blocks, units, unit_l) = shapes[i];
            let c = Cfg { blocks, units, unit_l, seal: 1, vde: 1, ml: 1, cl: 1, ms: 1, cs: 1 };
            let para = c.para();
            mc::with_scratch(|s| {
                let data = pattern(2, para.data_l);
                let o = s.path("o");
                put(&o, &data);
                let want = blocks_of(&padded(&data, unit_l), &c);
                for b in marks(blocks, 12) {
                    if mc::catch(|| batch_verify(&o, b, &want[b], para.block_l, unit_l)).is_err() { return ctx.violation("reject-honest", "content verification rejects the original content", json!({"config": js(&c), "block": b})); }
                    let mut x = want[b].clone();
                    for u in marks(units, ctx.pick(600, 5000)) { for k in marks(unit_l, ctx.pick(300, 1500)) {
                        // thinned inside the largest ones; the first and last unit and the ends of each unit are complete
                        if units > 40 && unit_l > 40 && para.block_l > 17_000 && u > 0 && u + 1 < units && k > 0 && k + 1 < unit_l && u * unit_l + k > 600 && (u * 31 + k * 7) % 11 != 0 { continue; }
                        x[u][k] ^= 1;
                        let ok = mc::catch(|| batch_verify(&o, b, &x, para.block_l, unit_l)).is_ok();
                        x[u][k] ^= 1;
                        if ok { return ctx.violation("verify", "content verification accepts a block whose data differs", json!({"config": js(&c), "block": b, "unit": u, "byte": k})); }
                        ctx.add(1, 1, 1);
                    } }
                    if ctx.stopped() { return; }
                }
            });
        });
    }
    if ctx.part("unseal and verify, every byte of large units") {
        // nothing was sealed (no rounds), so a changed byte stays one changed byte
        let shapes = [(2usize, 3usize, 63usize), (1, 64, 63), (2, 2, 127), (1, 2, 255), (1, 3, 256), (1, 2, 513), (1, 600, 1), (2, 1030, 1), (1, 300, 2), (300, 1, 1)];
        ctx.par(shapes.len(), |i| {
            let (blocks, units, unit_l) = shapes[i];
            let c = Cfg { blocks, units, unit_l, seal: 0, vde: 1, ml: 1, cl: 1, ms: 1, cs: 1 };
            let para = c.para();
            let key = ladder_key(unit_l, true);
            let iv = pattern(7, 5);
            mc::with_scratch(|s| {
                let data = pattern(4, para.data_l);
                let o = s.path("o");
                put(&o, &data);
                let plain = blocks_of(&padded(&data, unit_l), &c);
                let list: Vec<usize> = marks(blocks, 8);
                let (ids, dep) = (vec![vec![]; list.len()], vec![vec![]; list.len()]);
                let mut bl: Vec<_> = list.iter().map(|b| plain[*b].clone()).collect();
                let verify = |bl: &Vec<Vec<Vec<u8>>>| mc::catch(|| batch_unseal_and_verify(&para, &o, &list, bl, &ids, &dep, &key, &iv)).is_ok();
                if !verify(&bl) { return ctx.violation("reject-honest", "unseal-and-verify rejects honest blocks", json!({"config": js(&c), "blocks": list})); }
                for k in 0..list.len() { for u in marks(units, ctx.pick(300, 5000)) { for y in marks(unit_l, ctx.pick(200, 2000)) {
                    bl[k][u][y] ^= 1;
                    let ok = verify(&bl);
                    bl[k][u][y] ^= 1;
                    if ok { return ctx.violation("altered", "unseal-and-verify accepts although the data comes out wrong", json!({"config": js(&c), "block": list[k], "unit": u, "byte": y})); }
                    ctx.add(1, 1, 1);
                } } if ctx.stopped() { return; } }
            });
        });
    }
    if ctx.part("unseal and verify, many sizes") {
        let v = ladder(ctx.quick());
        let key = small_key(1);
        ctx.par(v.len(), |i| { let c = &v[v.len() - 1 - i]; if c.unit_l == 1 || !ctx.quick() { ladder_verify(ctx, c, &if c.unit_l == 1 { key.clone() } else { ladder_key(c.unit_l, i % 2 == 0) }) } });
    }
    if ctx.part("unseal and verify, several large dimensions") {
        let v = combos(ctx.quick());
        ctx.par(v.len(), |i| { let c = &v[v.len() - 1 - i]; if c.seal * c.vde < 3 || !ctx.quick() { ladder_verify(ctx, c, &ladder_key(c.unit_l, i % 2 == 0)) } });
    }
    if ctx.part("unseal and verify, very many blocks or units") {
        let v = huge();
        ctx.par(v.len(), |i| ladder_verify(ctx, &v[i], &small_key(1)));
    }
    if ctx.part("unseal and verify, larger units") {
        let g = grid(&[2], &[2], 3, &[1], &[2], &[0, 1], &[1], &[0, 1], &[1]);
        let (key, other) = (large_key(3), small_key(3));
        ctx.par(g.len(), |i| verify_case(ctx, &g[i], &key, &other));
    }
}
fn verify_case(ctx: &Ctx, c: &Cfg, key: &Integer, other: &Integer) {
    let para = c.para();
    let iv = pattern(7, 5);
    let data = pattern(4, para.data_l);
    mc::with_scratch(|s| {
        let Ok((o, f, _)) = mc::catch(|| do_seal(&para, &data, key, &iv, s)) else { ctx.cap("sealing failed, nothing to verify"); return };
        type Prep = (Vec<Vec<u8>>, Vec<u8>, Vec<Vec<Vec<u8>>>);
        let mut prep: Vec<Prep> = vec![];
        for b in 0..c.blocks { match mc::catch(|| single_unseal_prepare(&f, b, &para)) { Ok(x) => prep.push(x), Err(_) => { ctx.cap("preparing failed"); return } } }
        let verify = |list: &[usize], pr: &[Prep], key: &Integer, iv: &Vec<u8>| {
            let bl: Vec<_> = list.iter().map(|&b| pr[b].0.clone()).collect();
            let ids: Vec<_> = list.iter().map(|&b| pr[b].1.clone()).collect();
            let dep: Vec<_> = list.iter().map(|&b| pr[b].2.clone()).collect();
            mc::catch(|| batch_unseal_and_verify(&para, &o, &list.to_vec(), &bl, &ids, &dep, key, iv)).is_ok()
        };
        let right = |list: &[usize], pr: &[Prep], key: &Integer, iv: &Vec<u8>| list.iter().all(|&b| {
            let u = ref_unseal_block(c, &pr[b].0, b, &pr[b].1, &pr[b].2, key, iv);
            u.iter().flat_map(|u| u[..c.unit_l].to_vec()).eq(data[b * para.block_l..(b + 1) * para.block_l].iter().copied())
        });
        for list in mc::subsets(c.blocks) {
            let ok = verify(&list, &prep, key, &iv);
            ctx.add(1, list.len() as u64, 1);
            if !ok { ctx.violation("reject-honest", "unseal-and-verify rejects honest sealed blocks", json!({"config": js(c), "blocks": list})); return; }
        }
        let judge = |list: &[usize], pr: &[Prep], key: &Integer, iv: &Vec<u8>, what: mc::serde_json::Value| {
            let ok = verify(list, pr, key, iv);
            let exp = right(list, pr, key, iv);
            ctx.add(1, list.len() as u64, 1);
            if exp { ctx.count("alterations_without_effect", 1); } else { ctx.count("alterations_with_effect", 1); }
            if ok != exp { ctx.violation("altered", &format!("unseal-and-verify {} although the data comes out {}", if ok { "accepts" } else { "rejects" }, if exp { "right" } else { "wrong" }), json!({"config": js(c), "blocks": list, "alteration": what})); }
        };
        // every list that contains the altered block, up to the whole file
        let lists = |b: usize| { let mut v = vec![vec![b]]; if c.blocks > 1 { v.push((0..c.blocks).collect()); } v };
        let deltas: &[u8] = &[1, 0x80, 0x55];
        for b in 0..c.blocks {
            for d in deltas {
                for u in 0..c.units { for k in 0..=c.unit_l {
                    let mut p = prep.clone();
                    p[b].0[u][k] ^= d;
                    for l in lists(b) { judge(&l, &p, key, &iv, json!({"block": b, "unit": u, "byte": k, "xor": d})); }
                } }
                for k in 0..prep[b].1.len() {
                    if k % 7 != 0 && k != 31 { continue; }
                    let mut p = prep.clone();
                    p[b].1[k] ^= d;
                    for l in lists(b) { judge(&l, &p, key, &iv, json!({"block": b, "predecessor_id_byte": k, "xor": d})); }
                }
                for j in 0..prep[b].2.len() { for u in 0..c.units { for k in 0..=c.unit_l {
                    let mut p = prep.clone();
                    p[b].2[j][u][k] ^= d;
                    for l in lists(b) { judge(&l, &p, key, &iv, json!({"block": b, "dependency": j, "unit": u, "byte": k, "xor": d})); }
                } } }
                for k in 0..iv.len() {
                    let mut w = iv.clone();
                    w[k] ^= d;
                    for l in lists(b) { judge(&l, &prep, key, &w, json!({"iv_byte": k, "xor": d})); }
                }
            }
            for l in lists(b) { judge(&l, &prep, other, &iv, json!({"key": other.to_string()})); }
            // a block presented as another one
            for b2 in 0..c.blocks { if b2 != b { let mut p = prep.clone(); p[b] = prep[b2].clone(); for l in lists(b) { judge(&l, &p, key, &iv, json!({"block": b, "replaced_by": b2})); } } }
            if ctx.stopped() { return; }
        }
    });
}

/// honest blocks accepted, one altered byte at the ends and in the middle of a few blocks rejected
fn ladder_verify(ctx: &Ctx, c: &Cfg, key: &Integer) {
    let para = c.para();
    let iv = pattern(7, 5);
    let data = pattern(4, para.data_l);
    mc::with_scratch(|s| {
        let Ok((o, f, _)) = mc::catch(|| do_seal(&para, &data, key, &iv, s)) else { ctx.cap("sealing failed, nothing to verify"); return };
        let mut list = vec![0, c.blocks / 2, c.blocks - 1];
        list.dedup();
        let mut prep = vec![];
        for &b in &list { match mc::catch(|| single_unseal_prepare(&f, b, &para)) { Ok(x) => prep.push(x), Err(_) => { ctx.cap("preparing failed"); return } } }
        let verify = |bl: &Vec<Vec<Vec<u8>>>| mc::catch(|| batch_unseal_and_verify(&para, &o, &list, bl, &prep.iter().map(|p| p.1.clone()).collect(), &prep.iter().map(|p| p.2.clone()).collect(), key, &iv)).is_ok();
        let bl: Vec<_> = prep.iter().map(|p| p.0.clone()).collect();
        if !verify(&bl) { return ctx.violation("reject-honest", "unseal-and-verify rejects honest sealed blocks", json!({"config": js(c), "blocks": list})); }
        ctx.add(1, 1, 1);
        for (k, &b) in list.iter().enumerate() {
            // cheap configurations: more positions
            let us = marks(c.units, if c.units * c.seal * c.vde > 600 { 3 } else { 24 });
            for (j, u) in us.into_iter().enumerate() {
                let mut x = bl.clone();
                x[k][u][j % (c.unit_l + 1)] ^= 1;
                let ok = verify(&x);
                let out = ref_unseal_block(c, &x[k], b, &prep[k].1, &prep[k].2, key, &iv);
                let exp = out.iter().flat_map(|u| u[..c.unit_l].to_vec()).eq(data[b * para.block_l..(b + 1) * para.block_l].iter().copied());
                if ok != exp { return ctx.violation("altered", &format!("unseal-and-verify {} although the data comes out {}", if ok { "accepts" } else { "rejects" }, if exp { "right" } else { "wrong" }), json!({"config": js(c), "block": b, "unit": u})); }
                ctx.add(1, 1, 1);
            }
        }
    });
}

pub fn t13(ctx: &Ctx) {
    history_seal(ctx, true);
    let conform = |c: &Cfg, key: &Integer, iv: &Vec<u8>, pat: usize| {
        let para = c.para();
        let data = pattern(pat, para.data_l);
        let (sealed, ids) = ref_seal(c, &blocks_of(&padded(&data, c.unit_l), c), key, iv);
        let r = mc::with_scratch(|s| mc::catch(|| { let (_, f, i) = do_seal(&para, &data, key, iv, s); (get(&f), i) }));
        let d = json!({"config": js(c), "key": key.to_string(), "pattern": pat});
        match r {
            Err(_) => ctx.cap("sealing failed"),
            Ok((f, i)) => {
                if f != sealed.concat().concat() {
                    let at = f.iter().zip(sealed.concat().concat().iter()).position(|(a, b)| a != b);
                    ctx.violation("sealed", "the sealed file is not the one the sealing definition gives", json!({"case": d, "first_difference": at}));
                }
                if i != ids { ctx.violation("ids", "the returned block identities are not the hashes of the sealed blocks", d); }
            }
        }
        ctx.add(c.blocks as u64, (c.blocks * c.units * c.seal) as u64, 1);
    };
    let q = ctx.quick();
    if ctx.part("conformance with the sealing definition") {
        let mut g = grid(if q { &[1, 2, 3, 12] } else { &[1, 2, 3, 4, 8, 13, 23] }, if q { &[1, 2, 5] } else { &[1, 2, 3, 5, 9] }, 1, &[1, 2, 3], &[1, 2], &[0, 1, 2, 3, 4], &[0, 1, 3], &[0, 1, 2, 3], if q { &[0, 1, 10] } else { &[0, 1, 2, 4, 10, 24] });
        g.extend(grid(&[1, 4], &[3], 2, &[2], &[1, 3], &[0, 1, 2, 3], &[0, 1, 20], &[0, 1, 2], &[2, 20]));
        ctx.bound("configurations", g.len());
        let ivs = ivs();
        ctx.par(g.len(), |i| { conform(&g[i], &if i % 2 == 0 { small_key(g[i].unit_l) } else { large_key(g[i].unit_l) }, &ivs[i % ivs.len()], 2 + i % 3) });
        let v = ladder(q);
        ctx.bound("ladder", v.len());
        ctx.par(v.len(), |i| { let c = &v[v.len() - 1 - i]; conform(c, &ladder_key(c.unit_l, i % 2 == 0), &pattern(8, [128, 0, 1, 64, 200][i % 5]), 2 + i % 3) });
        let v = combos(q);
        ctx.bound("combinations", v.len());
        ctx.par(v.len(), |i| { let c = &v[v.len() - 1 - i]; conform(c, &ladder_key(c.unit_l, i % 2 == 0), &pattern(8, 128), if i % 3 == 0 { 3 } else { 40 }) });
        // counts at which the rules change
        let mut v = vec![];
        for (ml, cl) in [(0, 0), (0, 3), (0, 40), (1, 5), (2, 70), (3, 0)] { for blocks in [256, 257, 300] { v.push(Cfg { blocks, units: 1, unit_l: 1, seal: 1, vde: 1, ml, cl, ms: 1, cs: 1 }); } }
        for (ms, cs) in [(0, 1), (0, 40), (1, 300), (2, 70)] { for units in [256, 257, 300] { v.push(Cfg { blocks: 2, units, unit_l: 1, seal: 1, vde: 1, ml: 0, cl: 1, ms, cs }); } }
        v.push(Cfg { blocks: 1, units: 65537, unit_l: 1, seal: 1, vde: 1, ml: 0, cl: 1, ms: 0, cs: 2 });
        ctx.par(v.len(), |i| conform(&v[v.len() - 1 - i], &small_key(1), &vec![1, 2, 3], 5));
        // production sizes
        let p512: Integer = storage_real::vde::rug_sloth::P_512.parse().unwrap();
        let v = [Cfg { blocks: 3, units: 4, unit_l: 63, seal: 2, vde: 3, ml: 0, cl: 0, ms: 0, cs: 10 }, Cfg { blocks: 12, units: 2, unit_l: 63, seal: 1, vde: 10, ml: 0, cl: 0, ms: 1, cs: 2 }];
        ctx.par(v.len(), |i| conform(&v[i], &p512, &pattern(5, 128), 3));
    }
    if ctx.part("influence of IV and earlier blocks") {
        let g = grid(&[4], &[1, 2, 3], 1, &[1, 2], &[1], &[0, 1, 2, 4], &[0, 2], &[0, 1, 3], &[0, 2]);
        ctx.par(g.len(), |i| {
            let c = &g[i];
            let para = c.para();
            let key = large_key(1);
            let iv = pattern(7, 6);
            let data = pattern(6, para.data_l);
            mc::with_scratch(|s| {
                let mut run = |d: &[u8], iv: &Vec<u8>| mc::catch(|| { let (_, f, ids) = do_seal(&para, d, &key, iv, s); (get(&f), ids) }).ok();
                let Some(base) = run(&data, &iv) else { ctx.cap("sealing failed"); return };
                if run(&data, &iv).as_ref() != Some(&base) { ctx.violation("repeat", "sealing the same input twice gives different results", json!({"config": js(c)})); }
                let changed_from = |r: Option<(Vec<u8>, Vec<Vec<u8>>)>, from: usize, what: mc::serde_json::Value| {
                    let Some(r) = r else { return };
                    ctx.add(1, c.blocks as u64, 1);
                    for b in 0..c.blocks {
                        let same = r.0[b * para.block_pl..(b + 1) * para.block_pl] == base.0[b * para.block_pl..(b + 1) * para.block_pl];
                        if b >= from && same { ctx.count("coincidences", 1); }
                        if b < from && !same { ctx.violation("early-change", "a later change altered an earlier sealed block", json!({"config": js(c), "change": what, "block": b})); }
                        if b >= from && (r.1[b] == base.1[b]) != same { ctx.violation("id", "a block identity does not follow the sealed block", json!({"config": js(c), "change": what, "block": b})); }
                    }
                    // with two-byte units a coincidence in a one-unit block has probability 2^-16; the whole tail never stays
                    if (from..c.blocks).all(|b| r.0[b * para.block_pl..(b + 1) * para.block_pl] == base.0[b * para.block_pl..(b + 1) * para.block_pl]) {
                        ctx.violation("no-influence", "a change of the input left every later sealed block unchanged", json!({"config": js(c), "change": what}));
                    }
                    // against the definition: exactly the blocks that change there
                };
                for k in 0..iv.len() { let mut w = iv.clone(); w[k] ^= 1; let r = run(&data, &w); changed_from(r, 0, json!({"iv_byte": k})); }
                for k in 0..data.len() { let mut d = data.clone(); d[k] ^= 1; let r = run(&d, &iv); changed_from(r, k / para.block_l, json!({"data_byte": k})); }
            });
        });
    }
    if ctx.part("influence, production unit size") {
        // 512-bit units: no coincidences, every later block has to change
        let p512: Integer = storage_real::vde::rug_sloth::P_512.parse().unwrap();
        let g = grid(&[3], &[2], 63, &[1], &[1], &[0, 1, 2, 4], &[1], &[0, 1, 3], &[0, 1]);
        ctx.par(g.len(), |i| {
            let c = &g[i];
            let para = c.para();
            let iv = pattern(7, 128);
            let data = pattern(6, para.data_l);
            mc::with_scratch(|s| {
                let mut run = |d: &[u8], iv: &Vec<u8>| mc::catch(|| { let (_, f, _) = do_seal(&para, d, &p512, iv, s); get(&f) }).ok();
                let Some(base) = run(&data, &iv) else { ctx.cap("sealing failed"); return };
                let check = |r: Option<Vec<u8>>, from: usize, what: mc::serde_json::Value| {
                    let Some(r) = r else { return };
                    ctx.add(1, c.blocks as u64, 1);
                    for b in from..c.blocks { if r[b * para.block_pl..(b + 1) * para.block_pl] == base[b * para.block_pl..(b + 1) * para.block_pl] {
                        ctx.violation("no-influence", "a change of the input left a later sealed block unchanged", json!({"config": js(c), "change": what, "block": b}));
                    } }
                };
                for k in (0..128).step_by(ctx.pick(9, 1)).chain([127]) { let mut w = iv.clone(); w[k] ^= 1; let r = run(&data, &w); check(r, 0, json!({"iv_byte": k})); }
                for k in (0..data.len()).step_by(ctx.pick(13, 1)).chain([data.len() - 1]) { let mut d = data.clone(); d[k] ^= 0x80; let r = run(&d, &iv); check(r, k / para.block_l, json!({"data_byte": k})); }
            });
        });
    }
}
