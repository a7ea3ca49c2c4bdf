//! T09 (Merkle), T10 (padding), T11 (public data), T12 (random source), T14 (I/O faults), T16 (pipeline).
use super::util::*;
use mc::{serde_json::json, Ctx};
use rs_merkle::{algorithms::Sha256, Hasher};
use rug::Integer;
use std::collections::{BTreeMap, BTreeSet};
use storage_real::proof_of_storage::{common::read_file, merkle_tree::*, postorage::*, prover::*, verifier::*};
use sys::io::{with_faults, Fault};

fn ref_root(leaves: &[[u8; 32]]) -> [u8; 32] {
    // an odd node is carried up
    let mut l = leaves.to_vec();
    while l.len() > 1 { l = l.chunks(2).map(|c| if c.len() == 2 { Sha256::hash(&[c[0], c[1]].concat()) } else { c[0] }).collect(); }
    l[0]
}

pub fn t09(ctx: &Ctx) {
    if ctx.part("roots") {
        let shapes: Vec<(usize, usize)> = (1..=ctx.pick(9usize, 17)).flat_map(|n| [(n, 1usize), (n, 3)]).collect();
        ctx.par(shapes.len(), |k| {
            let (n, l) = shapes[k];
            let data = pattern(2, n * l);
            let d = json!({"leaves": n, "leaf_len": l});
            mc::with_scratch(|s| {
                let f = s.path("m");
                let mut root_of = |x: &[u8]| { put(&f, x); mc::catch(|| { let (lv, _, r) = generate_merkle_tree_from_file(&f, n * l, l); (lv, r) }) };
                let Ok((leaves, root)) = root_of(&data) else { return ctx.violation("panic", "building the tree fails", d) };
                let want: Vec<[u8; 32]> = data.chunks(l).map(Sha256::hash).collect();
                if leaves != want { ctx.violation("leaves", "the leaves are not the hashes of the blocks in order", d.clone()); }
                if root != ref_root(&want) { ctx.violation("root", "the root is not the root of the tree over the leaves", d.clone()); }
                let mem = mc::catch(|| { let (lv, _, r) = generate_merkle_tree_from_data(&data.chunks(l).map(|c| c.to_vec()).collect()); (lv, r) });
                if mem.ok() != Some((want.clone(), root)) { ctx.violation("memory", "the tree from memory differs from the tree from the file", d.clone()); }
                ctx.add(1, 2, 2);
                for i in 0..data.len() { for x in [1u8, 0x80, 0xff] {
                    let mut c = data.clone();
                    c[i] ^= x;
                    if root_of(&c).map(|r| r.1).ok() == Some(root) { ctx.violation("collision", "the root does not change with the data", json!({"leaves": n, "leaf_len": l, "byte": i})); }
                    ctx.add(1, 1, 1);
                } }
                for i in 0..n { for j in i + 1..n { if data[i * l..(i + 1) * l] != data[j * l..(j + 1) * l] {
                    let mut c: Vec<Vec<u8>> = data.chunks(l).map(|c| c.to_vec()).collect();
                    c.swap(i, j);
                    if root_of(&c.concat()).map(|r| r.1).ok() == Some(root) { ctx.violation("order", "the root does not change when blocks are exchanged", json!({"leaves": n, "leaf_len": l, "blocks": [i, j]})); }
                    ctx.add(1, 1, 1);
                } } }
                // fewer or more blocks
                for m in 1..n + 3 { if m != n {
                    let x = pattern(2, m * l);
                    put(&f, &x);
                    let r = mc::catch(|| generate_merkle_tree_from_file(&f, m * l, l).2);
                    if r.ok() == Some(root) { ctx.violation("count", "trees over different numbers of blocks have one root", json!({"leaves": [n, m]})); }
                    ctx.add(1, 1, 1);
                } }
            });
        });
        // data whose length is no multiple of the block length: every byte counts, the last block is filled up with zeros
        for n in 1..=ctx.pick(12usize, 24) { for l in 1..=7usize { mc::with_scratch(|s| {
            if n % l == 0 { return; }
            let f = s.path("m");
            let data = pattern(2, n);
            let d = json!({"data_len": n, "leaf_len": l});
            let want: Vec<[u8; 32]> = data.chunks(l).map(|c| { let mut c = c.to_vec(); c.resize(l, 0); Sha256::hash(&c) }).collect();
            put(&f, &data);
            match mc::catch(|| { let (lv, _, r) = generate_merkle_tree_from_file(&f, n, l); (lv, r) }) { Ok((lv, r)) if lv == want && r == ref_root(&want) => {} _ => return ctx.violation("last-block", "the tree over data that ends within a block is not the tree over all blocks, the last one filled up with zeros", d) }
            ctx.add(1, 1, 1);
        }) } }
        // the file is not changed, and what lies behind the data does not count
        mc::with_scratch(|s| {
            let f = s.path("m");
            let mut x = pattern(2, 12);
            x.extend([9, 9, 9]);
            put(&f, &x);
            let a = mc::catch(|| generate_merkle_tree_from_file(&f, 12, 4).2).ok();
            if get(&f) != x { ctx.violation("file", "building the tree changes the file", json!(null)); }
            put(&f, &x[..12]);
            if a != mc::catch(|| generate_merkle_tree_from_file(&f, 12, 4).2).ok() { ctx.violation("beyond", "bytes behind the data change the root", json!(null)); }
        });
    }
    if ctx.part("every pair of calls in a row") {
        // one path; contents that agree in size, in both ends, or in all but one byte
        let mut v: Vec<(Vec<u8>, usize)> = vec![];
        for (n, l) in [(5usize, 40usize), (8, 25), (5, 41)] { for p in [3, 4] { v.push((pattern(p, n * l), l)); } }
        for at in [0usize, 39, 100, 160, 199] { let mut x = v[0].0.clone(); x[at] ^= 1; v.push((x, 40)); }
        for (n, l) in [(4usize, 40usize), (6, 40)] { v.push((pattern(3, n * l), l)); }
        mc::with_scratch(|s| {
            let f = s.path("m");
            ctx.pairs(v.len() * 3, |c| {
                let (x, l) = &v[c % v.len()];
                let n = x.len() / l;
                let want: Vec<[u8; 32]> = x.chunks(*l).map(Sha256::hash).collect();
                let idx: Vec<usize> = match c / v.len() { 0 => (0..n).collect(), 1 => vec![1], _ => vec![n - 1, 0] };
                put(&f, x);
                let r = mc::catch(|| {
                    let (lv, t, r) = if c / v.len() == 1 { generate_merkle_tree_from_data(&x.chunks(*l).map(|c| c.to_vec()).collect()) } else { generate_merkle_tree_from_file(&f, x.len(), *l) };
                    let mut sorted = idx.clone();
                    sorted.sort();
                    verify_merkle_proof(generate_merkle_proof(&sorted, &t), r, &sorted, &lv);
                    let mut lie = lv.clone();
                    lie[sorted[0]][31] ^= 1;
                    let p = generate_merkle_proof(&sorted, &t);
                    let forged = mc::catch(|| verify_merkle_proof(p, r, &sorted, &lie)).is_ok();
                    (lv, r, forged)
                });
                let d = json!({"content": c % v.len(), "claimed": idx});
                match r {
                    Ok((lv, r, forged)) => {
                        if lv != want || r != ref_root(&want) { ctx.violation("history", "the tree built after another one is not the tree of the present data", d); return false; }
                        if forged { ctx.violation("history", "a proof for a changed leaf is accepted after another verification", d); return false; }
                        true
                    }
                    Err(p) => { ctx.violation("history", &format!("building or verifying after another tree fails: {}", p.msg), d); false }
                }
            });
        });
    }
    if ctx.part("large trees") {
        for n in ctx.pick(vec![64usize, 100, 255, 256, 257, 1000, 4097, 65_537], vec![64, 100, 255, 256, 257, 511, 513, 1000, 4096, 5000, 65_535, 65_536, 65_537, 70_000]) {
            let data = pattern(3, n * 2);
            let r = mc::with_scratch(|s| { let f = s.path("m"); put(&f, &data); mc::catch(|| {
                let (lv, t, r) = generate_merkle_tree_from_file(&f, n * 2, 2);
                for idx in [vec![0], vec![n - 1], vec![0, n - 1], (0..n).collect(), (0..n).step_by(3).collect::<Vec<_>>()] { verify_merkle_proof(generate_merkle_proof(&idx, &t), r, &idx, &lv); }
                (lv, r)
            }) });
            let want: Vec<[u8; 32]> = data.chunks(2).map(Sha256::hash).collect();
            match r { Ok((lv, r)) if lv == want && r == ref_root(&want) => {} _ => ctx.violation("large", "tree or proofs over many blocks are wrong", json!({"leaves": n})) }
            ctx.add(1, 6, 6);
            // a changed leaf anywhere among the claimed ones, or another root, is rejected
            let Ok((lv, t, r)) = mc::catch(|| generate_merkle_tree_from_data(&data.chunks(2).map(|c| c.to_vec()).collect())) else { return ctx.violation("panic", "building the tree fails", json!({"leaves": n})) };
            let few = n > 5000;
            for idx in [vec![n - 1], (0..n).collect::<Vec<_>>(), (0..n).step_by(3).collect()] {
                let Ok(bytes) = mc::catch(|| generate_merkle_proof(&idx, &t).to_bytes()) else { return ctx.violation("prove", "making a proof fails", json!({"leaves": n})) };
                let ok = |root: [u8; 32], lv: &Vec<[u8; 32]>| mc::catch(|| verify_merkle_proof(rs_merkle::MerkleProof::<Sha256>::try_from(bytes.clone()).unwrap(), root, &idx, lv)).is_ok();
                let mut at: Vec<usize> = (0..idx.len()).filter(|k| if few { *k == idx.len() / 2 || k + 1 == idx.len() } else { *k < 3 || k.is_power_of_two() || (k + 1).is_power_of_two() || *k == 65 || *k == 129 || k + 1 == idx.len() }).collect();
                at.dedup();
                for k in at {
                    let mut l = lv.clone();
                    l[idx[k]][k % 32] ^= 1;
                    if ok(r, &l) { return ctx.violation("forged", "a proof is accepted for a changed leaf", json!({"leaves": n, "claimed": idx.len(), "changed": idx[k]})); }
                    ctx.add(1, 1, 1);
                }
                let mut r2 = r;
                r2[31] ^= 1;
                if ok(r2, &lv) { return ctx.violation("root-ignored", "a proof is accepted for another root", json!({"leaves": n, "claimed": idx.len()})); }
            }
        }
    }
    if ctx.part("large leaves") {
        let sizes: Vec<usize> = ctx.pick(vec![31usize, 64, 100, 1000, 4096, 4097, 16_384, 65_537, 258_048], (1..200).chain([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4032, 4095, 4096, 4097, 8191, 8193, 16_128, 64_512, 65_535, 65_536, 65_537, 258_048, 1 << 20, (1 << 20) + 1]).collect());
        ctx.par(sizes.len(), |k| {
            let l = sizes[sizes.len() - 1 - k];
            let n = if l > 100_000 { 2 } else { 3 };
            let data = pattern(4, n * l);
            let want: Vec<[u8; 32]> = data.chunks(l).map(Sha256::hash).collect();
            mc::with_scratch(|s| {
                let f = s.path("m");
                put(&f, &data);
                let d = json!({"leaves": n, "leaf_len": l});
                match mc::catch(|| { let (lv, _, r) = generate_merkle_tree_from_file(&f, n * l, l); (lv, r) }) { Ok((lv, r)) if lv == want && r == ref_root(&want) => {} _ => return ctx.violation("large-leaf", "the tree over large blocks from a file is wrong", d) }
                match mc::catch(|| { let (lv, _, r) = generate_merkle_tree_from_data(&data.chunks(l).map(|c| c.to_vec()).collect()); (lv, r) }) { Ok((lv, r)) if lv == want && r == ref_root(&want) => {} _ => return ctx.violation("large-leaf", "the tree over large blocks from memory is wrong", d) }
                ctx.add(1, 2, 2);
                // every power of two, and both ends
                let mut at: Vec<usize> = (0..24).map(|b| 1usize << b).chain([0, l - 1]).filter(|x| *x < l).collect();
                at.dedup();
                for b in 0..n { for &k in &at {
                    let mut c = data.clone();
                    c[b * l + k] ^= 1;
                    put(&f, &c);
                    let r = mc::catch(|| generate_merkle_tree_from_file(&f, n * l, l).2);
                    if r.ok() == Some(ref_root(&want)) { return ctx.violation("collision", "the root does not change with the data", json!({"leaves": n, "leaf_len": l, "byte": b * l + k})); }
                    ctx.add(1, 1, 1);
                } }
            });
        });
    }
    if ctx.part("proofs") {
        let nmax = ctx.pick(7usize, 10);
        let cases: Vec<(usize, Vec<usize>)> = (1..=nmax).flat_map(|n| mc::subsets(n).filter(|s| !s.is_empty()).map(move |s| (n, s))).collect();
        ctx.bound("leaves", nmax);
        ctx.par(cases.len(), |k| {
            let (n, set) = &cases[cases.len() - 1 - k];
            let n = *n;
            let vals: Vec<Vec<u8>> = (0..n).map(|i| pattern(2 + i, 3)).collect();
            let Ok((leaves, tree, root)) = mc::catch(|| generate_merkle_tree_from_data(&vals)) else { return ctx.cap("building the tree fails") };
            let d = json!({"leaves": n, "indices": set});
            let Ok(bytes) = mc::catch(|| generate_merkle_proof(set, &tree).to_bytes()) else { return ctx.violation("prove", "making a proof fails", d) };
            let verify = |root: [u8; 32], idx: &[usize], leaves: &Vec<[u8; 32]>| {
                mc::catch(|| verify_merkle_proof(rs_merkle::MerkleProof::<Sha256>::try_from(bytes.clone()).unwrap(), root, idx, leaves)).is_ok()
            };
            if !verify(root, set, &leaves) { return ctx.violation("honest", "an honest proof is rejected", d); }
            ctx.add(1, 2, 1);
            for i in set { for x in [1u8, 0x80] { for b in [0usize, 15, 31] {
                let mut l = leaves.clone();
                l[*i][b] ^= x;
                if verify(root, set, &l) { return ctx.violation("leaf", "a proof with a changed proven leaf is accepted", json!({"leaves": n, "indices": set, "leaf": i})); }
                ctx.add(1, 1, 1);
            } } }
            for b in 0..32 { let mut r = root; r[b] ^= 1; if verify(r, set, &leaves) { return ctx.violation("root", "a proof against another root is accepted", d); } ctx.add(1, 1, 1); }
            // every pair of proven leaves exchanged
            for i in set { for j in set { if i < j { let mut l = leaves.clone(); l.swap(*i, *j); if verify(root, set, &l) { return ctx.violation("swap", "a proof with exchanged leaves is accepted", json!({"leaves": n, "indices": set, "swap": [i, j]})); } ctx.add(1, 1, 1); } } }
            // whatever set is claimed (a true claim may be accepted), a false leaf in it is not accepted
            for other in mc::subsets(n) {
                if other == *set || other.is_empty() { continue; }
                for i in &other {
                    let mut l = leaves.clone();
                    l[*i][7] ^= 4;
                    if verify(root, &other, &l) { return ctx.violation("claimed-set", "a proof for one set of leaves proves a false leaf for another", json!({"leaves": n, "indices": set, "claimed": other, "leaf": i})); }
                    ctx.add(1, 1, 1);
                }
            }
            // no claim at all is no proof of another root
            let mut r0 = root;
            r0[0] ^= 1;
            for r in [r0, [0; 32]] { if verify(r, &[], &leaves) { return ctx.violation("empty-claim", "an empty claim is accepted for another root", d); } ctx.add(1, 1, 1); }
            // claims in any order and with repetitions
            if n <= 4 { for len in 1..=3usize { for c in 0..n.pow(len as u32) {
                let claim: Vec<usize> = (0..len).map(|k| c / n.pow(k as u32) % n).collect();
                if verify(r0, &claim, &leaves) { return ctx.violation("claimed-list", "a claim is accepted for another root", json!({"leaves": n, "indices": set, "claimed": claim})); }
                for i in &claim {
                    let mut l = leaves.clone();
                    l[*i][7] ^= 4;
                    if verify(root, &claim, &l) { return ctx.violation("claimed-list", "a list of claims with a false leaf is accepted", json!({"leaves": n, "indices": set, "claimed": claim, "leaf": i})); }
                    ctx.add(1, 1, 1);
                }
            } } }
            // a proven leaf claimed for another position
            for i in set { for j in 0..n { if !set.contains(&j) {
                let mut l = leaves.clone();
                l[j] = leaves[*i];
                let mut claim: Vec<usize> = set.iter().map(|x| if x == i { j } else { *x }).collect();
                claim.sort();
                if verify(root, &claim, &l) { return ctx.violation("moved", "a leaf is proven for another position", json!({"leaves": n, "indices": set, "from": i, "to": j})); }
                ctx.add(1, 1, 1);
            } } }
            // the proof of other data
            let mut v2 = vals.clone();
            v2[set[0]][0] ^= 1;
            if let Ok(r2) = mc::catch(|| generate_merkle_tree_from_data(&v2).2) { if verify(r2, set, &leaves) { ctx.violation("other-data", "a proof is accepted for other data", d); } }
            ctx.add(1, 1, 1);
        });
    }
}

pub fn t10(ctx: &Ctx) {
    if ctx.part("padding and compression") {
        let umax = ctx.pick(6usize, 12);
        let nmax = ctx.pick(26usize, 64);
        ctx.bound("unit_length", umax);
        ctx.bound("file_length", nmax);
        ctx.par(umax * (nmax + 1), |k| {
            let (u, n) = (k % umax + 1, k / umax);
            mc::with_scratch(|s| {
                let (o, p, c) = (s.path("o"), s.path("p"), s.path("c"));
                for pat in [0, 1, 2] {
                    // the file may be longer than, as long as, or shorter than the data length asked for
                    for extra in [-2i64, 0, 3] {
                        let flen = (n as i64 + extra).max(0) as usize;
                        let data = pattern(pat, flen);
                        for before in [None, Some(0usize), Some(5), Some(n / u * (u + 1)), Some(3 * nmax + 40)] {
                            let d = json!({"unit": u, "data_len": n, "file_len": flen, "earlier_content": before});
                            put(&o, &data);
                            for f in [&p, &c] { let _ = std::fs::remove_file(f); if let Some(b) = before { put(f, &vec![0xAA; b]); } }
                            let whole: Vec<u8> = (0..n / u * u).map(|i| *data.get(i).unwrap_or(&0)).collect();
                            if mc::catch(|| copy_and_pad(&o, &p, n, u)).is_err() { return ctx.violation("pad-panic", "padding fails", d); }
                            let pad = get(&p);
                            if pad != padded(&whole, u) { return ctx.violation("pad", "the padded file is not each unit followed by one zero byte", d); }
                            if mc::catch(|| copy_and_compress(&p, &c, n, u, u + 1)).is_err() { return ctx.violation("compress-panic", "compression fails", d); }
                            if get(&c) != whole { return ctx.violation("compress", "padding and compressing does not restore the data", d); }
                            if get(&o) != data || get(&p) != pad { return ctx.violation("inputs", "an input file was changed", d); }
                            // compression keeps the first bytes of a unit whatever the rest is
                            let junk = pattern(5, pad.len());
                            put(&p, &junk);
                            let want: Vec<u8> = junk.chunks(u + 1).flat_map(|x| x[..u].to_vec()).collect();
                            if mc::catch(|| copy_and_compress(&p, &c, n, u, u + 1)).is_err() || get(&c) != want { return ctx.violation("compress", "compression does not keep exactly the first bytes of each unit", d); }
                            ctx.add(1, 3, 3);
                        }
                    }
                }
            });
        });
    }
    if ctx.part("wider padded units") {
        mc::with_scratch(|s| for u in 1..6usize { for pl in u..u + 5 { for n in 0..=20usize {
            let (p, c) = (s.path("p"), s.path("c"));
            let junk = pattern(5, n / u * pl);
            put(&p, &junk);
            put(&c, &[7; 200]);
            let want: Vec<u8> = junk.chunks(pl).flat_map(|x| x[..u].to_vec()).collect();
            if mc::catch(|| copy_and_compress(&p, &c, n, u, pl)).is_err() || get(&c) != want { return ctx.violation("compress", "compression does not keep exactly the first bytes of each unit", json!({"unit": u, "padded": pl, "data_len": n})); }
            ctx.add(1, 1, 1);
        } } });
        mc::with_scratch(|s| for (u, pl) in [(1usize, 3usize), (3, 3), (4, 6), (63, 65), (63, 128), (64, 64), (127, 256), (1000, 1002), (4096, 8192)] { for units in [1usize, 100, 257, 1025, 4100, 66_000] { if units * pl < 1_500_000 {
            let (p, c) = (s.path("p"), s.path("c"));
            let junk = pattern(5, units * pl);
            put(&p, &junk);
            let want: Vec<u8> = junk.chunks(pl).flat_map(|x| x[..u].to_vec()).collect();
            if mc::catch(|| copy_and_compress(&p, &c, units * u, u, pl)).is_err() || get(&c) != want { return ctx.violation("compress", "compression does not keep exactly the first bytes of each unit", json!({"unit": u, "padded": pl, "data_len": units * u})); }
            ctx.add(1, 1, 1);
        } } });
    }
    if ctx.part("shipped file sizes") {
        // the sizes of the shipped parameters, up to the largest one (63 MiB of data)
        let v: Vec<(usize, usize)> = ctx.pick(vec![(63usize, 63 * 16 * 1024 * 64usize), (127, 127 * 8 * 1024 * 64)], vec![(63, 63 * 16 * 1024 * 64), (127, 127 * 8 * 1024 * 64), (255, 255 * 4 * 1024 * 64), (63, 63 * 16 * 1024 * 4), (4, 33_554_436), (1000, 70_000_000)]);
        for (u, n) in v { mc::with_scratch(|s| {
            let (o, p, c) = (s.path("o"), s.path("p"), s.path("c"));
            let mut data = pattern(2, n);
            for (k, x) in data.chunks_mut(8).enumerate() { let w = mc::mix(k as u64).to_le_bytes(); let l = x.len(); x.copy_from_slice(&w[..l]); }
            put(&o, &data);
            let ok = mc::catch(|| { copy_and_pad(&o, &p, n, u); copy_and_compress(&p, &c, n, u, u + 1); }).is_ok();
            if !ok || get(&p) != padded(&data, u) || get(&c) != data { ctx.violation("large", "padding and compressing a large file is wrong", json!({"unit": u, "data_len": n})); }
            ctx.add(1, 2, 2);
        }) }
    }
    if ctx.part("large files") {
        mc::with_scratch(|s| for (u, n) in [(63usize, 63 * 200usize), (1, 5000), (127, 127 * 65), (255, 255 * 33), (4000, 12000), (9000, 18000), (1, 70_001), (2, 140_002), (63, 63 * 2100), (65_537, 131_074), (70_000, 350_000), (127, 127 * 9000)] {
            let (o, p, c) = (s.path("o"), s.path("p"), s.path("c"));
            let data = pattern(2, n);
            put(&o, &data);
            for b in [vec![1; 4 * n], vec![1; n + n / u], { let mut x = padded(&data, u); x[n / 2] ^= 1; x }] {
            put(&p, &b);
            put(&c, &b[..b.len().min(if b.len() > 2 * n { usize::MAX } else { n })]);
            let ok = mc::catch(|| { copy_and_pad(&o, &p, n, u); copy_and_compress(&p, &c, n, u, u + 1); }).is_ok();
            if !ok || get(&p) != padded(&data, u) || get(&c) != data { ctx.violation("large", "padding and compressing a large file is wrong", json!({"unit": u, "data_len": n, "earlier_content": b.len()})); }
            ctx.add(1, 2, 2);
            }
        });
    }
}

pub fn t11(ctx: &Ctx) {
    let keys: Vec<Integer> = vec!["0".parse().unwrap(), "7".parse().unwrap(), storage_real::vde::rug_sloth::P_64.parse().unwrap(), storage_real::vde::rug_sloth::P_512.parse().unwrap(), storage_real::vde::rug_sloth::P_2048.parse().unwrap(), (Integer::from(1) << 5000u32) - 1u32];
    let ivs: Vec<Vec<u8>> = vec![vec![], vec![0], vec![255; 3], pattern(2, 128), pattern(3, 127), pattern(4, 1000)];
    let mut alphabet: Vec<(Integer, Vec<u8>)> = vec![];
    for k in &keys { for v in &ivs { alphabet.push((k.clone(), v.clone())); } }
    if ctx.part("every pair, after every earlier content") {
        ctx.par(alphabet.len(), |k| mc::with_scratch(|s| for second in &alphabet {
            let p = s.path("pub");
            let _ = std::fs::remove_file(&p);
            let d = |w: &str| json!({"first": [alphabet[k].0.to_string().len(), alphabet[k].1.len()], "second": [second.0.to_string().len(), second.1.len()], "at": w});
            for (w, v) in [("first", &alphabet[k]), ("second", second)] {
                let r = mc::catch(|| { save_data(&p, &v.0, &v.1); let a = get(&p); let l = load_data(&p); (l, a == get(&p), load_data(&p)) });
                match r {
                    Ok((l, same, l2)) => {
                        if l != *v || l2 != *v { return ctx.violation("load", "loading does not return the value saved last", d(w)); }
                        if !same { return ctx.violation("load-writes", "loading changes the file", d(w)); }
                    }
                    Err(e) => return ctx.violation("panic", &format!("saving or loading fails: {}", e.msg), d(w)),
                }
                ctx.add(1, 3, 1);
            }
        }));
    }
    if ctx.part("every length, special contents") {
        // IVs of every length with zero bytes at either end, digits, signs, separators, line ends; keys around every power of two
        let fills: Vec<Box<dyn Fn(usize) -> Vec<u8> + Sync>> = vec![Box::new(|n| vec![0; n]), Box::new(|n| vec![255; n]), Box::new(|n| { let mut v = pattern(3, n); if n > 0 { v[n - 1] = 0; v[n / 2..].fill(0); } v }), Box::new(|n| { let mut v = pattern(4, n); v[..n / 2].fill(0); v }),
            Box::new(|n| (0..n).map(|i| b"0123456789-+,;\n\r \t\0\""[i % 20]).collect()), Box::new(|n| (0..n).map(|i| i as u8).collect())];
        let lens: Vec<usize> = (0..=ctx.pick(300, 1100)).chain([511, 512, 513, 1023, 1024, 1025, 4096, 8191, 8193]).collect();
        ctx.par(lens.len(), |k| mc::with_scratch(|s| {
            let p = s.path("pub");
            let n = lens[lens.len() - 1 - k];
            for (j, f) in fills.iter().enumerate() {
                let one = Integer::from(1) << (n as u32);
                let key = [one.clone(), Integer::from(&one - 1u32), one + 1u32][j % 3].clone();
                let v = f(n);
                if mc::catch(|| { save_data(&p, &key, &v); load_data(&p) }).ok() != Some((key.clone(), v)) { return ctx.violation("load", "loading does not return the value saved last", json!({"key": key.to_string(), "iv_length": n, "content": j})); }
                ctx.add(1, 2, 1);
            }
        }));
    }
    if ctx.part("long values") {
        let v: Vec<(Integer, Vec<u8>)> = vec![(keys[3].clone(), pattern(4, 70_000)), ((Integer::from(1) << 600_000u32) + 7u32, pattern(2, 257)), (keys[4].clone(), pattern(5, 65_536))];
        ctx.par(v.len(), |k| mc::with_scratch(|s| {
            let p = s.path("pub");
            for x in [&v[k], &alphabet[21], &v[k]] {
                if mc::catch(|| { save_data(&p, &x.0, &x.1); load_data(&p) }).ok().as_ref() != Some(x) { return ctx.violation("load", "loading does not return the value saved last", json!({"key_bits": x.0.significant_bits(), "iv": x.1.len()})); }
                ctx.add(1, 2, 1);
            }
        }));
    }
    if ctx.part("histories") {
        // values of five different sizes, all histories of saves to two paths
        let vals: Vec<(Integer, Vec<u8>)> = vec![alphabet[0].clone(), alphabet[9].clone(), alphabet[21].clone(), alphabet[27].clone(), alphabet[35].clone()];
        let depth = ctx.pick(4usize, 6);
        ctx.bound("saves", depth);
        let all: Vec<Vec<usize>> = (1..=depth).flat_map(|d| mc::all_vecs(vals.len() * if d <= 3 { 2 } else { 1 }, d)).collect();
        ctx.par(all.len(), |k| mc::with_scratch(|s| {
            let paths = [s.path("a"), s.path("b")];
            for p in &paths { let _ = std::fs::remove_file(p); }
            let mut last = [None, None];
            for &op in &all[k] {
                let (v, w) = (&vals[op % vals.len()], op / vals.len());
                if let Err(e) = mc::catch(|| save_data(&paths[w], &v.0, &v.1)) { return ctx.violation("panic", &format!("saving fails: {}", e.msg), json!({"history": all[k]})); }
                last[w] = Some(v);
                for i in 0..2 { if let Some(x) = last[i] { if mc::catch(|| load_data(&paths[i])).ok().as_ref() != Some(x) { return ctx.violation("load", "loading does not return the value saved last", json!({"history": all[k]})); } } }
                ctx.add(1, 2, 0);
            }
            ctx.add(0, 0, 1);
        }));
    }
}

const NIB: fn(u64) -> u64 = |k| k * 0x1111_1111_1111_1111;
fn byte_word(b: u64) -> u64 { b * 0x0101_0101_0101_0101 }

/// which bytes of the result each draw decides: constant outcomes show every value at every position,
/// single deviations show that the positions are independent
fn faithful_bytes(ctx: &Ctx, what: &str, len: usize, f: &dyn Fn() -> Option<Vec<u8>>) {
    let mut seen: Vec<BTreeSet<u8>> = vec![BTreeSet::new(); len];
    let mut draws = 0;
    for b in 0..256u64 {
        let (r, n) = mc_rand::with_script(&[], &[byte_word(b)], f);
        let Some(v) = r else { return };
        draws = n;
        if v.len() != len { return ctx.violation("length", &format!("{what} has {} bytes instead of {len}", v.len()), json!({"draw": b})); }
        for (i, x) in v.iter().enumerate() { seen[i].insert(*x); }
        ctx.add(1, n as u64, 1);
    }
    for (i, s) in seen.iter().enumerate() { if s.len() != 256 { return ctx.violation("values", &format!("byte {i} of {what} takes only {} values", s.len()), json!({"missing": (0..=255u8).filter(|x| !s.contains(x)).collect::<Vec<_>>()})); } }
    if len == 0 { return; }
    let Some(base) = mc_rand::with_script(&[], &[byte_word(0x33)], f).0 else { return };
    let mut owner: Vec<Option<usize>> = vec![None; len];
    for k in 0..draws {
        let mut w = vec![byte_word(0x33); draws];
        w[k] = byte_word(0xC5);
        let Some(v) = mc_rand::with_script(&w, &[byte_word(0x33)], f).0 else { return };
        ctx.add(1, draws as u64, 1);
        for i in 0..len.min(v.len()) { if v[i] != base[i] {
            if let Some(o) = owner[i] { return ctx.violation("shared", &format!("byte {i} of {what} depends on draws {o} and {k}"), json!(null)); }
            owner[i] = Some(k);
        } }
    }
    if let Some(i) = owner.iter().position(|o| o.is_none()) { return ctx.violation("fixed", &format!("byte {i} of {what} follows no draw of its own"), json!(null)); }
    // a draw of 64 bits decides at most eight bytes
    let mut per: BTreeMap<usize, usize> = BTreeMap::new();
    for o in owner.iter().flatten() { *per.entry(*o).or_insert(0) += 1; }
    if let Some((k, n)) = per.iter().find(|x| *x.1 > 8) { ctx.violation("reuse", &format!("draw {k} decides {n} bytes of {what}"), json!(null)); }
}

/// any two bits of the result: all four combinations come out
fn independent_bits(ctx: &Ctx, what: &str, len: usize, f: &dyn Fn() -> Option<Vec<u8>>) {
    const K: usize = 448;
    let mut sig = vec![[0u64; K / 64]; len * 8];
    for o in 0..K {
        let script: Vec<u64> = (0..len as u64 + 8).map(|j| mc::mix(((o as u64 + 1) << 24) + j)).collect();
        let Some(v) = mc_rand::with_script(&script, &[], f).0 else { return };
        ctx.add(1, len as u64, 1);
        if v.len() != len { return ctx.violation("length", &format!("{what} has {} bytes instead of {len}", v.len()), json!(null)); }
        for (i, x) in v.iter().enumerate() { for b in 0..8 { if x >> b & 1 == 1 { sig[i * 8 + b][o / 64] |= 1 << (o % 64); } } }
    }
    for a in 0..sig.len() { for b in a + 1..sig.len() {
        let (mut w, mut x, mut y, mut z) = (0, 0, 0, 0);
        for j in 0..K / 64 { let (p, q) = (sig[a][j], sig[b][j]); w |= p & q; x |= p & !q; y |= !p & q; z |= !p & !q; }
        if w == 0 || x == 0 || y == 0 || z == 0 { return ctx.violation("dependent", &format!("bits {a} and {b} of {what} are not independent"), json!({"outcomes": K})); }
    } }
}

pub fn t12(ctx: &Ctx) {
    if ctx.part("challenges") {
        let mut cases = vec![];
        for r in 1..=ctx.pick(6usize, 7) { for n in 0..=r { for a in [0usize, 1, 10] { cases.push((n, a, a + r)); } } }
        ctx.par(cases.len(), |k| {
            let (n, a, b) = cases[cases.len() - 1 - k];
            let d = json!({"n": n, "range": [a, b]});
            let mut seen: BTreeSet<Vec<usize>> = BTreeSet::new();
            // the first draws enumerate all combinations of word patterns, later draws cycle through all of them
            let depth = n.min(ctx.pick(3, 4));
            let tail: Vec<u64> = (0..16).map(NIB).collect();
            for w in mc::all_vecs(16, depth) {
                let words: Vec<u64> = w.iter().map(|&x| NIB(x as u64)).collect();
                for rot in 0..if n > depth { 16 } else { 1 } {
                    let mut t = tail.clone();
                    t.rotate_left(rot);
                    let script: Vec<u64> = words.iter().chain(t.iter()).chain(t.iter()).copied().collect();
                    let (r, _) = mc_rand::with_script(&script, &[], || mc::catch(|| create_challenges(n, (a, b))));
                    ctx.add(1, n as u64, 1);
                    let Ok(v) = r else { return ctx.violation("panic", "making challenges fails", d) };
                    if v.len() != n || !v.windows(2).all(|x| x[0] < x[1]) || v.iter().any(|x| *x < a || *x >= b) { return ctx.violation("form", "challenges are not n distinct increasing values of the range", json!({"n": n, "range": [a, b], "draws": w, "got": v})); }
                    seen.insert(v);
                }
            }
            let mut total = 1usize;
            for i in 0..n { total = total * (b - a - i) / (i + 1); }
            // sets that the patterned outcomes missed: look for them among outcomes of another shape
            for k in 0..20_000u64 {
                if seen.len() == total { break; }
                let script: Vec<u64> = (0..16).map(|j| mc::mix(k * 16 + j)).collect();
                if let (Ok(v), _) = mc_rand::with_script(&script, &[], || mc::catch(|| create_challenges(n, (a, b)))) { seen.insert(v); }
            }
            if seen.len() != total { ctx.violation("coverage", &format!("only {} of {total} sets of challenges can come out", seen.len()), d); }
        });
    }
    if ctx.part("challenges, long loops") {
        // many repeated draws before a new value comes
        for (n, r) in [(3usize, 5usize), (10, 10), (40, 64), (200, 200), (256, 1000), (257, 257), (1000, 70_000), (600, 600), (1000, 1000), (1023, 1024), (999, 2000), (5000, 5000), (4999, 5000)] {
            for rep in [0usize, 1, 7, 100] {
                let words: Vec<u64> = (0..rep).map(|_| NIB(3)).collect();
                let tail: Vec<u64> = (0..4096u64).map(|k| k << 52 | k << 40 | k << 20 | k).collect();
                let words: Vec<u64> = words.into_iter().chain(tail).collect();
                let (v, _) = mc_rand::with_script(&words, &[], || mc::catch(|| create_challenges(n, (5, 5 + r))));
                match v { Ok(v) if v.len() == n && v.windows(2).all(|x| x[0] < x[1]) && v.iter().all(|x| (5..5 + r).contains(x)) => {} _ => ctx.violation("form", "challenges are not n distinct increasing values of the range", json!({"n": n, "range": [5, 5 + r], "repeats": rep})) }
                ctx.add(1, n as u64 + rep as u64, 1);
            }
        }
        // large ranges: both ends and every position of a wide range
        let r = 1usize << 12;
        let mut seen = vec![false; r];
        for k in 0..(r as u64) * 2 {
            let w = (k << 51) | (k << 39) | (k << 13) | k;
            if let (Ok(v), _) = mc_rand::with_script(&[w, w, !w], &[], || mc::catch(|| create_challenges(1, (0, r)))) { if v.len() == 1 && v[0] < r { seen[v[0]] = true; } }
            ctx.add(1, 1, 1);
        }
        // positions that the patterned outcomes missed: look for them among outcomes of another shape
        for k in 0..(r as u64) * 60 {
            if k % 4096 == 0 && seen.iter().all(|x| *x) { break; }
            let script: Vec<u64> = (0..4).map(|j| mc::mix(k * 16 + j)).collect();
            if let (Ok(v), _) = mc_rand::with_script(&script, &[], || mc::catch(|| create_challenges(1, (0, r)))) { if v.len() == 1 && v[0] < r { seen[v[0]] = true; } }
        }
        if let Some(i) = seen.iter().position(|x| !x) { ctx.violation("coverage", "a position of a wide range is never challenged", json!({"range": r, "position": i})); }
    }
    if ctx.part("challenges, independence") {
        // any two positions of the range: both, only one, only the other, none challenged
        let cases: Vec<(usize, usize)> = vec![(2, 4), (5, 10), (10, 40), (16, 24), (33, 64), (40, 64), (65, 128), (100, 150), (129, 256), (200, 300), (300, 512), (600, 1000), (2000, 3000), (5000, 8192)];
        const K: usize = 448;
        ctx.par(cases.len(), |k| {
            let (n, r) = cases[cases.len() - 1 - k];
            let mut sig = vec![[0u64; K / 64]; r];
            for o in 0..K {
                let script: Vec<u64> = (0..6 * n as u64).map(|j| mc::mix(((o as u64 + 1) << 24) + j)).collect();
                let (v, _) = mc_rand::with_script(&script, &[], || mc::catch(|| create_challenges(n, (7, 7 + r))));
                ctx.add(1, n as u64, 1);
                match v {
                    Ok(v) if v.len() == n && v.windows(2).all(|x| x[0] < x[1]) && v.iter().all(|x| (7..7 + r).contains(x)) => for x in v { sig[x - 7][o / 64] |= 1 << (o % 64); },
                    _ => return ctx.violation("form", "challenges are not n distinct increasing values of the range", json!({"n": n, "range": [7, 7 + r]})),
                }
            }
            for a in 0..r { for b in a + 1..r {
                let (mut w, mut x, mut y, mut z) = (0, 0, 0, 0);
                for j in 0..K / 64 { let (p, q) = (sig[a][j], sig[b][j]); w |= p & q; x |= p & !q; y |= !p & q; z |= !p & !q; }
                if w == 0 || x == 0 || y == 0 || z == 0 { return ctx.violation("dependent", &format!("whether position {b} is challenged depends on whether position {a} is"), json!({"n": n, "range": [7, 7 + r], "both": w != 0, "only_first": x != 0, "only_second": y != 0, "none": z != 0, "outcomes": K})); }
            } }
        });
        // wide ranges: every part of the range is reached, any two bits of a position are independent
        // (the widest ranges only where a call does not take time in proportion to the range)
        let slow = {
            let t = std::time::Instant::now();
            let _ = mc_rand::with_script(&[1, 2, 3], &[], || mc::catch(|| create_challenges(1, (0, 1 << 23))));
            t.elapsed().as_millis() >= 4
        };
        for (n, bits) in [(1usize, 14u32), (50, 16), (1000, 17), (50, 20), (3, 20), (1, 31), (2, 40)] {
            if slow && (bits > 20 || (bits == 20 && n == 3)) { continue; }
            let r = 1usize << bits;
            let mut pairs = vec![0u8; (bits * bits) as usize];
            let mut bins = vec![false; 256];
            for o in 0..4000 / n.min(40) {
                let script: Vec<u64> = (0..2 * n as u64).map(|j| mc::mix(((o as u64 + 1) << 28) + j)).collect();
                if let (Ok(v), _) = mc_rand::with_script(&script, &[], || mc::catch(|| create_challenges(n, (0, r)))) { for x in v {
                    bins[(x >> (bits - 8)) % 256] = true;
                    for a in 0..bits { for b in 0..bits { pairs[(a * bits + b) as usize] |= 1 << ((x >> a & 1) * 2 + (x >> b & 1)); } }
                } }
                ctx.add(1, n as u64, 1);
            }
            for a in 0..bits { for b in 0..a { if pairs[(a * bits + b) as usize] != 15 { return ctx.violation("dependent", &format!("bits {a} and {b} of a challenged position are not independent"), json!({"n": n, "range": r})); } } }
            if let Some(x) = bins.iter().position(|x| !x) { return ctx.violation("coverage", "a part of a wide range is never challenged", json!({"range": r, "part": format!("{x} of 256")})); }
        }
    }
    if ctx.part("random files, long") {
        let lens = ctx.pick(vec![70_000usize, 9_000], vec![300_000, 70_000, 9_000]);
        ctx.par(lens.len(), |k| mc::with_scratch(|s| {
            let len = lens[k];
            let p = s.path("rnd");
            let mut sig = vec![0u128; len];
            for o in 0..16u64 {
                let script: Vec<u64> = (0..len as u64 + 8).map(|j| mc::mix((o << 32) + j)).collect();
                let (v, _) = mc_rand::with_script(&script, &[], || mc::catch(|| { create_random_file(&p, len).unwrap(); get(&p) }));
                ctx.add(1, len as u64, 1);
                match v { Ok(v) if v.len() == len => for (i, b) in v.iter().enumerate() { sig[i] |= (*b as u128) << (8 * o); }, _ => return ctx.violation("length", "a random file does not have the requested length", json!({"length": len})) }
            }
            let mut at: std::collections::HashMap<u128, usize> = Default::default();
            for (i, x) in sig.iter().enumerate() { if let Some(j) = at.insert(*x, i) { return ctx.violation("repeated", &format!("bytes {j} and {i} of a random file are the same in every outcome"), json!({"length": len})); } }
        }));
    }
    if ctx.part("random files") {
        mc::with_scratch(|s| for len in ctx.pick(vec![0usize, 1, 2, 5, 17, 64, 300, 1025], vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 64, 127, 300, 1025, 3000]) {
            for before in [0usize, 1, 4000] {
                let p = s.path("rnd");
                let _ = std::fs::remove_file(&p);
                if before > 0 { put(&p, &vec![0xEE; before]); }
                if mc::catch(|| create_random_file(&p, len).is_ok()).ok() != Some(true) { return ctx.violation("panic", "making a random file fails", json!({"length": len})); }
                if get(&p).len() != len { return ctx.violation("length", "a random file does not have the requested length", json!({"length": len, "earlier": before, "got": get(&p).len()})); }
                ctx.add(1, 1, 1);
            }
            if len <= 300 { independent_bits(ctx, "a random file", len, &|| mc::catch(|| { let p = s.path("rnd"); create_random_file(&p, len).unwrap(); get(&p) }).ok()); }
            faithful_bytes(ctx, "a random file", len, &|| mc::catch(|| { let p = s.path("rnd"); create_random_file(&p, len).unwrap(); get(&p) }).ok());
            if ctx.stopped() { return; }
        });
    }
    if ctx.part("IV") {
        for pl in [64usize, 128, 256, 10] {
            faithful_bytes(ctx, "the IV", 128, &|| mc::catch(|| prepare_params(pl).1).ok());
            independent_bits(ctx, "the IV", 128, &|| mc::catch(|| prepare_params(pl).1).ok());
            // a second preparation draws anew
            let (r, n) = mc_rand::with_script(&(0..4096).map(mc::mix).collect::<Vec<_>>(), &[1, 2, 3], || mc::catch(|| (prepare_params(pl).1, prepare_params(pl).1)));
            if n < 32 || r.map(|(a, b)| a == b).unwrap_or(true) { ctx.violation("fresh", "two preparations give the same IV", json!({"unit_pl": pl})); }
            ctx.add(1, 2, 1);
        }
    }
}

// ---- T14 ----

struct Case { name: &'static str, heavy: bool, run: Box<dyn Fn(&mc::Scratch) -> Vec<u8> + Sync> }

fn io_cases() -> Vec<Case> {
    let c = Cfg { blocks: 3, units: 2, unit_l: 2, seal: 1, vde: 1, ml: 0, cl: 2, ms: 0, cs: 1 };
    let c2 = Cfg { blocks: 3, units: 2, unit_l: 2, seal: 2, vde: 1, ml: 1, cl: 2, ms: 1, cs: 1 };
    let key = small_key(2);
    let iv = pattern(7, 8);
    let mut v: Vec<Case> = vec![];
    let data = pattern(3, 12);
    // inputs are prepared outside the faulty region by the reference
    let sealed = |c: &Cfg| ref_seal(c, &blocks_of(&padded(&data, 2), c), &key, &iv).0.concat().concat();
    macro_rules! case { ($name:expr, |$s:ident| $setup:block, $run:expr) => { v.push(Case { name: $name, heavy: false, run: Box::new(move |$s| { $setup; $run }) }) } }
    {
        let d = data.clone();
        case!("read_file", |s| { put_plain(&s.path("o"), &d) }, { let mut f = std::fs::File::open(s.path("o")).unwrap(); let mut r = vec![]; for (a, l) in [(0, 12), (3, 5), (10, 6), (12, 3), (0, 0)] { r.extend(read_file(&mut f, a, l)); } r });
    }
    { let d = data.clone(); case!("copy_and_pad", |s| { put_plain(&s.path("o"), &d); put_plain(&s.path("p"), &[9; 60]) }, { copy_and_pad(&s.path("o"), &s.path("p"), 12, 2); get_plain(&s.path("p")) }); }
    { let p = padded(&data, 2); case!("copy_and_compress", |s| { put_plain(&s.path("p"), &p); put_plain(&s.path("u"), &[9; 60]) }, { copy_and_compress(&s.path("p"), &s.path("u"), 12, 2, 3); get_plain(&s.path("u")) }); }
    for (name, cc) in [("seal", c), ("seal, rule modes", c2)] {
        let (p, key, iv) = (padded(&data, 2), key.clone(), iv.clone());
        case!(name, |s| { put_plain(&s.path("p"), &p) }, { let ids = seal(&cc.para(), &s.path("p"), &key, &iv).0; [get_plain(&s.path("p")), ids.concat()].concat() });
    }
    for (name, cc) in [("unseal", c), ("unseal, rule modes", c2)] {
        let (p, key, iv) = (sealed(&cc), key.clone(), iv.clone());
        case!(name, |s| { put_plain(&s.path("p"), &p) }, { unseal(&cc.para(), &s.path("p"), &key, &iv); get_plain(&s.path("p")) });
    }
    for (name, cc) in [("single_unseal_prepare", c), ("single_unseal_prepare, rule modes", c2)] {
        let p = sealed(&cc);
        case!(name, |s| { put_plain(&s.path("p"), &p) }, { (0..3).flat_map(|b| { let (x, y, z) = single_unseal_prepare(&s.path("p"), b, &cc.para()); [x.concat(), y, z.concat().concat()].concat() }).collect() });
    }
    for (name, cc) in [("batch_unseal_prepare", c), ("batch_unseal_prepare, rule modes", c2)] {
        let p = sealed(&cc);
        case!(name, |s| { put_plain(&s.path("p"), &p) }, { let (i, x, y, z) = batch_unseal_prepare(&s.path("p"), 1, 18, &cc.para()); [i.iter().map(|&x| x as u8).collect(), x.concat().concat(), y.concat(), z.concat().concat().concat()].concat() });
    }
    { let d = data.clone(); case!("Merkle tree", |s| { put_plain(&s.path("o"), &d) }, { let (l, _, r) = generate_merkle_tree_from_file(&s.path("o"), 12, 4); [l.concat(), r.to_vec()].concat() }); }
    {
        let d = data.clone();
        let good = blocks_of(&padded(&data, 2), &c);
        case!("batch_verify", |s| { put_plain(&s.path("o"), &d) }, {
            let mut bad = good.clone();
            bad[1][1][1] ^= 1;
            (0..3).flat_map(|b| [mc::catch(|| batch_verify(&s.path("o"), b, &good[b], 4, 2)).is_ok() as u8, mc::catch(|| batch_verify(&s.path("o"), b, &bad[b], 4, 2)).is_ok() as u8]).collect()
        });
    }
    for (name, cc) in [("batch_unseal_and_verify", c), ("batch_unseal_and_verify, rule modes", c2)] {
        let (p, d, key, iv) = (sealed(&cc), data.clone(), key.clone(), iv.clone());
        case!(name, |s| { put_plain(&s.path("o"), &d); put_plain(&s.path("p"), &p) }, {
            let para = cc.para();
            let (i, x, y, z) = batch_unseal_prepare(&s.path("p"), 0, 18, &para);
            let ok = mc::catch(|| batch_unseal_and_verify(&para, &s.path("o"), &i, &x, &y, &z, &key, &iv)).is_ok();
            let mut x2 = x.clone();
            x2[2][0][0] ^= 1;
            let ok2 = mc::catch(|| batch_unseal_and_verify(&para, &s.path("o"), &i, &x2, &y, &z, &key, &iv)).is_ok();
            vec![ok as u8, ok2 as u8]
        });
    }
    {
        let (key, iv) = (key.clone(), iv.clone());
        case!("save_data and load_data", |s| { put_plain(&s.path("k"), &[3; 100]) }, { save_data(&s.path("k"), &key, &iv); let (k, v) = load_data(&s.path("k")); [k.to_string().into_bytes(), v].concat() });
    }
    case!("create_random_file", |s| { put_plain(&s.path("r"), &[3; 100]) }, { mc_rand::with_script(&(0..64).map(mc::mix).collect::<Vec<_>>(), &[1], || create_random_file(&s.path("r"), 9).unwrap()); get_plain(&s.path("r")) });
    // transfers larger than common buffer sizes
    let light = v.len();
    let big = pattern(5, 100_000);
    { let d = big.clone(); case!("read_file, large", |s| { put_plain(&s.path("o"), &d) }, { let mut f = std::fs::File::open(s.path("o")).unwrap(); let mut r = vec![]; for (a, l) in [(0, 100_000), (3, 20_000), (99_000, 9_000), (70_000, 8_193), (1, 4_097)] { r.extend(read_file(&mut f, a, l)); } r }); }
    { let d = big.clone(); case!("copy_and_pad, large", |s| { put_plain(&s.path("o"), &d) }, { copy_and_pad(&s.path("o"), &s.path("p"), 90_000, 9_000); get_plain(&s.path("p")) }); }
    { let p = padded(&big[..90_000], 9_000); case!("copy_and_compress, large", |s| { put_plain(&s.path("p"), &p) }, { copy_and_compress(&s.path("p"), &s.path("u"), 90_000, 9_000, 9_001); get_plain(&s.path("u")) }); }
    { let d = big.clone(); case!("Merkle tree, large", |s| { put_plain(&s.path("o"), &d) }, { let (l, _, r) = generate_merkle_tree_from_file(&s.path("o"), 100_000, 20_000); [l.concat(), r.to_vec()].concat() }); }
    {
        let d = big.clone();
        let cc = Cfg { blocks: 5, units: 4, unit_l: 5_000, ..c };
        let good = blocks_of(&padded(&big, 5_000), &cc);
        case!("batch_verify, large", |s| { put_plain(&s.path("o"), &d) }, {
            let mut bad = good.clone();
            for b in 0..5 { bad[b][3 - b % 2][4_999 - b] ^= 1; }
            (0..5).flat_map(|b| [mc::catch(|| batch_verify(&s.path("o"), b, &good[b], 20_000, 5_000)).is_ok() as u8, mc::catch(|| batch_verify(&s.path("o"), b, &bad[b], 20_000, 5_000)).is_ok() as u8]).collect()
        });
    }
    for ml in [0, 1] {
        let cc = Cfg { blocks: 5, units: 4, unit_l: 4_999, ml, ..c };
        { let d = big.clone(); case!("single_unseal_prepare, large", |s| { put_plain(&s.path("p"), &d) }, { (0..5).flat_map(|b| { let (x, y, z) = single_unseal_prepare(&s.path("p"), b, &cc.para()); [x.concat(), y, z.concat().concat()].concat() }).collect() }); }
        { let d = big.clone(); case!("batch_unseal_prepare, large", |s| { put_plain(&s.path("p"), &d) }, { let (i, x, y, z) = batch_unseal_prepare(&s.path("p"), 0, 100_000, &cc.para()); [i.iter().map(|&x| x as u8).collect(), x.concat().concat(), y.concat(), z.concat().concat().concat()].concat() }); }
    }
    {
        let cc = Cfg { blocks: 2, units: 4_200, unit_l: 1, ..c };
        let d = pattern(6, 8_400);
        let key = small_key(1);
        let (sealed, ids) = ref_seal(&cc, &blocks_of(&padded(&d, 1), &cc), &key, &iv);
        let _ = ids;
        { let (p, key, iv) = (padded(&d, 1), key.clone(), iv.clone()); case!("seal, large", |s| { put_plain(&s.path("p"), &p) }, { let ids = seal(&cc.para(), &s.path("p"), &key, &iv).0; [get_plain(&s.path("p")), ids.concat()].concat() }); }
        { let (p, key, iv) = (sealed.concat().concat(), key.clone(), iv.clone()); case!("unseal, large", |s| { put_plain(&s.path("p"), &p) }, { unseal(&cc.para(), &s.path("p"), &key, &iv); get_plain(&s.path("p")) }); }
        { let (p, key, iv) = (sealed.concat().concat(), key.clone(), iv.clone()); case!("batch_unseal_and_verify, large", |s| { put_plain(&s.path("o"), &d); put_plain(&s.path("p"), &p) }, {
            let para = cc.para();
            let (i, x, y, z) = batch_unseal_prepare(&s.path("p"), 0, p.len(), &para);
            vec![mc::catch(|| batch_unseal_and_verify(&para, &s.path("o"), &i, &x, &y, &z, &key, &iv)).is_ok() as u8]
        }); }
    }
    for c in &mut v[light..] { c.heavy = true; }
    v
}
// the harness's own file accesses are not subject to the plan
fn put_plain(p: &str, d: &[u8]) { sys::io::plain(|| put(p, d)); }
fn get_plain(p: &str) -> Vec<u8> { sys::io::plain(|| get(p)) }

pub fn t14(ctx: &Ctx) {
    const KINDS: [Fault; 5] = [Fault::One, Fault::Half, Fault::AllButOne, Fault::Intr, Fault::Storm];
    let cases = io_cases();
    let run = |c: &Case, plan: &[Fault], tail: &[Fault]| mc::with_scratch(|s| with_faults(plan, tail, || mc::catch(|| (c.run)(s))));
    let mut work: Vec<(usize, Vec<u8>, usize)> = vec![];
    if ctx.part("without faults") {
        for (k, c) in cases.iter().enumerate() {
            let (r, calls, _) = run(c, &[], &[]);
            ctx.count(&format!("io calls: {}", c.name), calls as u64);
            match r { Ok(v) => { if calls > 0 { work.push((k, v, calls)); } } Err(p) => { ctx.count("not runnable", 1); ctx.cap(&format!("{} fails without faults: {}", c.name, p.msg)); } }
            ctx.add(1, calls as u64, 1);
        }
    }
    let judge = |k: usize, base: &Vec<u8>, plan: &[Fault], tail: &[Fault]| {
        let (r, calls, made) = run(&cases[k], plan, tail);
        ctx.add(1, calls as u64, 1);
        ctx.count("faults", made as u64);
        let d = || json!({"operation": cases[k].name, "plan": format!("{plan:?}"), "then": format!("{tail:?}")});
        match r {
            Err(p) => ctx.violation("fails", &format!("{} fails when the system serves I/O in parts: {}", cases[k].name, p.msg), d()),
            Ok(v) if v != *base => ctx.violation("differs", &format!("{} gives another result when the system serves I/O in parts", cases[k].name), d()),
            _ => {}
        }
    };
    if ctx.part("one fault at every call") {
        // large transfers: at most about forty of the calls
        let all: Vec<(usize, usize, Fault)> = work.iter().enumerate().flat_map(|(w, x)| marks(x.2 + 1, if cases[x.0].heavy { ctx.pick(40, 400) } else { usize::MAX }).into_iter().flat_map(move |i| KINDS.map(|f| (w, i, f)))).collect();
        ctx.par(all.len(), |j| { let (w, i, f) = all[j]; let mut plan = vec![Fault::None; i]; plan.push(f); judge(work[w].0, &work[w].1, &plan, &[]); });
    }
    if ctx.part("every call faulty") {
        let tails: Vec<Vec<Fault>> = mc::all_vecs(5, 1).chain(mc::all_vecs(5, 2)).chain(mc::all_vecs(5, 3)).map(|v| v.iter().map(|&x| [Fault::None, KINDS[0], KINDS[1], KINDS[2], KINDS[3]][x]).collect()).chain([vec![Fault::Storm]]).collect();
        let all: Vec<(usize, usize)> = (0..work.len()).flat_map(|w| (0..if cases[work[w].0].heavy { ctx.pick(5, 30) } else { tails.len() }).map(move |t| (w, t))).rev().collect();
        ctx.par(all.len(), |j| judge(work[all[j].0].0, &work[all[j].0].1, &[], &tails[all[j].1]));
    }
    if ctx.part("two faults") {
        let cap = ctx.pick(70usize, 400);
        let all: Vec<(usize, usize, usize, Fault, Fault)> = work.iter().enumerate().filter(|(_, x)| x.2 <= cap && (!cases[x.0].heavy || x.2 <= 12)).flat_map(|(w, x)| { let n = x.2 + 1; (0..n).flat_map(move |a| (a + 1..n + 1).flat_map(move |b| [(Fault::One, Fault::One), (Fault::One, Fault::Intr), (Fault::Intr, Fault::One), (Fault::Half, Fault::AllButOne)].map(|(f, g)| (w, a, b, f, g)))) }).collect();
        ctx.par(all.len(), |j| { let (w, a, b, f, g) = all[j]; let mut plan = vec![Fault::None; b + 1]; plan[a] = f; plan[b] = g; judge(work[w].0, &work[w].1, &plan, &[]); });
    }
    ctx.assume("faults are injected into read, write, pread, pwrite, readv and writev of regular files; a call is interrupted at most nine times in a row");
}

// ---- T18 ----

// complete pipelines: sealed and unsealed data, public data, and how many records were written
fn run_cases(v: &mut Vec<Case>) {
    for (name, unseal) in [("pipeline, sealing", false), ("pipeline, sealing and unsealing", true)] {
        for save in [false, true] {
            let p = small(64, 3, 1);
            v.push(Case { name, heavy: false, run: Box::new(move |s| {
                let data = pattern(3, p.data_l);
                // the directory may hold files of other cases
                for f in ["s", "u", "k", "run", "stat"] { let _ = std::fs::remove_file(s.path(f)); }
                put_plain(&s.path("o"), &data);
                let open = |f: &str| std::fs::OpenOptions::new().read(true).append(true).create(true).open(s.path(f)).unwrap();
                let (mut run, mut stat) = (open("run"), open("stat"));
                let words: Vec<u64> = (0..256).map(mc::mix).collect();
                mc_rand::with_script(&words, &[], || seal_and_unseal(&p, &s.path("o"), &s.path("s"), &s.path("u"), &s.path("k"), &mut run, save, unseal, &mut stat));
                let lines = |f: &str| get_plain(&s.path(f)).iter().filter(|&&b| b == b'\n').count() as u8;
                // files the run did not make count as empty
                let left = |f: &str| if std::path::Path::new(&s.path(f)).exists() { get_plain(&s.path(f)) } else { vec![] };
                [get_plain(&s.path("o")), left("s"), left("u"), left("k"), vec![lines("run"), lines("stat")]].concat()
            }) });
        }
    }
}

pub fn t18(ctx: &Ctx) {
    ctx.bound("failures", "one failing call at every read and write, all calls failing from every call on, one failure after one partial or interrupted call (runs of up to 40 calls, thorough 200)");
    let mut cases = io_cases();
    run_cases(&mut cases);
    let run = |c: &Case, plan: &[Fault], tail: &[Fault]| mc::with_scratch(|s| with_faults(plan, tail, || mc::catch(|| (c.run)(s))));
    let mut work: Vec<(usize, Vec<u8>, usize)> = vec![];
    if ctx.part("without failures") {
        for (k, c) in cases.iter().enumerate() {
            let (r, calls, _) = run(c, &[], &[]);
            ctx.count(&format!("io calls: {}", c.name), calls as u64);
            match r { Ok(v) => { if calls > 0 { work.push((k, v, calls)); } } Err(p) => { ctx.count("not runnable", 1); ctx.cap(&format!("{} fails without failures: {}", c.name, p.msg)); } }
            ctx.add(1, calls as u64, 1);
        }
    }
    let judge = |k: usize, base: &Vec<u8>, plan: &[Fault], tail: &[Fault]| {
        let c = &cases[k];
        let (r, calls, made) = run(c, plan, tail);
        ctx.add(1, calls as u64, 1);
        ctx.count("failures", made as u64);
        match r {
            Err(_) => ctx.count("reported", 1),
            Ok(v) => {
                // verdicts: a failure may turn an acceptance into a rejection, never the reverse
                let verdicts = c.name.starts_with("batch_verify") || c.name.starts_with("batch_unseal_and_verify");
                let fine = if verdicts { v.len() == base.len() && v.iter().zip(base).all(|(a, b)| a <= b) } else { v == *base };
                if !fine { ctx.violation("unnoticed", &format!("{} ends as if it had succeeded, with another result, when the system fails one of its reads or writes", c.name), json!({"operation": c.name, "plan": format!("{plan:?}"), "then": format!("{tail:?}")})); }
                else { ctx.count("without effect", 1); }
            }
        }
    };
    let spots = |x: &(usize, Vec<u8>, usize)| marks(x.2, if cases[x.0].heavy { ctx.pick(40, 400) } else { usize::MAX });
    if ctx.part("one failure at every call") {
        let all: Vec<(usize, usize)> = work.iter().enumerate().flat_map(|(w, x)| spots(x).into_iter().map(move |i| (w, i))).collect();
        ctx.par(all.len(), |j| { let (w, i) = all[j]; let mut plan = vec![Fault::None; i]; plan.push(Fault::Fail); judge(work[w].0, &work[w].1, &plan, &[]); });
    }
    if ctx.part("failing from every call on") {
        let all: Vec<(usize, usize)> = work.iter().enumerate().flat_map(|(w, x)| spots(x).into_iter().map(move |i| (w, i))).collect();
        ctx.par(all.len(), |j| { let (w, i) = all[j]; judge(work[w].0, &work[w].1, &vec![Fault::None; i], &[Fault::Fail]); });
    }
    if ctx.part("a failure after a partial or interrupted call") {
        let cap = ctx.pick(40usize, 200);
        // a partial call is continued, so the failure may hit its continuation
        let all: Vec<(usize, usize, usize, Fault)> = work.iter().enumerate().filter(|(_, x)| x.2 <= cap && (!cases[x.0].heavy || x.2 <= 12)).flat_map(|(w, x)| { let n = x.2; (0..n).flat_map(move |a| (a + 1..n + 1).flat_map(move |b| [Fault::One, Fault::Half, Fault::Intr].map(|f| (w, a, b, f)))) }).collect();
        ctx.par(all.len(), |j| { let (w, a, b, f) = all[j]; let mut plan = vec![Fault::None; b + 1]; plan[a] = f; plan[b] = Fault::Fail; judge(work[w].0, &work[w].1, &plan, &[]); });
    }
    ctx.sample(json!({"operation": "copy_and_pad", "plan": ["None", "Fail"], "outcome": "ends with a panic"}));
    ctx.assume("failures are injected into read, write, pread, pwrite, readv and writev of regular files on the calling thread: EIO for reads, ENOSPC for writes; opening, seeking and truncating succeed");
}

// ---- T16 ----

fn small(pl: usize, blocks: usize, units: usize) -> PosPara {
    let mut p = Cfg { blocks, units, unit_l: pl - 1, seal: 1, vde: 1, ml: 0, cl: 0, ms: 0, cs: 10 }.para();
    p.leaves_to_prove_count = 3;
    p
}
fn pipeline(p: &PosPara, data: &[u8], s: &mc::Scratch, unseal: bool, save: bool, script: u64) -> Result<(), mc::Panicked> {
    put(&s.path("o"), data);
    let mut run = std::fs::OpenOptions::new().read(true).append(true).create(true).open(s.path("run")).unwrap();
    let mut stat = std::fs::OpenOptions::new().read(true).append(true).create(true).open(s.path("stat")).unwrap();
    let words: Vec<u64> = (0..256).map(|k| mc::mix(k + (script << 20))).collect();
    mc_rand::with_script(&words, &[], || mc::catch(|| seal_and_unseal(p, &s.path("o"), &s.path("s"), &s.path("u"), &s.path("k"), &mut run, save, unseal, &mut stat))).0
}
fn unseal_ok(p: &PosPara, s: &mc::Scratch, workers: usize) -> bool { mc::catch(|| test_unseal_single_and_verify(p, &s.path("k"), &s.path("o"), &s.path("s"), workers)).is_ok() }

pub fn t16(ctx: &Ctx) {
    let paras: Vec<PosPara> = {
        let mut v = vec![small(64, 10, 1), small(64, 11, 2), small(64, 12, 3), small(128, 10, 1), small(256, 10, 1), small(64, 33, 1)];
        for (ml, cl, ms, cs) in [(1, 2, 1, 2), (2, 3, 2, 2), (3, 0, 1, 1), (0, 2, 2, 3)] { let mut p = small(64, 12, 2); p.mode_l = ml; p.cnt_l = cl; p.mode_s = ms; p.cnt_s = cs; v.push(p); }
        v
    };
    if ctx.part("honest and cheating prover, sealed data") {
        ctx.par(paras.len(), |k| {
            let p = &paras[k];
            let d = |w: mc::serde_json::Value| json!({"config": js(&Cfg::of(p)), "case": w});
            let s = mc::Scratch::new();
            let data = pattern(3, p.data_l);
            if let Err(e) = pipeline(p, &data, &s, false, k % 2 == 0, 5) { return ctx.violation("panic", &format!("sealing with the pipeline fails: {}", e.msg), d(json!(null))); }
            let sealed = get(&s.path("s"));
            if sealed.len() != p.data_l / p.unit_l * p.unit_pl { return ctx.violation("length", "the sealed data has a wrong length", d(json!(null))); }
            if get(&s.path("o")) != data { return ctx.violation("origin", "the pipeline changes the original", d(json!(null))); }
            ctx.add(1, 1, 1);
            for w in [0usize, 1, 2, 4] {
                if !unseal_ok(p, &s, w) { return ctx.violation("honest", "an honest prover is rejected", d(json!({"workers": w}))); }
                ctx.add(1, 1, 1);
            }
            if get(&s.path("s")) != sealed { return ctx.violation("sealed-changed", "a challenge changes the sealed data", d(json!(null))); }
            // replaced blocks: every block of the challenged range, several kinds of content
            let kinds: usize = ctx.pick(3, 6);
            for b in 0..10 {
                let at = b * p.block_pl..(b + 1) * p.block_pl;
                for kind in 0..kinds {
                    let mut x = sealed.clone();
                    match kind {
                        0 => x[at.start] ^= 1,
                        1 => x[at.clone()].fill(0),
                        2 => { let o = ((b + 1) % 10) * p.block_pl; let c = sealed[o..o + p.block_pl].to_vec(); x[at.clone()].copy_from_slice(&c); }
                        3 => x[at.end - 2] ^= 0x80,
                        // the padded original instead of the sealed block
                        4 => { let c = padded(&data[b * p.block_l..(b + 1) * p.block_l], p.unit_l); x[at.clone()].copy_from_slice(&c); }
                        _ => { let m = at.start + p.block_pl / 2; x[m] ^= 2; }
                    }
                    put(&s.path("s"), &x);
                    let w = if ctx.quick() { [0, 2][(b + kind) % 2] } else { [0, 1, 2, 3][(b + kind) % 4] };
                    if unseal_ok(p, &s, w) { return ctx.violation("cheat", "a prover who replaced a challenged block is accepted", d(json!({"block": b, "kind": kind, "workers": w}))); }
                    ctx.add(1, 1, 1);
                }
            }
            put(&s.path("s"), &sealed);
            // other public data
            let (key, iv) = load_data(&s.path("k"));
            for kk in [0usize, 64, 127] {
                let mut v = iv.clone();
                v[kk] ^= 1;
                save_data(&s.path("k"), &key, &v);
                if unseal_ok(p, &s, kk % 3) { return ctx.violation("iv", "sealed data is accepted with another IV", d(json!({"iv_byte": kk}))); }
                ctx.add(1, 1, 1);
            }
            save_data(&s.path("k"), &key, &iv);
            if !unseal_ok(p, &s, 0) { ctx.violation("honest", "an honest prover is rejected", d(json!("restored"))); }
            // another original
            for b in 0..10 { let mut o = data.clone(); o[(b + 1) * p.block_l - 1] ^= 1; put(&s.path("o"), &o); if unseal_ok(p, &s, b % 2) { return ctx.violation("other-origin", "sealed data of another original is accepted", d(json!({"block": b}))); } ctx.add(1, 1, 1); }
        });
    }
    if ctx.part("unsealed copy and Merkle check") {
        ctx.par(paras.len(), |k| {
            let p = &paras[k];
            let d = |w: mc::serde_json::Value| json!({"config": js(&Cfg::of(p)), "case": w});
            let s = mc::Scratch::new();
            let data = pattern(4, p.data_l);
            if let Err(e) = pipeline(p, &data, &s, true, k % 2 == 1, 9) { return ctx.violation("panic", &format!("the pipeline fails: {}", e.msg), d(json!(null))); }
            if get(&s.path("u")) != data { return ctx.violation("unsealed", "the unsealed copy is not the original", d(json!(null))); }
            ctx.add(1, 1, 1);
            let n = p.data_l / p.block_l;
            let wide: Vec<u64> = vec![];
            let merkle = |words: &[u64], cnt: usize| mc_rand::with_script(words, &wide, || mc::catch(|| merkle_tree_proof(&s.path("o"), &s.path("u"), p.data_l, p.block_l, cnt)).is_ok()).0;
            // every first challenge, every count
            for cnt in 1..=n { for a in 0..16 { for b in (0..16).step_by(ctx.pick(5, 1)) {
                if !merkle(&[NIB(a), NIB(b)], cnt) { return ctx.violation("merkle-honest", "an honest unsealed copy fails the Merkle check", d(json!({"challenges": cnt, "draws": [a, b]}))); }
                ctx.add(1, 1, 1);
            } } }
            for b in 0..n { for kind in 0..3 {
                let mut x = data.clone();
                let at = b * p.block_l..(b + 1) * p.block_l;
                match kind { 0 => x[at.start] ^= 1, 1 => x[at.end - 1] ^= 0x80, _ => x[at].fill(0xAB) }
                put(&s.path("u"), &x);
                // all blocks challenged, so this one is
                for cnt in [n, p.leaves_to_prove_count] { for a in 0..ctx.pick(4, 16) {
                    let ok = merkle(&[NIB(a * 3 % 16), NIB(a)], cnt);
                    ctx.add(1, 1, 1);
                    if ok && cnt == n { return ctx.violation("merkle-cheat", "an altered unsealed copy passes the Merkle check", d(json!({"block": b, "kind": kind, "challenges": cnt}))); }
                    if ok { ctx.count("unchallenged alterations accepted", 1); }
                } }
            } }
        });
    }
    if ctx.part("pipeline, many shapes") {
        let mut v: Vec<PosPara> = vec![];
        for (i, blocks) in [10usize, 13, 24, 45, 70, 130, 260].into_iter().enumerate() { for (j, units) in [1usize, 5, 18, 45, 64, 100].into_iter().enumerate() { for (h, (seal, vde)) in [(1usize, 1usize), (2, 10), (1, 3), (3, 2), (5, 1)].into_iter().enumerate() { for pl in [64usize, 128, 256] {
            let cost = blocks * units * seal * vde * match pl { 64 => 1, 128 => 4, _ => 25 };
            if cost > ctx.pick(3_000, 60_000) && !(blocks == 10 && units == 64 && pl == 64) { continue; }
            let rules = [(0, 0, 0, 10), (0, 3, 1, 5), (1, 4, 0, 4), (2, 12, 2, 8), (3, 0, 0, 1)];
            for (r, (ml, cl, ms, cs)) in rules.into_iter().enumerate() {
                if (ctx.quick() || pl > 64) && r != if pl == 64 && (i + j + h) % 2 == 0 { 0 } else { (i + j + h) % 5 } { continue; }
                let mut p = small(pl, blocks, units);
                p.seal_rounds = seal; p.vde_rounds = vde; p.mode_l = ml; p.cnt_l = cl; p.mode_s = ms; p.cnt_s = cs;
                v.push(p);
            }
        } } } }
        v.sort_by_key(|p| p.data_l * p.seal_rounds * p.vde_rounds * p.unit_l);
        ctx.bound("pipeline shapes", v.len());
        ctx.par(v.len(), |k| {
            let p = &v[v.len() - 1 - k];
            let d = |w: mc::serde_json::Value| json!({"config": js(&Cfg::of(p)), "case": w});
            let s = mc::Scratch::new();
            let data = pattern(if k % 2 == 0 { 40 } else { 3 }, p.data_l);
            if let Err(e) = pipeline(p, &data, &s, false, k % 3 == 0, 5 + k as u64) { return ctx.violation("panic", &format!("sealing with the pipeline fails: {}", e.msg), d(json!(null))); }
            if get(&s.path("o")) != data { return ctx.violation("origin", "the pipeline changes the original", d(json!(null))); }
            if !unseal_ok(p, &s, k % 4) { return ctx.violation("honest", "an honest prover is rejected", d(json!({"workers": k % 4}))); }
            let sealed = get(&s.path("s"));
            for (j, b) in [k % 10, 9, 0].into_iter().enumerate() {
                let mut x = sealed.clone();
                x[b * p.block_pl + [0, p.block_pl / 2, p.block_pl - 2][j]] ^= 1;
                put(&s.path("s"), &x);
                if unseal_ok(p, &s, (k + j + 1) % 3) { return ctx.violation("cheat", "a prover who replaced a challenged block is accepted", d(json!({"block": b, "workers": (k + j + 1) % 3}))); }
            }
            ctx.add(4, 4, 4);
            let f = mc::Scratch::new();
            if let Err(e) = pipeline(p, &data, &f, true, k % 3 == 1, 6 + k as u64) { return ctx.violation("panic", &format!("the pipeline fails: {}", e.msg), d(json!(null))); }
            if get(&f.path("o")) != data || get(&f.path("u")) != data { return ctx.violation("unsealed", "the unsealed copy is not the original", d(json!(null))); }
            let words: Vec<u64> = (0..64).map(|j| mc::mix((k as u64) << 10 | j)).collect();
            let merkle = |cnt: usize| mc_rand::with_script(&words, &[], || mc::catch(|| merkle_tree_proof(&f.path("o"), &f.path("u"), p.data_l, p.block_l, cnt)).is_ok()).0;
            let n = p.data_l / p.block_l;
            if !merkle(3) || !merkle(n) { return ctx.violation("merkle-honest", "an honest unsealed copy fails the Merkle check", d(json!(null))); }
            for at in [0, p.data_l / 2, p.data_l - 1] { let mut x = data.clone(); x[at] ^= 4; put(&f.path("u"), &x); if merkle(n) { return ctx.violation("merkle-cheat", "an altered unsealed copy passes the Merkle check", d(json!({"byte": at}))); } }
            ctx.add(2, 6, 6);
        });
    }
    if ctx.part("Merkle check, many blocks") {
        let ns = ctx.pick(vec![300usize, 129, 70, 65, 33, 17, 9], vec![1025, 513, 300, 257, 200, 129, 128, 100, 70, 65, 64, 33, 32, 17, 16, 9, 8]);
        ctx.par(ns.len(), |k| {
            let n = ns[k];
            let l = 5;
            let s = mc::Scratch::new();
            let data = pattern(4, n * l);
            put(&s.path("o"), &data);
            put(&s.path("u"), &data);
            let merkle = |o: u64, cnt: usize| { let words: Vec<u64> = (0..64 + 8 * cnt as u64).map(|j| mc::mix((o << 24) + j)).collect(); mc_rand::with_script(&words, &[], || mc::catch(|| merkle_tree_proof(&s.path("o"), &s.path("u"), n * l, l, cnt)).is_ok()).0 };
            for cnt in marks(n, 20).into_iter().map(|c| c + 1) { if !merkle(1, cnt) { return ctx.violation("merkle-honest", "an honest unsealed copy fails the Merkle check", json!({"blocks": n, "challenges": cnt})); } ctx.add(1, cnt as u64, 1); }
            let some = if n > 100 { marks(n, 12).into_iter().step_by(2).chain([n - 1]).collect() } else { marks(n, ctx.pick(24, 64)) };
            for (j, b) in marks(n, ctx.pick(80, 300)).into_iter().enumerate() {
                let mut x = data.clone();
                x[b * l + j % l] ^= 1;
                put(&s.path("u"), &x);
                // all blocks challenged: this one is
                if merkle(2 + j as u64, n) { return ctx.violation("merkle-cheat", "an altered unsealed copy passes the Merkle check", json!({"blocks": n, "block": b, "challenges": n})); }
                ctx.add(1, n as u64, 1);
                // a few challenges: under some outcome this one is among them
                if some.contains(&b) { for cnt in [1, n / 3] {
                    let tries = 20 * (n / cnt) as u64 + 20;
                    if (0..tries).all(|o| { ctx.add(0, cnt as u64, 1); merkle(1000 + o, cnt) }) { return ctx.violation("merkle-never", "an altered block passes the Merkle check under every outcome of the challenges", json!({"blocks": n, "block": b, "challenges": cnt, "outcomes": tries})); }
                } }
                if ctx.stopped() { return; }
            }
            // almost everything altered: every challenge set that misses the one original block is rejected
            let mut x = data.clone();
            for i in 0..n { if i != n / 2 { x[i * l] ^= 0x10; } }
            put(&s.path("u"), &x);
            for cnt in [2, 3.min(n), n / 2, n - 1] { for o in 0..4 { if merkle(o, cnt) { return ctx.violation("merkle-cheat", "a wholly altered copy passes the Merkle check", json!({"blocks": n, "challenges": cnt})); } ctx.add(1, cnt as u64, 1); } }
        });
    }
    if ctx.part("histories on the same paths") {
        // all histories of pipelines over three inputs of different sizes, compared with fresh paths
        let ps = [small(64, 10, 1), small(64, 12, 1), small(64, 10, 2)];
        let all: Vec<Vec<usize>> = (1..=ctx.pick(2usize, 3)).flat_map(|l| mc::all_vecs(6, l)).collect();
        ctx.par(all.len(), |k| {
            let s = mc::Scratch::new();
            for (step, &op) in all[k].iter().enumerate() {
                let (p, un) = (&ps[op % 3], op / 3 == 1);
                let d = || json!({"history": all[k], "step": step});
                let data = pattern(3 + step, p.data_l);
                if let Err(e) = pipeline(p, &data, &s, un, step % 2 == 0, 20 + step as u64) { return ctx.violation("panic", &format!("the pipeline fails: {}", e.msg), d()); }
                let f = mc::Scratch::new();
                let _ = pipeline(p, &data, &f, un, false, 20 + step as u64);
                for n in if un { vec!["s", "u"] } else { vec!["s"] } { if get(&s.path(n)) != get(&f.path(n)) { return ctx.violation("history", "a pipeline on used paths gives other files than on fresh paths", d()); } }
                if mc::catch(|| load_data(&s.path("k"))).ok() != mc::catch(|| load_data(&f.path("k"))).ok() { return ctx.violation("history", "a pipeline on used paths leaves other public data than on fresh paths", d()); }
                if un { if get(&s.path("u")) != data { return ctx.violation("unsealed", "the unsealed copy is not the original", d()); } }
                else if !unseal_ok(p, &s, step % 3) { return ctx.violation("honest", "an honest prover is rejected", d()); }
                ctx.add(1, 3, 1);
            }
        });
    }
    if ctx.part("the command pipeline") {
        // test_postorage works on fixed relative paths: in a scratch directory
        let s = mc::Scratch::new();
        std::fs::create_dir_all(s.0.join("src/proof_of_storage/data")).unwrap();
        let home = std::env::current_dir().unwrap();
        std::env::set_current_dir(&s.0).unwrap();
        let dir = s.0.join("src/proof_of_storage/data");
        let p = small(64, 12, 2);
        let go = |seal, unseal, leaves, single, par| mc::catch(|| test_postorage(p.clone(), true, seal, unseal, leaves, single, par)).is_ok();
        let f = |n: &str| dir.join(n).to_str().unwrap().to_string();
        let mut ok = |what: &str, r: bool| { ctx.add(1, 1, 1); if !r { ctx.violation("command", what, json!(null)); } };
        ok("seal and challenge fails for an honest prover", go(true, false, false, true, 0));
        ok("a later challenge fails for an honest prover", go(false, false, false, true, 3));
        let sealed = get(&f("sealed_data"));
        for b in 0..10 { let mut x = sealed.clone(); x[b * p.block_pl] ^= 1; put(&f("sealed_data"), &x); ok("a cheating prover is accepted", !go(false, false, false, true, b % 3)); }
        put(&f("sealed_data"), &sealed);
        ok("a challenge fails after restoring the sealed data", go(false, false, false, true, 2));
        ok("seal, unseal and Merkle check fail for an honest prover", go(true, true, true, false, 0));
        ok("the unsealed copy is not the original", get(&f("unsealed_data")) == get(&f("origin_data")));
        let mut x = get(&f("unsealed_data"));
        let orig = get(&f("origin_data"));
        for i in 0..x.len() { x[i] ^= 1; }
        put(&f("unsealed_data"), &x);
        ok("a wholly wrong unsealed copy passes the Merkle check", !go(false, false, true, false, 0));
        ok("the original was changed by a check", get(&f("origin_data")) == orig);
        std::env::set_current_dir(home).unwrap();
    }
}
