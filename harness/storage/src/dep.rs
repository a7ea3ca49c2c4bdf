//! T07: dependency lists.
use super::util::*;
use mc::{serde_json::json, Ctx};
use storage_real::proof_of_storage::{depend::*, prover::{create_long_depend, create_short_depend}};

fn sorted_distinct(v: &[usize]) -> bool { v.windows(2).all(|w| w[0] < w[1]) }

pub fn t07(ctx: &Ctx) {
    if ctx.part("rule modes") {
        let n = ctx.pick(150usize, 400);
        let counts: Vec<usize> = (0..=14).chain([20, 63, 64, 65, 66, 70, 128, 200, 1000]).collect();
        ctx.bound("positions", n);
        ctx.par(n, |index| {
            for &count in &counts {
                for mode in 0..=5 {
                    let want = ref_long_rule(index, count, mode);
                    let got = mc::catch(|| match mode { 1 => (long_mode_1(index, count), long_depend(index, count, 1)), 2 => (long_mode_2(index, count), long_depend(index, count, 2)), 3 => (long_mode_3(index), long_depend(index, count, 3)), m => { let v = long_depend(index, count, m); (v.clone(), v) } });
                    ctx.add(1, 1, 1);
                    match got {
                        Ok((a, b)) if a == want && b == want => { if want.iter().any(|&x| x >= index) { ctx.violation("long-later", "a long dependency points to a later block", json!({"index": index, "count": count, "mode": mode})); } }
                        g => return ctx.violation("long-rule", "a long dependency list does not follow its rule", json!({"index": index, "count": count, "mode": mode, "want": want, "got": g.map(|x| x.1).unwrap_or_default()})),
                    }
                }
                for num in (index + 1..index + 12).chain([n, n + 1, 2 * n]) {
                    if num <= index { continue; }
                    for mode in 0..=4 {
                        let want = ref_short_rule(num, index, count, mode);
                        let got = mc::catch(|| match mode { 1 => (short_mode_1(num, index, count), short_depend(num, index, count, 1)), 2 => (short_mode_2(num, index, count), short_depend(num, index, count, 2)), m => { let v = short_depend(num, index, count, m); (v.clone(), v) } });
                        ctx.add(1, 1, 1);
                        match got {
                            Ok((a, b)) if a == want && b == want => { if want.iter().any(|&x| x >= num || x == index) || want.len() > count { ctx.violation("short-outside", "a short dependency points outside the block or to itself", json!({"num": num, "index": index, "count": count, "mode": mode})); } }
                            g => return ctx.violation("short-rule", "a short dependency list does not follow its rule", json!({"num": num, "index": index, "count": count, "mode": mode, "want": want, "got": g.map(|x| x.1).unwrap_or_default()})),
                        }
                    }
                }
            }
        });
        // all positions of small blocks
        ctx.par(ctx.pick(40, 90), |num| for index in 0..num { for count in 0..=num + 2 { for mode in 1..=2 {
            if mc::catch(|| short_depend(num, index, count, mode)).ok() != Some(ref_short_rule(num, index, count, mode)) { return ctx.violation("short-rule", "a short dependency list does not follow its rule", json!({"num": num, "index": index, "count": count, "mode": mode})); }
            ctx.add(1, 1, 1);
        } } });
    }
    if ctx.part("rule modes, large positions") {
        let idx: Vec<usize> = (0..63u32).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1, (1 << b) + 2]).filter(|&x| x > 100).collect();
        ctx.par(idx.len(), |k| {
            let index = idx[k];
            for count in [0usize, 1, 2, 5, 31, 32, 33, 63, 64, 65, 70, 130] {
                for mode in [1, 2] {
                    if mc::catch(|| long_depend(index, count, mode)).ok() != Some(ref_long_rule(index, count, mode)) { ctx.violation("long-rule", "a long dependency list does not follow its rule", json!({"index": index, "count": count, "mode": mode})); }
                    ctx.add(1, 1, 1);
                }
                for num in [index + 1, index + 2, 2 * index] {
                    if mc::catch(|| short_depend(num, index, count, 2)).ok() != Some(ref_short_rule(num, index, count, 2)) { ctx.violation("short-rule", "a short dependency list does not follow its rule", json!({"num": num, "index": index, "count": count, "mode": 2})); }
                    if mc::catch(|| short_depend(num, index, count, 1)).ok() != Some(ref_short_rule(num, index, count.min(130), 1)) && count < 130 { ctx.violation("short-rule", "a short dependency list does not follow its rule", json!({"num": num, "index": index, "count": count, "mode": 1})); }
                    ctx.add(2, 2, 2);
                }
            }
        });
        // many dependencies of far positions
        let at: Vec<usize> = (150..ctx.pick(600usize, 3000)).step_by(ctx.pick(13, 7)).chain([255, 256, 257, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65_535, 65_536, 65_537]).collect();
        ctx.par(at.len(), |k| {
            let index = at[at.len() - 1 - k];
            for count in (100..=700usize).step_by(ctx.pick(47, 9)).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 5000, 40_000]) { for mode in [1, 2] {
                if mc::catch(|| long_depend(index, count, mode)).ok() != Some(ref_long_rule(index, count, mode)) { return ctx.violation("long-rule", "a long dependency list does not follow its rule", json!({"index": index, "count": count, "mode": mode})); }
                ctx.add(1, 1, 1);
                if mode == 1 || count < 60 { for num in [index + 1, index + 300, 2 * index] {
                    if mc::catch(|| short_depend(num, index, count, mode)).ok() != Some(ref_short_rule(num, index, count, mode)) { return ctx.violation("short-rule", "a short dependency list does not follow its rule", json!({"num": num, "index": index, "count": count, "mode": mode})); }
                    ctx.add(1, 1, 1);
                } }
            } }
        });
        for index in (0..3000usize).step_by(7).chain([100_000, 1_000_000]) {
            if mc::catch(|| long_depend(index, 0, 3)).ok() != Some(ref_long_rule(index, 0, 3)) { ctx.violation("long-rule", "a long dependency list does not follow its rule", json!({"index": index, "mode": 3})); }
            ctx.add(1, 1, 1);
        }
    }
    if ctx.part("every pair of calls in a row") {
        let nums = [40usize, 300];
        let datas = [pattern(3, 40), pattern(4, 40), { let mut d = pattern(3, 40); d[39] ^= 1; d }, pattern(3, 39)];
        // what each call gives on its own, in a thread of its own
        let n = 2 * 3 * 2 * 4 * 2;
        let call = |c: usize| {
            let (num, index, count, data) = (nums[c % 2], [7usize, 8, 39][c / 2 % 3], [2usize, 5][c / 6 % 2], &datas[c / 12 % 4]);
            if c / 48 == 0 { long_mode_random(num, data, index, count) } else { short_depend_random(num, data, index, count) }
        };
        let alone: Vec<Option<Vec<usize>>> = (0..n).map(|c| std::thread::scope(|s| s.spawn(|| mc::catch(|| call(c)).ok()).join().unwrap())).collect();
        ctx.pairs(n, |c| {
            let r = mc::catch(|| call(c)).ok();
            let ok = r.is_some() && r == alone[c];
            if !ok { ctx.violation("history", "the dependencies of the same input differ after another call", json!({"case": c, "alone": alone[c], "later": r})); }
            ok
        });
        ctx.pairs(2 * 3 * 3 * 3 * 2, |c| {
            let (num, index, count, mode) = (nums[c % 2], [7usize, 8, 39][c / 2 % 3], [0usize, 2, 5][c / 6 % 3], 1 + c / 18 % 3);
            let (got, want) = if c / 54 == 0 { (mc::catch(|| long_depend(index, count, mode)).ok(), ref_long_rule(index, count, mode)) } else { (mc::catch(|| short_depend(num, index, count, mode)).ok(), ref_short_rule(num, index, count, mode)) };
            let ok = got.as_ref() == Some(&want);
            if !ok { ctx.violation("history", "a dependency list differs from its rule after another call", json!({"case": c, "want": want, "got": got})); }
            ok
        });
        ctx.pairs(2 * 2 * 4 * 2, |c| {
            let (num, count, mode) = ([6usize, 9][c % 2], [2usize, 3][c / 2 % 2], 1 + c / 4 % 4);
            let (got, want): (_, Vec<Vec<usize>>) = if c / 16 == 0 { (mc::catch(|| create_long_depend(num, count, mode)).ok(), (0..num).map(|i| ref_long_rule(i, count, mode)).collect()) } else { (mc::catch(|| create_short_depend(num, count, mode)).ok(), (0..num).map(|i| ref_short_rule(num, i, count, mode)).collect()) };
            let ok = got.as_ref() == Some(&want);
            if !ok { ctx.violation("history", "a table of dependencies differs from its rule after another call", json!({"case": c})); }
            ok
        });
    }
    if ctx.part("tables of lists") {
        for num in 0..=ctx.pick(40usize, 120) { for count in [0usize, 1, 3, 20] { for mode in 0..=4 {
            let l = mc::catch(|| create_long_depend(num, count, mode)).ok();
            let s = mc::catch(|| create_short_depend(num, count, mode)).ok();
            if l != Some((0..num).map(|i| ref_long_rule(i, count, mode)).collect()) { ctx.violation("long-table", "the table of long dependencies is wrong", json!({"num": num, "count": count, "mode": mode})); }
            if s != Some((0..num).map(|i| ref_short_rule(num, i, count, mode)).collect()) { ctx.violation("short-table", "the table of short dependencies is wrong", json!({"num": num, "count": count, "mode": mode})); }
            ctx.add(2, 2, 2);
        } } }
    }
    if ctx.part("hash modes, form") {
        let datas: Vec<Vec<u8>> = (0..ctx.pick(60u32, 400)).map(|k| k.to_le_bytes()[..(k % 5) as usize].to_vec()).chain([vec![], vec![0; 32], vec![255; 64], pattern(3, 4096)]).collect();
        let nums: Vec<usize> = vec![1, 2, 3, 4, 5, 7, 16, 17, 100, 255, 256, 257, 258, 300, 512, 1000, 4096, 65535, 65536, 65537, 65600, 100_000, 1 << 24];
        let counts = [0usize, 1, 2, 3, 5, 8, 10, 15, 16, 17, 20, 31, 32, 33, 40, 47, 48, 49, 64, 100, 400];
        ctx.par(nums.len(), |k| {
            let num = nums[k];
            let mut idx: Vec<usize> = (0..num.min(6)).chain([num / 3, num / 2, num.saturating_sub(2), num - 1]).collect();
            idx.sort();
            idx.dedup();
            for &index in &idx { for data in &datas { for &count in &counts {
                let d = || json!({"num": num, "index": index, "count": count, "data": data.iter().take(8).collect::<Vec<_>>(), "data_len": data.len()});
                match mc::catch(|| (long_mode_random(num, data, index, count), long_mode_random(num, data, index, count))) {
                    Err(p) => ctx.violation("long-panic", &format!("choosing long dependencies fails: {}", p.msg), d()),
                    Ok((a, b)) => {
                        if a != b { ctx.violation("long-repeat", "the same input gives different long dependencies", d()); }
                        if a.len() > count || !sorted_distinct(&a) { ctx.violation("long-form", "long dependencies are not a sorted list of distinct positions within the requested count", d()); }
                        if a.iter().any(|&x| x >= index) { ctx.violation("long-later", "a long dependency points to the block itself or a later one", d()); }
                        if index > 0 && count > 0 && a.is_empty() { ctx.violation("long-none", "no long dependency although there are earlier blocks", d()); }
                        if a != ref_long_random(num, data, index, count) { ctx.violation("long-digest", "the long dependencies are not those the digest chain names", d()); }
                    }
                }
                match mc::catch(|| (short_depend_random(num, data, index, count), short_depend_random(num, data, index, count))) {
                    Err(p) => ctx.violation("short-panic", &format!("choosing short dependencies fails: {}", p.msg), d()),
                    Ok((a, b)) => {
                        if a != b { ctx.violation("short-repeat", "the same input gives different short dependencies", d()); }
                        if a.len() > count || !sorted_distinct(&a) { ctx.violation("short-form", "short dependencies are not a sorted list of distinct positions within the requested count", d()); }
                        if a.iter().any(|&x| x >= num || x == index) { ctx.violation("short-outside", "a short dependency points outside the block or to the unit itself", d()); }
                        if a != ref_short_random(num, data, index, count) { ctx.violation("short-digest", "the short dependencies are not those the digest chain names", d()); }
                    }
                }
                ctx.add(2, 4, 4);
            } } if ctx.stopped() { return; } }
        });
    }
    if ctx.part("hash modes, every admissible position is reachable") {
        // enumerate inputs until every position has appeared
        let nums: Vec<usize> = ctx.pick(vec![2, 3, 5, 17, 100, 255, 256, 257, 500, 600, 1000, 4096, 20000], vec![2, 3, 5, 9, 17, 33, 64, 100, 128, 200, 255, 256, 257, 300, 500, 600, 766, 767, 1000, 2048, 4096, 10000, 20000, 40000, 65536, 65537, 70000]);
        let cases: Vec<(usize, usize, bool)> = nums.iter().flat_map(|&n| [(n, n - 1, true), (n, n / 2, true), (n, 0, false), (n, n - 1, false)]).filter(|c| c.1 > 0 || !c.2).collect();
        ctx.par(cases.len(), |k| {
            let (num, index, long) = cases[cases.len() - 1 - k];
            let span = if long { index } else { num };
            for count in [1usize, 4] {
                let mut seen = vec![false; span];
                let mut left = span - (!long) as usize;
                if !long { seen[index] = true; }
                let limit = 60 * span + 4000;
                let mut used = 0;
                for v in 0..limit as u64 {
                    if left == 0 { break; }
                    used += 1;
                    let data = v.to_le_bytes().to_vec();
                    let Ok(l) = mc::catch(|| if long { long_mode_random(num, &data, index, count) } else { short_depend_random(num, &data, index, count) }) else { return };
                    for x in l { if x < span && !std::mem::replace(&mut seen[x], true) { left -= 1; } }
                    if v % 4096 == 0 { ctx.tick(); if ctx.stopped() { return; } }
                }
                ctx.add(span as u64, used, used);
                if left > 0 { ctx.violation("unreachable", &format!("{left} of {span} admissible {} dependencies are never chosen", if long { "long" } else { "short" }), json!({"num": num, "index": index, "count": count, "inputs_tried": limit, "first_missing": seen.iter().position(|s| !s)})); }
            }
        });
    }
}
