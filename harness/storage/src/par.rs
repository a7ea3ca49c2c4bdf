//! T03: every schedule (up to a preemption bound) of the real thread pool.
use super::{seal::do_seal, util::*};
use mc::{serde_json::{json, Value}, Ctx};
use std::sync::{atomic::Ordering::SeqCst, Arc};
use storage_real::proof_of_storage::verifier::*;

type Para = storage_sched::proof_of_storage::postorage::PosPara;
use storage_sched::proof_of_storage::verifier::batch_unseal_parallel as parallel;

struct Input { para: PosPara, sched: Para, idx: Vec<usize>, blocks: Vec<Vec<Vec<u8>>>, ids: Vec<Vec<u8>>, deps: Vec<Vec<Vec<Vec<u8>>>>, key: rug::Integer, iv: Vec<u8>, want: Vec<Vec<Vec<u8>>> }

fn input(c: Cfg, list: &[usize]) -> Option<Input> {
    let para = c.para();
    let (key, iv) = (ladder_key(c.unit_l, false), pattern(7, 8));
    let data = pattern(if c.unit_l > 8 { 40 } else { 3 }, para.data_l);
    mc::with_scratch(|s| {
        let (_, f, _) = mc::catch(|| do_seal(&para, &data, &key, &iv, s)).ok()?;
        let (mut blocks, mut ids, mut deps) = (vec![], vec![], vec![]);
        for &b in list {
            let (x, y, z) = mc::catch(|| single_unseal_prepare(&f, b, &para)).ok()?;
            blocks.push(x);
            ids.push(y);
            deps.push(z);
        }
        let mut seq = blocks.clone();
        let want = mc::catch(|| batch_unseal(&para, &list.to_vec(), &mut seq, &ids, &deps, &key, &iv)).ok()?;
        Some(Input { para, sched: c.para_sched(), idx: list.to_vec(), blocks, ids, deps, key, iv, want })
    })
}

#[derive(Clone)]
struct Inst { cfg: Cfg, list: Vec<usize>, workers: usize, bound: usize, heap: bool }

/// Explores the schedules of one instance with at most `bound` preemptions: the part `part` of `parts` of the
/// subtrees below the default schedule. Runs in a process of its own, so that no lock of the runtime
/// library is shared with another exploration.
fn explore(i: &Inst, part: usize, parts: usize, deadline: std::time::Instant) -> Value {
    let Some(inp) = input(i.cfg, &i.list) else { return json!({"cap": "no sequential result to compare with"}) };
    let inp = Arc::new(inp);
    let name = format!("{} workers, {} blocks, at most {} preemptions at {}", i.workers, i.list.len(), i.bound, if i.heap { "heap operations" } else { "atomic operations" });
    let (mut execs, mut states, mut points, mut diverged, mut freed) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut first = Value::Null;
    let mut cap = Value::Null;
    let mut stack: Vec<Vec<u16>> = vec![vec![]];
    let mut warm = true;
    while let Some(prefix) = stack.pop() {
        if std::time::Instant::now() > deadline { cap = json!("time"); break; }
        let x = inp.clone();
        let w = i.workers;
        let r = sys::sched::run(&prefix, i.bound, (i.heap, !i.heap), 20, move || mc::catch(|| parallel(&x.sched, &x.idx, &x.blocks, &x.ids, &x.deps, &x.key, &x.iv, w)));
        // the very first execution initialises caches of the runtime library
        if warm && !r.hung { warm = false; stack.push(vec![]); continue; }
        let root = prefix.is_empty();
        if !root || part == 0 {
            execs += 1;
            states += r.trace.len().saturating_sub(prefix.len()) as u64 + 1;
            points += r.points;
        }
        diverged += r.diverged as u64;
        freed += r.freed as u64;
        let sched: Vec<u16> = r.trace.iter().map(|t| t.0).collect();
        let bad = if r.hung { Some(("hang", format!("parallel unsealing does not terminate under some schedule ({name}){}", if r.deadlock { ": deadlock" } else { "" }))) } else {
            match &r.out {
                Some(Ok(o)) if *o == inp.want => None,
                Some(Ok(o)) => Some(("differs", format!("parallel unsealing returns something else than sequential unsealing under some schedule ({name}; {} of {} blocks right)", o.iter().zip(&inp.want).filter(|(a, b)| a == b).count(), inp.want.len()))),
                Some(Err(p)) => Some(("panic", format!("parallel unsealing panics under some schedule ({name}): {}", p.msg))),
                None => Some(("no-result", "parallel unsealing ended without a result".to_string())),
            }
        };
        if let Some((key, what)) = bad {
            return json!({"violation": {"key": key, "what": what, "detail": {"config": js(&i.cfg), "workers": i.workers, "blocks": i.list, "schedule": sched, "threads": r.threads, "switches": r.switches}}, "execs": execs, "states": states, "points": points, "diverged": diverged, "freed": freed});
        }
        if root { first = json!({"instance": name, "threads": r.threads, "scheduling_points": r.points, "choice_points": r.trace.len()}); }
        if r.freed { continue; }
        let mut k2 = 0usize;
        for k in (prefix.len()..r.trace.len()).rev() {
            for c in (1..r.trace[k].1).rev() {
                k2 += 1;
                if root && k2 % parts != part { continue; }
                let mut p = sched[..k].to_vec();
                p.push(c);
                stack.push(p);
            }
        }
    }
    json!({"execs": execs, "states": states, "points": points, "diverged": diverged, "freed": freed, "first": first, "cap": cap})
}

fn nums(s: &str) -> Vec<usize> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }
/// `storage-check schedules <config> <blocks> <workers> <bound> <part> <parts> <seconds>`
pub fn worker(a: &[String]) -> ! {
    mc::install_hook();
    let c = nums(&a[0]);
    let cfg = Cfg { blocks: c[0], units: c[1], unit_l: c[2], seal: c[3], vde: c[4], ml: c[5], cl: c[6], ms: c[7], cs: c[8] };
    let i = Inst { cfg, list: nums(&a[1]), workers: a[2].parse().unwrap(), bound: a[3].parse().unwrap(), heap: a[7] == "1" };
    let v = explore(&i, a[4].parse().unwrap(), a[5].parse().unwrap(), std::time::Instant::now() + std::time::Duration::from_secs(a[6].parse().unwrap()));
    println!("RESULT {v}");
    std::process::exit(0)
}
fn spawn(ctx: &Ctx, i: &Inst, part: usize, parts: usize, secs: u64) {
    let c = &i.cfg;
    let cfg = [c.blocks, c.units, c.unit_l, c.seal, c.vde, c.ml, c.cl, c.ms, c.cs].map(|x| x.to_string()).join(",");
    let list = i.list.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["schedules", &cfg, &list, &i.workers.to_string(), &i.bound.to_string(), &part.to_string(), &parts.to_string(), &secs.to_string(), if i.heap { "1" } else { "0" }])
        .stdout(std::process::Stdio::piped()).spawn().unwrap();
    let mut out = ch.stdout.take().unwrap();
    let done = std::sync::atomic::AtomicBool::new(false);
    let mut text = String::new();
    std::thread::scope(|s| {
        // long explorations are progress too: the child has a deadline of its own
        s.spawn(|| while !done.load(SeqCst) { ctx.tick(); std::thread::sleep(std::time::Duration::from_millis(200)); });
        let _ = std::io::Read::read_to_string(&mut out, &mut text);
        done.store(true, SeqCst);
    });
    let st = ch.wait().unwrap();
    let v: Option<Value> = text.lines().find_map(|l| l.strip_prefix("RESULT ")).and_then(|l| mc::serde_json::from_str(l).ok());
    let d = json!({"config": js(c), "workers": i.workers, "blocks": i.list, "bound": i.bound, "part": [part, parts]});
    let Some(v) = v else { return ctx.violation("crash", &format!("parallel unsealing ended the process under some schedule ({st})"), d) };
    let n = |k: &str| v[k].as_u64().unwrap_or(0);
    ctx.add(n("states"), n("points"), n("execs"));
    ctx.count(&format!("schedules: {} workers, {} blocks of {} units, at most {} preemptions at {}", i.workers, i.list.len(), c.units, i.bound, if i.heap { "heap operations" } else { "atomic operations" }), n("execs"));
    ctx.count("diverged_executions", n("diverged"));
    ctx.count("executions_out_of_control", n("freed"));
    if part == 0 && v["first"].is_object() { ctx.sample(v["first"].clone()); }
    if let Some(c) = v["cap"].as_str() { ctx.cap(c); }
    if let Some(b) = v["violation"].as_object() { ctx.violation(b["key"].as_str().unwrap(), b["what"].as_str().unwrap(), b["detail"].clone()); }
}

pub fn t03(ctx: &Ctx) {
    // 1. schedules
    let c = Cfg { blocks: 4, units: 1, unit_l: 1, seal: 1, vde: 1, ml: 1, cl: 1, ms: 3, cs: 0 };
    let c2 = Cfg { blocks: 4, units: 2, unit_l: 1, seal: 1, vde: 1, ml: 0, cl: 1, ms: 0, cs: 1 };
    // two and three dependencies per block
    let c3 = Cfg { blocks: 6, units: 1, unit_l: 1, seal: 1, vde: 1, ml: 1, cl: 3, ms: 3, cs: 0 };
    // (configuration, blocks, workers, preemptions, at heap operations instead of atomic operations)
    let mut inst: Vec<(Cfg, Vec<usize>, usize, usize, bool)> = vec![];
    for (cfg, n) in [(c, 1usize), (c, 2), (c, 3), (c2, 2), (c2, 3)] {
        for w in [1usize, 2, 3] { inst.push((cfg, (0..n).collect(), w, 1, false)); }
    }
    for w in [1, 2] { inst.push((c2, vec![0, 1, 2], w, 1, true)); }
    inst.push((c3, vec![4, 5], 2, 1, false));
    inst.push((c3, vec![5, 4, 3], 3, 1, false));
    inst.push((c, vec![3, 1], 2, 1, false));
    inst.push((c, vec![2, 2], 2, 1, false));
    inst.push((c, vec![0, 1], 2, 2, false));
    inst.push((c, vec![], 2, 2, false));
    if !ctx.quick() {
        inst.push((c, vec![0, 1], 1, 3, false));
        inst.push((c, vec![0, 1, 2], 2, 2, false));
        inst.push((c2, vec![0, 1], 2, 2, false));
        inst.push((c, vec![0, 1], 3, 2, false));
        inst.push((c, vec![0, 1, 2, 3], 2, 2, false));
        inst.push((c3, vec![4, 5], 2, 2, false));
        inst.push((c2, vec![0, 1, 2, 3], 4, 1, false));
        inst.push((c, vec![0, 1], 2, 3, false));
        inst.push((c, vec![0, 1], 2, 2, true));
        inst.push((c, vec![0, 1, 2], 2, 2, true));
    }
    if ctx.part("schedules") {
        let tasks: Vec<(Inst, usize, usize)> = inst.into_iter().rev().flat_map(|(cfg, list, workers, bound, heap)| {
            let parts = if bound > 1 { ctx.pick(8, 64) } else if workers > 2 { 4 } else { 1 };
            (0..parts).map(move |p| (Inst { cfg, list: list.clone(), workers, bound, heap }, p, parts))
        }).collect();
        let secs = ctx.pick(200, 2400);
        ctx.par(tasks.len(), |t| spawn(ctx, &tasks[t].0, tasks[t].1, tasks[t].2, secs));
    }
    // 2. every number of workers, default schedules: same answer as sequential, over configurations
    if ctx.part("workers and configurations") {
        let mut g = grid(&[1, 3], &[1, 3], 1, &[1, 2], &[1], &[0, 1, 2], &[0, 2], &[0, 1, 2], &[0, 2]);
        g.push(Cfg { blocks: 40, units: 2, unit_l: 1, seal: 1, vde: 1, ml: 0, cl: 0, ms: 0, cs: 1 });
        ctx.par(g.len(), |i| {
            let c = g[i];
            let mut lists: Vec<Vec<usize>> = mc::subsets(c.blocks.min(3)).collect();
            if c.blocks > 3 { lists = vec![(0..c.blocks).collect(), (0..c.blocks).rev().collect()]; }
            for l in lists {
                let Some(inp) = input(c, &l) else { ctx.cap("no sequential result to compare with"); return };
                for w in [1, 2, 3, 5, 16] {
                    let r = mc::catch(|| batch_unseal_parallel(&inp.para, &inp.idx, &inp.blocks, &inp.ids, &inp.deps, &inp.key, &inp.iv, w));
                    ctx.add(1, l.len() as u64, 1);
                    match r {
                        Ok(o) if o == inp.want => {}
                        Ok(_) => ctx.violation("differs", "parallel unsealing returns something else than sequential unsealing", json!({"config": js(&c), "blocks": l, "workers": w})),
                        Err(p) => ctx.violation("panic", &format!("parallel unsealing panics: {}", p.msg), json!({"config": js(&c), "blocks": l, "workers": w})),
                    }
                }
            }
        });
    }
    if ctx.part("many sizes") {
        let mut v: Vec<(Cfg, Vec<usize>, Vec<usize>)> = vec![];
        for c in ladder(ctx.quick()) { if c.blocks < 600 && c.units < 600 { v.push((c, marks(c.blocks, 4), vec![3])); } }
        for c in combos(ctx.quick()) { if c.seal < 3 || !ctx.quick() { v.push((c, marks(c.blocks, 3), vec![2])); } }
        // lists and worker counts
        let b = Cfg { blocks: 6, units: 3, unit_l: 1, seal: 1, vde: 1, ml: 0, cl: 2, ms: 0, cs: 2 };
        for n in (1usize..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 513]) {
            v.push((Cfg { blocks: n, ..b }, (0..n).collect(), vec![1, 4, 8]));
            if n < 300 { v.push((b, vec![5, 0, 3, 1], vec![n])); }
            v.push((b, (0..n).map(|i| (i * 5 + 1) % 6).collect(), vec![2, 7]));
        }
        ctx.bound("sizes, lists and worker counts", v.len());
        ctx.par(v.len(), |i| {
            let (c, l, ws) = &v[v.len() - 1 - i];
            let Some(inp) = input(*c, l) else { ctx.cap("no sequential result to compare with"); return };
            for w in ws {
                let r = mc::catch(|| batch_unseal_parallel(&inp.para, &inp.idx, &inp.blocks, &inp.ids, &inp.deps, &inp.key, &inp.iv, *w));
                ctx.add(1, l.len() as u64, 1);
                match r {
                    Ok(o) if o == inp.want => {}
                    Ok(_) => ctx.violation("differs", "parallel unsealing returns something else than sequential unsealing", json!({"config": js(c), "blocks": l, "workers": w})),
                    Err(p) => ctx.violation("panic", &format!("parallel unsealing panics: {}", p.msg), json!({"config": js(c), "blocks": l, "workers": w})),
                }
            }
        });
    }
    ctx.bound("preemptions", json!({"most instances": 1, "two workers, two blocks": 2}));
    ctx.assume("interleavings are explored at every atomic operation of the code under test and its thread pool, every futex call, thread start, join and end, with sequentially consistent atomics; between two such points a thread runs without interference (safe Rust, shared data only behind locks and atomics)");
}
