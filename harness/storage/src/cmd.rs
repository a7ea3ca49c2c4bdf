//! T17: the storage command as a state machine over its files; an explicit-state model is explored to its
//! fixpoint and every transition is replayed on the implementation.
use super::util::*;
use mc::{serde_json::json, Ctx};
use std::collections::{BTreeMap, VecDeque};
use storage_real::proof_of_storage::postorage::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Sealed { Absent, Good, Altered, Plain }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Copy_ { Absent, Good, Altered, Stale }
/// model state: is there an original; what lies at the sealed path; what lies at the unsealed path
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Model { origin: bool, sealed: Sealed, copy: Copy_ }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Act { Run { save: bool, seal: bool, unseal: bool, leaves: bool, single: bool, par: usize }, AlterSealed(usize), AlterCopy(i8) }

fn actions(pars: &[usize]) -> Vec<Act> {
    let mut v = vec![];
    for b in 0..16u32 {
        let f = |k: u32| b >> k & 1 == 1;
        for par in if f(3) { pars.to_vec() } else { vec![0] } {
            v.push(Act::Run { save: (b + par as u32) % 3 != 0, seal: f(0), unseal: f(1), leaves: f(2), single: f(3), par });
        }
    }
    v.extend([Act::AlterSealed(0), Act::AlterSealed(9), Act::AlterCopy(0), Act::AlterCopy(1), Act::AlterCopy(-1)]);
    v
}

/// what a command has to do in a state: the next state and whether it succeeds; None: the action does not apply
fn model(m: Model, a: Act) -> Option<(Model, bool)> {
    let mut n = m;
    match a {
        Act::AlterSealed(_) => { if m.sealed != Sealed::Good { return None; } n.sealed = Sealed::Altered; Some((n, true)) }
        Act::AlterCopy(_) => { if m.copy != Copy_::Good { return None; } n.copy = Copy_::Altered; Some((n, true)) }
        Act::Run { seal, unseal, leaves, single, .. } => {
            if seal {
                n.origin = true;
                n.sealed = if unseal { Sealed::Plain } else { Sealed::Good };
                n.copy = if unseal { Copy_::Good } else if m.copy == Copy_::Absent { Copy_::Absent } else { Copy_::Stale };
            }
            if single && n.sealed != Sealed::Good { return Some((n, false)); }
            if leaves && n.copy != Copy_::Good { return Some((n, false)); }
            Some((n, true))
        }
    }
}

type Files = BTreeMap<&'static str, Option<Vec<u8>>>;
struct World { dir: mc::Scratch, paths: Vec<(&'static str, std::path::PathBuf)> }
impl World {
    fn new() -> World {
        let dir = mc::Scratch::new();
        let p = |c: [&str; 4]| c.iter().collect::<std::path::PathBuf>();
        let paths = vec![("origin", p(ORIGIN_DATA_DIR)), ("sealed", p(SEALED_DATA_DIR)), ("copy", p(UNSEALED_DATA_DIR)), ("public", p(TARGET_DIR)), ("run", p(RUN_DATA_DIR)), ("stat", p(STAT_DATA_DIR))];
        for (_, x) in &paths { std::fs::create_dir_all(dir.0.join(x.parent().unwrap())).unwrap(); }
        std::env::set_current_dir(&dir.0).unwrap();
        World { dir, paths }
    }
    fn read(&self) -> Files { self.paths.iter().map(|(n, p)| (*n, std::fs::read(self.dir.0.join(p)).ok())).collect() }
    fn write(&self, f: &Files) {
        for (n, p) in &self.paths {
            let p = self.dir.0.join(p);
            match &f[n] { Some(d) => std::fs::write(p, d).unwrap(), None => { let _ = std::fs::remove_file(p); } }
        }
    }
}

/// runs one action in state `before` and compares with the model; returns the files afterwards
fn step(ctx: &Ctx, w: &World, p: &PosPara, m: Model, before: &Files, a: Act, hist: &dyn Fn() -> mc::serde_json::Value) -> Option<(Model, Files)> {
    let (next, want) = model(m, a)?;
    let d = |x: &str| json!({"state": format!("{m:?}"), "action": format!("{a:?}"), "history": hist(), "what": x});
    let Act::Run { save, seal, unseal, leaves, single, par } = a else {
        let mut f = before.clone();
        match a {
            Act::AlterSealed(b) => f.get_mut("sealed").unwrap().as_mut().unwrap()[b * p.block_pl + p.block_pl / 2] ^= 0x10,
            // every block, so that any challenge meets it; also longer or shorter than it was
            Act::AlterCopy(k) => {
                let c = f.get_mut("copy").unwrap().as_mut().unwrap();
                for x in c.iter_mut() { *x ^= 0x10 }
                if k != 0 { let l = c.len(); c.resize((l as i64 + k as i64 * (p.block_l as i64 + 5)) as usize, 0x33); }
            }
            Act::Run { .. } => {}
        }
        return Some((next, f));
    };
    w.write(before);
    let r = mc::catch(|| test_postorage(p.clone(), save, seal, unseal, leaves, single, par));
    ctx.add(0, 1, 1);
    let after = w.read();
    let bad = |key: &str, what: String| { ctx.violation(key, &what, d(&what)); None };
    if r.is_ok() != want {
        return bad(if want { "honest" } else { "accepted" }, if want { format!("the command fails where it has to succeed: {}", r.unwrap_err().msg) } else { "the command succeeds although a check it was asked for has to fail".into() });
    }
    for n in ["run", "stat"] {
        let (b, x) = (before[n].clone().unwrap_or_default(), after[n].clone().unwrap_or_default());
        if !x.starts_with(&b) { return bad("records", format!("the {n} records of earlier commands are changed")); }
        if !save && x != b { return bad("records", format!("the {n} records grow although none were asked for")); }
    }
    if save {
        let new = |n: &str| String::from_utf8_lossy(&after[n].as_deref().unwrap_or_default()[before[n].as_ref().map_or(0, |b| b.len())..]).into_owned();
        // the run record names the parameters; the statistics get one line if both directions were run
        let ints = |l: &str| -> Vec<String> { l.split(", ").map(|x| x.trim_matches(|c: char| c == ',' || c.is_whitespace()).to_string()).filter(|x| x.parse::<usize>().is_ok()).collect() };
        let str = |v: &[usize]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
        let (run, stat) = (new("run"), new("stat"));
        let sizes = str(&[p.data_l, p.block_l, p.data_l / p.block_l, p.unit_l, p.block_l / p.unit_l]);
        let rules = str(&[p.seal_rounds, p.vde_rounds, p.mode_l, p.cnt_l, p.mode_s, p.cnt_s]);
        let got: Vec<Vec<String>> = run.lines().filter(|l| l.starts_with("(byte)") || l.starts_with("seal round")).map(ints).collect();
        if got != [sizes.clone(), rules] { return bad("record-run", "the run record does not name the parameters of the run".into()); }
        let lines: Vec<&str> = stat.lines().collect();
        if lines.len() != (seal && unseal) as usize { return bad("record-stat", format!("{} lines of statistics were added", lines.len())); }
        for l in lines {
            let f: Vec<String> = l.split(',').map(|x| x.trim().to_string()).collect();
            let want: Vec<String> = sizes.iter().cloned().chain([p.seal_rounds.to_string(), p.vde_mode.clone()]).chain(str(&[p.mode_l, p.cnt_l, p.mode_s, p.cnt_s])).collect();
            if f.len() < want.len() || f[..want.len()] != want[..] { return bad("record-stat", "the line of statistics does not name the parameters of the run".into()); }
        }
    }
    if save && after["run"].as_ref().map(|x| x.len()) <= before["run"].as_ref().map(|x| x.len()) { return bad("records", "no run record is made although one was asked for".into()); }
    if !seal { for n in ["origin", "sealed", "copy", "public"] { if before[n] != after[n] { return bad("touched", format!("a command that was not asked to seal changes the {n} file")); } } }
    else {
        if after["origin"].as_ref().map(|x| x.len()) != Some(p.data_l) { return bad("origin", "the original does not have the configured length".into()); }
        if after["origin"] == before["origin"] { return bad("origin", "sealing anew does not make a new original".into()); }
        if !unseal && before["copy"] != after["copy"] { return bad("touched", "a command that was not asked to unseal changes the unsealed copy".into()); }
        if unseal && after["copy"] != after["origin"] { return bad("copy", "the unsealed copy is not the original".into()); }
        if after["sealed"].as_ref().map(|x| x.len()) != Some(p.data_l / p.unit_l * p.unit_pl) { return bad("sealed", "the sealed file does not have the padded length".into()); }
        let pad = padded(after["origin"].as_ref().unwrap(), p.unit_l);
        if (after["sealed"].as_ref() == Some(&pad)) != unseal { return bad("sealed", if unseal { "the sealed file was not unsealed in place".into() } else { "the sealed file is not sealed".into() }); }
        if after["public"].is_none() { return bad("public", "no public data is saved".into()); }
    }
    Some((next, after))
}

pub fn t17(ctx: &Ctx) {
    ctx.bound("states", "all reachable states of the command (original, sealed file, unsealed copy: absent, good, altered, plain or stale), every action in each");
    ctx.bound("histories", "all histories of up to 2 actions (thorough: 3) from an empty directory, three configurations in the first part (thorough: five)");
    let home = std::env::current_dir().unwrap();
    let w = World::new();
    let cfg = |blocks, units, ml, cl, ms, cs| { let mut p = Cfg { blocks, units, unit_l: 63, seal: 1, vde: 1, ml, cl, ms, cs }.para(); p.leaves_to_prove_count = 3; p };
    let mut ps = vec![cfg(10, 1, 0, 0, 0, 2), cfg(12, 2, 1, 2, 1, 2), cfg(11, 3, 2, 3, 2, 2)];
    if !ctx.quick() { ps.extend([cfg(13, 2, 3, 0, 1, 1), cfg(16, 4, 0, 2, 0, 10)]); }
    let (acts, wide) = (actions(&[0, 2]), actions(&[0, 1, 3, 16, 40]));
    let empty: Files = w.paths.iter().map(|(n, _)| (*n, None)).collect();
    let start = Model { origin: false, sealed: Sealed::Absent, copy: Copy_::Absent };
    for (k, p) in ps.iter().enumerate() {
        if !ctx.part(&format!("reachable states, configuration {k}")) { continue; }
        let mut seen: BTreeMap<Model, Vec<Act>> = BTreeMap::new();
        seen.insert(start, vec![]);
        let mut open: VecDeque<(Model, Files)> = VecDeque::from([(start, empty.clone())]);
        ctx.add(1, 0, 0);
        while let Some((m, f)) = open.pop_front() {
            let path = seen[&m].clone();
            for a in if k == 0 { &wide } else { &acts } {
                if ctx.stopped() { break; }
                let Some((n, g)) = step(ctx, &w, p, m, &f, *a, &|| json!(format!("{path:?}"))) else { continue };
                // a copy of another length is another concrete state: each command once more
                if matches!(a, Act::AlterCopy(k) if *k != 0) {
                    let mut q = path.clone();
                    q.push(*a);
                    for b in if k == 0 { &wide } else { &acts } { if ctx.stopped() { break; } step(ctx, &w, p, n, &g, *b, &|| json!(format!("{q:?}"))); }
                }
                if !seen.contains_key(&n) {
                    let mut q = path.clone();
                    q.push(*a);
                    seen.insert(n, q);
                    ctx.add(1, 0, 0);
                    open.push_back((n, g));
                }
            }
        }
        if !ctx.violated() { ctx.count("model states", seen.len() as u64); }
    }
    if ctx.part("histories") {
        fn go(ctx: &Ctx, w: &World, p: &PosPara, acts: &[Act], m: Model, f: &Files, hist: &mut Vec<Act>, depth: usize) {
            if depth == 0 || ctx.stopped() { return; }
            for a in acts {
                let h = hist.clone();
                let Some((n, g)) = step(ctx, w, p, m, f, *a, &|| json!(format!("{h:?}"))) else { if ctx.violated() { return; } continue };
                ctx.add(1, 0, 0);
                hist.push(*a);
                go(ctx, w, p, acts, n, &g, hist, depth - 1);
                hist.pop();
            }
        }
        go(ctx, &w, &ps[0], &acts, start, &empty, &mut vec![], ctx.pick(2, 3));
    }
    std::env::set_current_dir(home).unwrap();
    ctx.sample(json!({"state": format!("{:?}", Model { origin: true, sealed: Sealed::Altered, copy: Copy_::Absent }), "action": "challenge blocks", "expected": "fails, no file changed"}));
    ctx.assume("a check that has to fail is one over data that differs in a challenged place: block 0 or 9 of the sealed file, every block of the copy");
}
