//! Exhaustive exploration of the satisfying assignments of a rank-1 constraint system.
//!
//! Depth-first search with propagation. Over a toy field every value of every variable is tried, so
//! the exploration covers all satisfying assignments. Around an honest assignment the number of
//! deviating decisions can be bounded; over the real field deviating values come from an alphabet.
use ark_ff::{PrimeField, SquareRootField};
use ark_relations::r1cs::{ConstraintMatrices, ConstraintSynthesizer, ConstraintSystem, OptimizationGoal, SynthesisMode};

pub struct Synth<F: PrimeField> {
    pub m: ConstraintMatrices<F>,
    /// one, public inputs, witness (empty in setup mode)
    pub assignment: Vec<F>,
    pub satisfied: bool,
}

pub fn synth<F: PrimeField, C: ConstraintSynthesizer<F>>(c: C, setup: bool) -> Result<Synth<F>, String> {
    let cs = ConstraintSystem::<F>::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    if setup { cs.set_mode(SynthesisMode::Setup); }
    c.generate_constraints(cs.clone()).map_err(|e| format!("synthesis error {e:?}"))?;
    cs.finalize();
    let satisfied = if setup { false } else { cs.is_satisfied().map_err(|e| format!("{e:?}"))? };
    let m = cs.to_matrices().ok_or("no matrices")?;
    let b = cs.borrow().unwrap();
    let assignment = if setup { vec![] } else { b.instance_assignment.iter().chain(b.witness_assignment.iter()).copied().collect() };
    drop(b);
    Ok(Synth { m, assignment, satisfied })
}
pub fn publics<F: PrimeField>(s: &Synth<F>) -> Vec<F> { s.assignment[1..s.m.num_instance_variables].to_vec() }
pub fn same_shape<F: PrimeField>(a: &ConstraintMatrices<F>, b: &ConstraintMatrices<F>) -> bool {
    a.num_instance_variables == b.num_instance_variables && a.num_witness_variables == b.num_witness_variables && a.a == b.a && a.b == b.b && a.c == b.c
}

/// Arithmetic of the values the explorer works on.
pub trait Dom: Clone + Sync {
    type T: Copy + Eq + Send + Sync + std::fmt::Debug;
    fn zero(&self) -> Self::T;
    fn add(&self, a: Self::T, b: Self::T) -> Self::T;
    fn sub(&self, a: Self::T, b: Self::T) -> Self::T;
    fn mul(&self, a: Self::T, b: Self::T) -> Self::T;
    /// solutions of (a0 + a1 v)(b0 + b1 v) = c0 + c1 v; None: every v
    fn solve(&self, a: (Self::T, Self::T), b: (Self::T, Self::T), c: (Self::T, Self::T)) -> Option<Vec<Self::T>>;
    /// values to try for a free variable
    fn values(&self) -> &[Self::T];
}

#[derive(Clone)]
pub struct Toy { p: u32, vals: Vec<u32> }
impl Toy { pub fn new(p: u64) -> Self { Toy { p: p as u32, vals: (0..p as u32).collect() } } }
impl Dom for Toy {
    type T = u32;
    fn zero(&self) -> u32 { 0 }
    fn add(&self, a: u32, b: u32) -> u32 { (a + b) % self.p }
    fn sub(&self, a: u32, b: u32) -> u32 { (a + self.p - b) % self.p }
    fn mul(&self, a: u32, b: u32) -> u32 { a * b % self.p }
    fn solve(&self, a: (u32, u32), b: (u32, u32), c: (u32, u32)) -> Option<Vec<u32>> {
        let r: Vec<u32> = self.vals.iter().copied().filter(|v| (a.0 + a.1 * v) % self.p * ((b.0 + b.1 * v) % self.p) % self.p == (c.0 + c.1 * v) % self.p).collect();
        if r.len() == self.p as usize { None } else { Some(r) }
    }
    fn values(&self) -> &[u32] { &self.vals }
}

#[derive(Clone)]
pub struct Big<F: PrimeField + SquareRootField> { pub vals: Vec<F> }
impl<F: PrimeField + SquareRootField> Dom for Big<F> {
    type T = F;
    fn zero(&self) -> F { F::zero() }
    fn add(&self, a: F, b: F) -> F { a + b }
    fn sub(&self, a: F, b: F) -> F { a - b }
    fn mul(&self, a: F, b: F) -> F { if a.is_one() { b } else { a * b } }
    fn solve(&self, a: (F, F), b: (F, F), c: (F, F)) -> Option<Vec<F>> {
        // a toy field: try every element
        if self.vals.len() as u64 == F::characteristic()[0] && F::size_in_bits() < 32 {
            let r: Vec<F> = self.vals.iter().copied().filter(|v| (a.0 + a.1 * v) * (b.0 + b.1 * v) == c.0 + c.1 * v).collect();
            return if r.len() == self.vals.len() { None } else { Some(r) };
        }
        let q2 = a.1 * b.1;
        let q1 = a.0 * b.1 + a.1 * b.0 - c.1;
        let q0 = a.0 * b.0 - c.0;
        if q2.is_zero() {
            if q1.is_zero() { return if q0.is_zero() { None } else { Some(vec![]) }; }
            return Some(vec![-q0 * q1.inverse().unwrap()]);
        }
        if q0.is_zero() {
            if q1.is_zero() { return Some(vec![F::zero()]); }
            let r = if q2.is_one() { -q1 } else { -q1 * q2.inverse().unwrap() };
            return Some(vec![F::zero(), r]);
        }
        let disc = q1 * q1 - F::from(4u64) * q2 * q0;
        let inv = (q2 + q2).inverse().unwrap();
        match disc.sqrt() {
            None => Some(vec![]),
            Some(s) if s.is_zero() => Some(vec![-q1 * inv]),
            Some(s) => Some(vec![(s - q1) * inv, (-s - q1) * inv]),
        }
    }
    fn values(&self) -> &[F] { &self.vals }
}

/// per constraint: (variable, coefficient in A, B, C)
type Row<T> = Vec<(usize, T, T, T)>;

#[derive(Clone)]
pub struct System<D: Dom> {
    pub d: D,
    pub n: usize,
    pub ni: usize,
    rows: Vec<Row<D::T>>,
    /// constraints of each variable
    occ: Vec<Vec<(usize, usize)>>,
    order: Vec<usize>,
}

impl<D: Dom> System<D> {
    pub fn new<F: PrimeField>(d: D, m: &ConstraintMatrices<F>, conv: impl Fn(F) -> D::T) -> Self {
        let ni = m.num_instance_variables;
        let n = ni + m.num_witness_variables;
        let mut rows = vec![];
        for i in 0..m.a.len() {
            let mut r: std::collections::BTreeMap<usize, (D::T, D::T, D::T)> = Default::default();
            let z = (d.zero(), d.zero(), d.zero());
            for (c, v) in &m.a[i] { let e = r.entry(*v).or_insert(z); e.0 = d.add(e.0, conv(*c)); }
            for (c, v) in &m.b[i] { let e = r.entry(*v).or_insert(z); e.1 = d.add(e.1, conv(*c)); }
            for (c, v) in &m.c[i] { let e = r.entry(*v).or_insert(z); e.2 = d.add(e.2, conv(*c)); }
            rows.push(r.into_iter().filter(|(_, t)| t.0 != d.zero() || t.1 != d.zero() || t.2 != d.zero()).map(|(v, t)| (v, t.0, t.1, t.2)).collect::<Vec<_>>());
        }
        let mut occ = vec![vec![]; n];
        for (i, r) in rows.iter().enumerate() { for (k, e) in r.iter().enumerate() { occ[e.0].push((i, k)); } }
        // witness in order of allocation, then public inputs
        let order = (ni..n).chain(1..ni).collect();
        System { d, n, ni, rows, occ, order }
    }
    pub fn constraints(&self) -> usize { self.rows.len() }
    pub fn used(&self, v: usize) -> bool { !self.occ[v].is_empty() }
}

pub struct Explorer<'a, D: Dom> {
    s: &'a System<D>,
    pub val: Vec<Option<D::T>>,
    left: Vec<u32>,
    sum: Vec<(D::T, D::T, D::T)>,
    trail: Vec<usize>,
    queue: Vec<usize>,
    honest: Option<&'a [D::T]>,
    pub leaves: u64,
    pub nodes: u64,
    pub steps: u64,
    leaf_cap: u64,
    pub capped: bool,
    tick: Option<&'a (dyn Fn() -> bool + Sync)>,
    /// the decisions, in order
    order: Vec<usize>,
}

impl<'a, D: Dom> Explorer<'a, D> {
    pub fn new(s: &'a System<D>, one: D::T, honest: Option<&'a [D::T]>, leaf_cap: u64, tick: Option<&'a (dyn Fn() -> bool + Sync)>) -> Self {
        let z = s.d.zero();
        let mut e = Explorer { s, val: vec![None; s.n], left: s.rows.iter().map(|r| r.len() as u32).collect(), sum: vec![(z, z, z); s.rows.len()],
            trail: vec![], queue: (0..s.rows.len()).collect(), honest, leaves: 0, nodes: 0, steps: 0, leaf_cap, capped: false, tick, order: s.order.clone() };
        e.set(0, one);
        e
    }
    /// The same state, to be explored around another guide.
    pub fn fork(&self, honest: Option<&'a [D::T]>) -> Explorer<'a, D> {
        Explorer { s: self.s, val: self.val.clone(), left: self.left.clone(), sum: self.sum.clone(), trail: self.trail.clone(), queue: self.queue.clone(), honest,
            leaves: 0, nodes: 0, steps: 0, leaf_cap: self.leaf_cap, capped: false, tick: self.tick, order: self.order.clone() }
    }
    /// Takes a value as given and draws the consequences; false: contradiction.
    pub fn fix(&mut self, v: usize, x: D::T) -> bool {
        if !self.propagate() { return false; }
        match self.val[v] { Some(y) => x == y, None => { self.set(v, x); self.propagate() } }
    }
    /// Variables not determined by what is fixed, grouped into parts that share no constraint.
    pub fn components(&self) -> Vec<Vec<usize>> {
        let s = self.s;
        let mut up: Vec<usize> = (0..s.n).collect();
        fn root(up: &mut [usize], mut v: usize) -> usize { while up[v] != v { up[v] = up[up[v]]; v = up[v]; } v }
        for (i, r) in s.rows.iter().enumerate() {
            if self.left[i] < 2 { continue; }
            let mut f = None;
            for e in r.iter().filter(|e| self.val[e.0].is_none()) {
                match f { None => f = Some(e.0), Some(g) => { let (a, b) = (root(&mut up, g), root(&mut up, e.0)); up[b.max(a)] = a.min(b); } }
            }
        }
        let mut m: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
        for v in 0..s.n { if self.val[v].is_none() && !s.occ[v].is_empty() { let r = root(&mut up, v); m.entry(r).or_default().push(v); } }
        m.into_values().collect()
    }
    /// Decide only the given variables (those of a component), in this order.
    pub fn over(&mut self, order: Vec<usize>) { self.order = order; }
    /// the variables of a component that a constraint of their own already confines to finitely many values
    pub fn confined(&self, c: &[usize]) -> Vec<usize> {
        c.iter().copied().filter(|v| self.s.occ[*v].iter().any(|(i, _)| matches!(self.unit(*i), Some((_, Some(_)))))).collect()
    }
    /// the constraints of a component up to the names of variables
    pub fn outline(&self, c: &[usize]) -> Vec<Vec<(usize, D::T, D::T, D::T)>> {
        let s = self.s;
        let mut name: std::collections::HashMap<usize, usize> = c.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        let mut rows: Vec<usize> = c.iter().flat_map(|v| s.occ[*v].iter().map(|(i, _)| *i)).collect();
        rows.sort(); rows.dedup();
        rows.iter().map(|i| s.rows[*i].iter().map(|e| { let k = name.len(); (if e.0 == 0 { usize::MAX } else { *name.entry(e.0).or_insert(k) }, e.1, e.2, e.3) }).collect()).collect()
    }
    /// With the present decisions: sets every confined variable to its guide, or one of them to each other
    /// value allowed to it, then moves one further variable along the line on which the constraints let it
    /// (and what depends on it linearly) move, to every point of the line that satisfies all constraints.
    pub fn lines(&mut self, c: &[usize], conf: &[usize], guide: &[D::T], f: &mut dyn FnMut(&[Option<D::T>]) -> bool) -> bool {
        if !self.propagate() { return true; }
        let mut flips: Vec<Option<(usize, D::T)>> = vec![None];
        for v in conf {
            let mut vals: Option<Vec<D::T>> = None;
            for (i, _) in &self.s.occ[*v] { if let Some((_, Some(sol))) = self.unit(*i) { vals = Some(match vals { None => sol, Some(w) => w.into_iter().filter(|x| sol.contains(x)).collect() }); } }
            for x in vals.unwrap_or_default() { if x != guide[*v] { flips.push(Some((*v, x))); } }
        }
        for fl in flips {
            self.nodes += 1;
            if let Some(t) = self.tick { if self.nodes % 64 == 0 && !t() { self.capped = true; return false; } }
            let mark = self.trail.len();
            let mut ok = true;
            if let Some((v, x)) = fl { if self.val[v].is_none() { self.set(v, x); ok = self.propagate(); } else { ok = self.val[v] == Some(x); } }
            for v in conf { if !ok { break; } if self.val[*v].is_none() { self.set(*v, guide[*v]); ok = self.propagate(); } }
            let go = !ok || self.line(c, guide, f);
            self.undo(mark);
            if !go { return false; }
        }
        true
    }
    fn line(&mut self, c: &[usize], guide: &[D::T], f: &mut dyn FnMut(&[Option<D::T>]) -> bool) -> bool {
        let s = self.s;
        let d = &s.d;
        let (zero, one) = (d.zero(), self.val[0].unwrap());
        let open: Vec<usize> = c.iter().copied().filter(|v| self.val[*v].is_none() && !s.occ[*v].is_empty()).collect();
        if open.is_empty() { self.leaves += 1; return f(&self.val); }
        let mut done: std::collections::HashSet<usize> = Default::default();
        for t in open.iter().copied() {
            if done.contains(&t) { continue; }
            // every open variable as base + slope * t
            let mut aff: std::collections::HashMap<usize, (D::T, D::T)> = Default::default();
            let mut queue: Vec<usize> = vec![];
            aff.insert(t, (zero, one));
            queue.extend(s.occ[t].iter().map(|x| x.0));
            let mut roots: Option<Vec<D::T>> = None;
            let (mut next, mut free) = (0, true);
            loop {
                while let Some(i) = queue.pop() {
                    if roots.as_ref().map_or(false, |r| r.is_empty()) { break; }
                    self.steps += 1;
                    let b = self.sum[i];
                    let mut l = [(b.0, zero), (b.1, zero), (b.2, zero)];
                    let mut unset = None;
                    let mut many = false;
                    for e in s.rows[i].iter().filter(|e| self.val[e.0].is_none()) {
                        match aff.get(&e.0) {
                            Some((x, y)) => for (k, q) in [e.1, e.2, e.3].into_iter().enumerate() { l[k] = (d.add(l[k].0, d.mul(q, *x)), d.add(l[k].1, d.mul(q, *y))); },
                            None if unset.is_some() => { many = true; break; }
                            None => unset = Some(*e),
                        }
                    }
                    if many { continue; }
                    match unset {
                        None => if let Some(sol) = d.solve(l[0], l[1], l[2]) { roots = Some(match roots.take() { None => sol, Some(r) => r.into_iter().filter(|x| sol.contains(x)).collect() }); },
                        Some(e) => {
                            // (A + ea v)(B + eb v) = C + ec v, solved for v where that is linear in t
                            if e.1 != zero && e.2 != zero { continue; }
                            let (x, y, q) = if e.2 != zero { (l[1], l[0], e.2) } else { (l[0], l[1], e.1) };
                            if q != zero && y.1 != zero { continue; }
                            if x.1 != zero && y.1 != zero { continue; }
                            // v (q y - ec) = C - x y
                            let k = d.sub(d.mul(q, y.0), e.3);
                            if k == zero { continue; }
                            let r0 = d.sub(l[2].0, d.mul(x.0, y.0));
                            let r1 = d.sub(l[2].1, d.add(d.mul(x.0, y.1), d.mul(x.1, y.0)));
                            let div = |r: D::T| d.solve((zero, k), (one, zero), (r, zero)).and_then(|v| v.first().copied());
                            let (Some(v0), Some(v1)) = (div(r0), div(r1)) else { continue };
                            aff.insert(e.0, (v0, v1));
                            if free && v1 != zero { done.insert(e.0); }
                            queue.extend(s.occ[e.0].iter().map(|x| x.0));
                        }
                    }
                }
                if roots.as_ref().map_or(false, |r| r.is_empty()) { break; }
                while next < open.len() && aff.contains_key(&open[next]) { next += 1; }
                if next == open.len() { break; }
                free = false;
                aff.insert(open[next], (guide[open[next]], zero));
                queue.extend(s.occ[open[next]].iter().map(|x| x.0));
            }
            for x in roots.unwrap_or_else(|| vec![guide[t], d.add(guide[t], one)]) {
                let mark = self.trail.len();
                self.set(t, x);
                let mut ok = self.propagate();
                for v in &open { if !ok { break; } if self.val[*v].is_none() { self.set(*v, guide[*v]); ok = self.propagate(); } }
                let go = if ok { self.leaves += 1; f(&self.val) } else { true };
                self.undo(mark);
                if !go { return false; }
            }
        }
        true
    }
    fn set(&mut self, v: usize, x: D::T) {
        let s = self.s;
        self.val[v] = Some(x);
        self.trail.push(v);
        self.steps += 1;
        for (i, k) in &s.occ[v] {
            let (_, a, b, c) = s.rows[*i][*k];
            let t = &mut self.sum[*i];
            t.0 = s.d.add(t.0, s.d.mul(a, x));
            t.1 = s.d.add(t.1, s.d.mul(b, x));
            t.2 = s.d.add(t.2, s.d.mul(c, x));
            self.left[*i] -= 1;
            if self.left[*i] <= 1 { self.queue.push(*i); }
        }
    }
    fn undo(&mut self, mark: usize) {
        let s = self.s;
        while self.trail.len() > mark {
            let v = self.trail.pop().unwrap();
            let x = self.val[v].take().unwrap();
            for (i, k) in &s.occ[v] {
                let (_, a, b, c) = s.rows[*i][*k];
                let t = &mut self.sum[*i];
                t.0 = s.d.sub(t.0, s.d.mul(a, x));
                t.1 = s.d.sub(t.1, s.d.mul(b, x));
                t.2 = s.d.sub(t.2, s.d.mul(c, x));
                self.left[*i] += 1;
            }
        }
        self.queue.clear();
    }
    /// the unknown of a constraint with one unknown, and its solutions
    fn unit(&self, i: usize) -> Option<(usize, Option<Vec<D::T>>)> {
        if self.left[i] != 1 { return None; }
        let e = self.s.rows[i].iter().find(|e| self.val[e.0].is_none())?;
        let t = self.sum[i];
        Some((e.0, self.s.d.solve((t.0, e.1), (t.1, e.2), (t.2, e.3))))
    }
    fn propagate(&mut self) -> bool {
        while let Some(i) = self.queue.pop() {
            if self.left[i] == 0 {
                let t = self.sum[i];
                if self.s.d.mul(t.0, t.1) != t.2 { self.queue.clear(); return false; }
            } else if let Some((v, Some(sol))) = self.unit(i) {
                match sol.len() {
                    0 => { self.queue.clear(); return false; }
                    1 => self.set(v, sol[0]),
                    _ => {}
                }
            }
        }
        true
    }
    /// Visits satisfying assignments; `f` gets the values (None: variable in no constraint) and
    /// returns false to stop. `budget`: deviations from the honest assignment, None: unbounded.
    pub fn run(&mut self, budget: Option<usize>, f: &mut dyn FnMut(&[Option<D::T>]) -> bool) -> bool {
        if !self.propagate() { return true; }
        self.rec(0, budget, f)
    }
    fn rec(&mut self, mut at: usize, budget: Option<usize>, f: &mut dyn FnMut(&[Option<D::T>]) -> bool) -> bool {
        self.nodes += 1;
        if self.nodes % 4096 == 0 { if let Some(t) = self.tick { if !t() { self.capped = true; return false; } } }
        let s = self.s;
        while at < self.order.len() && (self.val[self.order[at]].is_some() || s.occ[self.order[at]].is_empty()) { at += 1; }
        if at == self.order.len() {
            self.leaves += 1;
            if !f(&self.val) { return false; }
            if self.leaves >= self.leaf_cap { self.capped = true; return false; }
            return true;
        }
        let v = self.order[at];
        // values allowed by the constraints in which v is the only unknown
        let mut vals: Vec<D::T> = s.d.values().to_vec();
        let mut first = true;
        for (i, _) in &s.occ[v] {
            if let Some((_, Some(sol))) = self.unit(*i) {
                if first { vals = sol; first = false; } else { vals.retain(|x| sol.contains(x)); }
            }
        }
        let h = self.honest.map(|h| h[v]);
        if let Some(h) = h {
            if first && !vals.contains(&h) { vals.push(h); }
            if let Some(k) = vals.iter().position(|x| *x == h) { vals.swap(0, k); }
        }
        for x in vals {
            let dev = h.map(|h| h != x).unwrap_or(false) as usize;
            let nb = match budget { Some(b) if dev > b => continue, Some(b) => Some(b - dev), None => None };
            let mark = self.trail.len();
            self.set(v, x);
            let go = !self.propagate() || self.rec(at + 1, nb, f);
            self.undo(mark);
            if !go { return false; }
        }
        true
    }
}

/// Variables that carry a given quantity in every honest run, up to a constant offset.
/// Exact copies are preferred; offsets are used only when no exact copy exists.
pub fn carriers<T: Copy + Eq>(runs: &[(Vec<T>, T)], sub: impl Fn(T, T) -> T, zero: T) -> Vec<(usize, T)> {
    let n = runs[0].0.len();
    let mut exact = vec![];
    let mut off = vec![];
    for v in 0..n {
        let d = sub(runs[0].0[v], runs[0].1);
        if runs.iter().all(|(a, t)| sub(a[v], *t) == d) {
            if d == zero { exact.push((v, zero)); } else { off.push((v, d)); }
        }
    }
    if exact.is_empty() { off } else { exact }
}
