//! Stateless depth-first exploration of choice sequences with a deviation bound.
//! Choice 0 is the default answer; every other answer is one deviation.

#[derive(Clone, Debug)]
pub struct Point { pub n: usize, pub taken: usize, pub cost: usize }

pub struct Chooser { prefix: Vec<usize>, pub points: Vec<Point>, pub diverged: bool }

impl Chooser {
    pub fn new(prefix: Vec<usize>) -> Self { Chooser { prefix, points: vec![], diverged: false } }
    /// `n` possible answers at this point; a non-default answer costs `cost` deviations.
    pub fn choose_cost(&mut self, n: usize, cost: usize) -> usize {
        let i = self.points.len();
        let mut t = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if t >= n { self.diverged = true; t = 0; }
        self.points.push(Point { n, taken: t, cost });
        t
    }
    pub fn choose(&mut self, n: usize) -> usize { self.choose_cost(n, 1) }
    pub fn taken(&self) -> Vec<usize> { self.points.iter().map(|p| p.taken).collect() }
}

#[derive(Default, Debug, Clone)]
pub struct Stats { pub executions: u64, pub points: u64, pub max_points: usize, pub diverged: u64, pub stopped: bool }

/// Runs `f` on every choice sequence with at most `bound` deviations. `f` returns false to stop.
pub fn explore(bound: usize, mut f: impl FnMut(&mut Chooser) -> bool) -> Stats {
    let mut st = Stats::default();
    let mut stack: Vec<(Vec<usize>, usize)> = vec![(vec![], 0)];
    while let Some((prefix, used)) = stack.pop() {
        let plen = prefix.len();
        let mut ch = Chooser::new(prefix);
        let go = f(&mut ch);
        st.executions += 1;
        st.points += (ch.points.len() - plen.min(ch.points.len())) as u64;
        st.max_points = st.max_points.max(ch.points.len());
        if ch.diverged || ch.points.len() < plen { st.diverged += 1; if !go { st.stopped = true; return st; } continue; }
        if !go { st.stopped = true; return st; }
        let taken = ch.taken();
        // push in reverse so that the earliest deviation is explored first
        for i in (plen..ch.points.len()).rev() {
            let p = &ch.points[i];
            if used + p.cost > bound { continue; }
            for alt in (1..p.n).rev() {
                let mut q = taken[..i].to_vec();
                q.push(alt);
                stack.push((q, used + p.cost));
            }
        }
    }
    st
}
