//! Stateless depth-first exploration of choice trees with deviation bounding.
//!
//! A scenario is a deterministic function of the answers it gets from `choose`. The explorer runs it
//! again and again until every choice sequence within the deviation bound has been executed exactly once.
//! `choose(n)` is a free branch (all n alternatives are always taken); `dev(n)` takes alternative 0 for
//! free, and each other alternative costs one deviation.

pub struct Chooser {
    prefix: Vec<u32>,
    pub trace: Vec<(u32, u32, bool)>, // (choice, arity, costs)
    used: u32,
    bound: u32,
    replay_len: usize,
}

impl Chooser {
    pub fn fixed(prefix: Vec<u32>, bound: u32) -> Chooser {
        let l = prefix.len();
        Chooser { prefix, trace: Vec::new(), used: 0, bound, replay_len: l }
    }
    fn pick(&mut self, n: u32, costs: bool) -> u32 {
        assert!(n > 0);
        let i = self.trace.len();
        let n_eff = if costs && self.used >= self.bound { 1 } else { n };
        let c = if i < self.replay_len {
            let c = self.prefix[i];
            // a divergence while replaying a prefix is a hard error of the harness
            if c >= n_eff { eprintln!("ENGINE: replay divergence at choice {} ({} of {})", i, c, n_eff); std::process::exit(70); }
            c
        } else { 0 };
        if costs && c != 0 { self.used += 1; }
        self.trace.push((c, n_eff, costs));
        c
    }
    pub fn choose(&mut self, n: usize) -> usize { self.pick(n as u32, false) as usize }
    pub fn dev(&mut self, n: usize) -> usize { self.pick(n as u32, true) as usize }
    pub fn of<T: Clone>(&mut self, xs: &[T]) -> T { let i = self.choose(xs.len()); xs[i].clone() }
    pub fn dev_of<T: Clone>(&mut self, xs: &[T]) -> T { let i = self.dev(xs.len()); xs[i].clone() }
    pub fn flag(&mut self) -> bool { self.choose(2) == 1 }
    pub fn choices(&self) -> Vec<u32> { self.trace.iter().map(|t| t.0).collect() }
    pub fn deviations(&self) -> u32 { self.used }
}

pub struct Stats { pub executions: u64, pub nodes: u64, pub capped: bool }

/// Runs `f` for every choice sequence. Returns how many executions and how many distinct tree nodes.
pub fn explore<F: FnMut(&mut Chooser)>(bound: u32, cap: u64, mut f: F) -> Stats {
    let mut prefix: Vec<u32> = Vec::new();
    let mut st = Stats { executions: 0, nodes: 1, capped: false };
    loop {
        let shared = if prefix.is_empty() { 0 } else { prefix.len() - 1 };
        let mut ch = Chooser::fixed(prefix.clone(), bound);
        f(&mut ch);
        st.executions += 1;
        st.nodes += (ch.trace.len() - shared) as u64;
        // next sequence in depth-first order
        let mut t = ch.trace;
        loop {
            match t.pop() {
                None => return st,
                Some((c, n, _)) => if c + 1 < n {
                    prefix = t.iter().map(|x| x.0).collect();
                    prefix.push(c + 1);
                    break;
                }
            }
        }
        if st.executions >= cap { st.capped = true; return st; }
    }
}
