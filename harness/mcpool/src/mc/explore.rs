//! Deviation-bounded exhaustive exploration of all choice sequences.
//!
//! An execution asks `choose(n, cost, label)` at every point where the
//! environment (or the scheduler) can answer differently. Alternative 0 is
//! the default and free; every other alternative costs `cost`. The explorer
//! runs every choice sequence whose total cost is within the bound, depth
//! first, by replaying a prefix and taking defaults afterwards.
use std::cell::UnsafeCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Pt {
    pub n: u32,
    pub choice: u32,
    pub cost: u8,
    pub label: u32,
}

#[derive(Default)]
pub struct Exec {
    prefix: Vec<Pt>,
    pub trace: Vec<Pt>,
    pub spent: u32,
    active: bool,
    /// set when a replayed prefix met a different choice point
    pub diverged: Option<String>,
}

struct Global(UnsafeCell<Exec>);
// Only one controlled thread runs at a time (baton); see sched.
unsafe impl Sync for Global {}
static EXEC: Global = Global(UnsafeCell::new(Exec {
    prefix: Vec::new(),
    trace: Vec::new(),
    spent: 0,
    active: false,
    diverged: None,
}));

#[allow(clippy::mut_from_ref)]
fn exec() -> &'static mut Exec {
    unsafe { &mut *EXEC.0.get() }
}

/// Is an exploration running?
pub fn active() -> bool {
    exec().active
}

/// Cost spent so far in the current execution.
pub fn spent() -> u32 {
    exec().spent
}

pub fn trace_len() -> usize {
    exec().trace.len()
}

/// Ask for a decision. Returns 0 when no exploration is running.
pub fn choose(n: usize, cost: u8, label: u32) -> usize {
    let e = exec();
    if !e.active || n <= 1 {
        return 0;
    }
    let pos = e.trace.len();
    let mut choice = 0;
    if pos < e.prefix.len() {
        let p = e.prefix[pos];
        if p.n != n as u32 || p.label != label {
            if e.diverged.is_none() {
                e.diverged = Some(format!(
                    "replay divergence at choice {}: recorded {} alternatives ({}), now {} ({}); choices {:?}",
                    pos, p.n, p.label, n, label,
                    e.trace.iter().map(|p| (p.choice, p.n)).collect::<Vec<_>>()
                ));
            }
        } else {
            choice = p.choice;
        }
    }
    let pt = Pt { n: n as u32, choice, cost, label };
    e.trace.push(pt);
    if choice != 0 {
        e.spent += cost as u32;
    }
    choice as usize
}

#[derive(Clone, Copy, Debug)]
pub struct Bounds {
    /// total cost allowed per execution
    pub bound: u32,
    /// this shard explores the top-level branches `i % shards == shard`
    pub shard: u64,
    pub shards: u64,
    /// stop after that many executions (0 = no cap)
    pub max_execs: u64,
}

impl Bounds {
    pub fn new(bound: u32) -> Bounds {
        Bounds { bound, shard: 0, shards: 1, max_execs: 0 }
    }
    pub fn shard(mut self, i: u64, n: u64) -> Bounds {
        self.shard = i;
        self.shards = n;
        self
    }
    pub fn cap(mut self, n: u64) -> Bounds {
        self.max_execs = n;
        self
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub execs: u64,
    pub choices: u64,
    pub max_points: u64,
    pub capped: bool,
    pub stopped: bool,
}

/// The choices made by the execution that has just finished (or, inside an
/// execution, made so far).
pub fn current_choices() -> Vec<u32> {
    exec().trace.iter().map(|p| p.choice).collect()
}

/// Human readable version of the non-default choices.
pub fn describe_choices() -> String {
    let mut s = String::new();
    for (i, p) in exec().trace.iter().enumerate() {
        if p.choice != 0 {
            s.push_str(&format!(
                "{}@{}:{}/{} ",
                super::label::name(p.label), i, p.choice, p.n
            ));
        }
    }
    if s.is_empty() {
        s.push_str("all default");
    }
    s
}

/// Run one execution with the given choices (then defaults).
pub fn replay<F: FnMut()>(choices: &[u32], mut run: F) {
    // n and label of the points are unknown: learn them by running with
    // growing prefixes
    let mut known: Vec<Pt> = Vec::new();
    loop {
        let e = exec();
        e.prefix = known.clone();
        e.trace.clear();
        e.spent = 0;
        e.diverged = None;
        e.active = true;
        if known.len() >= choices.len() {
            run();
            break;
        }
        // find the next non-default choice
        let next = (known.len()..choices.len()).find(|&i| choices[i] != 0);
        match next {
            None => {
                run();
                break;
            }
            Some(i) => {
                run();
                let t = exec().trace.clone();
                if i >= t.len() || choices[i] >= t[i].n {
                    // the tree has changed: run with what is known
                    break;
                }
                known = t[..=i].to_vec();
                known[i].choice = choices[i];
            }
        }
    }
    exec().active = false;
}

/// Explore all choice sequences within the bounds. `run` performs one
/// execution from scratch and returns false to stop the exploration.
pub fn explore<F: FnMut() -> bool>(b: Bounds, mut run: F) -> Stats {
    let mut st = Stats::default();
    let mut prefix: Vec<Pt> = Vec::new();
    let mut branch: u64 = 0;
    let mut first = true;
    loop {
        {
            let e = exec();
            e.prefix = prefix;
            e.trace.clear();
            e.spent = 0;
            e.diverged = None;
            e.active = true;
        }
        let go = run();
        let e = exec();
        e.active = false;
        let count = !first || b.shard == 0;
        first = false;
        if count {
            st.execs += 1;
            st.choices += e.trace.len() as u64;
            st.max_points = st.max_points.max(e.trace.len() as u64);
        }
        if !go {
            st.stopped = true;
            return st;
        }
        if b.max_execs != 0 && st.execs >= b.max_execs {
            st.capped = true;
            return st;
        }
        // backtrack
        let mut t = std::mem::take(&mut e.trace);
        // cost spent before each position
        let mut before: Vec<u32> = Vec::with_capacity(t.len());
        let mut zero_until = t.len(); // first position with non-default choice
        let mut s = 0u32;
        for (i, p) in t.iter().enumerate() {
            before.push(s);
            if p.choice != 0 {
                s += p.cost as u32;
                if zero_until == t.len() {
                    zero_until = i;
                }
            }
        }
        loop {
            let i = match t.len() {
                0 => return st,
                l => l - 1,
            };
            let p = t[i];
            if p.choice + 1 < p.n && before[i] + p.cost as u32 <= b.bound {
                t[i].choice += 1;
                if i <= zero_until {
                    // a branch of the root execution
                    let mine = branch % b.shards == b.shard;
                    branch += 1;
                    zero_until = i;
                    if !mine {
                        continue;
                    }
                }
                break;
            }
            t.pop();
        }
        prefix = t;
    }
}

/// Did the last execution diverge from its recorded prefix?
pub fn diverged() -> bool {
    exec().diverged.is_some()
}

/// How it diverged.
pub fn divergence() -> Option<String> {
    exec().diverged.clone()
}
