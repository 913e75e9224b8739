//! C26: how far the scanning thread runs ahead of the hashing threads.
use crate::c03::{many, sequence, tally, trees};
use crate::common::*;
use kit::ctx::{violation, Ctx};
use kit::hash::Ht;
use kit::interpose::{Call, Act, Env, Op};
use kit::json::show;
use kit::mc::explore::Bounds;
use kit::mc::sched;
use kit::model::*;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

/// Where each entry is in the index.
struct Plan {
    root: Vec<u8>,
    /// position of the n-th file
    files: Vec<u64>,
    /// position of the n-th file or link
    leaves: Vec<u64>,
    dirs: BTreeMap<Vec<u8>, u64>,
}

impl Plan {
    fn new(t: &Node, root: &Path) -> Plan {
        let mut p = Plan { root: root.as_os_str().as_bytes().to_vec(), files: vec![], leaves: vec![], dirs: BTreeMap::new() };
        for (i, e) in entries(t, Ht::Sha, BS).iter().enumerate() {
            match e.kind {
                RKind::Dir => {
                    p.dirs.insert(e.path.clone(), i as u64);
                }
                RKind::File { .. } => {
                    p.files.push(i as u64);
                    p.leaves.push(i as u64);
                }
                _ => p.leaves.push(i as u64),
            }
        }
        p
    }
    /// Positions of the entries the tasks of a scan are for: one per file, or
    /// one per file and link.
    fn tasks(&self, n: u64) -> Option<&[u64]> {
        [&self.files, &self.leaves].into_iter().find(|v| v.len() as u64 == n).map(|v| &v[..])
    }
}

struct Watch<'a> {
    plan: &'a Plan,
    listed: BTreeSet<Vec<u8>>,
    /// where a directory that was listed is, and the oldest unfinished task
    /// at that time
    ahead: Vec<(u64, u64)>,
}

impl<'a> Env for Watch<'a> {
    fn call(&mut self, c: &Call) -> Act {
        if c.op == Op::Readdir && sched::me() == Some(0) {
            let path = c.path();
            if let Some(rel) = path.strip_prefix(&self.plan.root[..]) {
                let rel = if rel.is_empty() { b"/".to_vec() } else { rel.to_vec() };
                if !self.listed.contains(&rel) {
                    if let (Some(&d), Some(j)) = (self.plan.dirs.get(&rel), sched::unhashed()) {
                        // everything before the directory has been queued
                        self.ahead.push((d, j));
                    }
                    self.listed.insert(rel);
                }
            }
        }
        Act::Pass
    }
}

fn limit(o: &Opts) -> u64 {
    o.queue.unwrap_or(16 * o.threads) as u64
}

fn one(ctx: &mut Ctx, root: &Path, plan: &Plan, t: &Node, o: &Opts, sc: sched::Config) {
    let mut env = Watch { plan, listed: BTreeSet::new(), ahead: vec![] };
    let s = scan_env(&[(root, "/")], o, &mut env, Some(sc));
    judge(ctx, &s, t, o, "threaded scan");
    tally(ctx, &s);
    let l = limit(o);
    let rep = s.report.as_ref().unwrap();
    let Some(at) = plan.tasks(rep.tasks) else {
        // tasks are for something else
        ctx.add("executions_not_judged", 1);
        return;
    };
    let mut max = 0;
    for &(k, j) in &rep.ahead {
        let a = at[k as usize] - at[j as usize];
        if a > l {
            violation(&format!("entry {} was queued, {} entries after entry {}, which was not hashed yet; the queue size is {} ({:?})", at[k as usize], a, at[j as usize], l, o));
        }
        max = max.max(a);
    }
    for &(d, j) in &env.ahead {
        // everything before the directory has been queued
        let a = (d - 1).saturating_sub(at[j as usize]);
        if a > l {
            let dir = plan.dirs.iter().find(|p| *p.1 == d).unwrap().0;
            violation(&format!("directory {} was listed while {} entries were queued behind a file that was not hashed yet; the queue size is {} ({:?})", show(dir), a, l, o));
        }
        max = max.max(a);
    }
    ctx.max("max_entries_ahead", max);
    if max == l {
        ctx.add("executions_reaching_the_limit", 1);
    }
}

fn explore(ctx: &mut Ctx, what: &str, shards: u64, bound: u32, t: &Node, o: &Opts, sc: sched::Config) {
    let group = kit::hash::fnv(format!("{} {:?} {:?}", what, o, sc).as_bytes());
    for sh in 0..shards {
        ctx.case(|| format!("{} {:?} {:?} bound {} shard {}/{}", what, o, sc, bound, sh, shards), |ctx| {
            ctx.set_group(group);
            let root = ctx.fresh("t");
            make(t, &root);
            let plan = Plan::new(t, &root);
            ctx.explore(Bounds::new(bound).shard(sh, shards), |ctx| one(ctx, &root, &plan, t, o, sc));
            ctx.sample(|| format!("{} with {:?}: at most {} entries ahead", what, o, limit(o)));
            wipe(&root);
        });
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "in every interleaving: when a file is handed to the hashing threads, or a directory is listed, while the oldest file whose result was not written has no result yet, at most the queue size of entries follow that file in the queue (positions are those of the reference index); and the scan ends with the right index");
    ctx.text("bounds", "all trees whose index is a word of files, links and directories of length up to 5 (thorough: 7) x queue size 0..4 x 2 and 3 threads; schedules: the first 1, 2, all tasks unfinished as long as possible, plus every deviation from that up to the stated bound; default and longer queues with 40 to 400 files, links or directories");
    ctx.text("assumptions", "hashing threads interact with the scanning thread only through the pool and the futures it returns | the pool is the replacement mcpool, which starts queued tasks in FIFO order | queued links can only be observed through the files and directories around them");
    let th = ctx.thorough();
    let coarse = sched::Config { task_syscalls: false, free_start: false, block_cost: 1, ..sched::Config::default() };
    // all words
    let len = ctx.pick(5, 7);
    let mut words: Vec<Vec<u8>> = vec![vec![]];
    let mut layer = words.clone();
    for _ in 0..len {
        layer = layer.iter().flat_map(|w| b"fld".iter().map(move |&c| { let mut v = w.clone(); v.push(c); v })).collect();
        words.extend(layer.iter().cloned());
    }
    ctx.chunk(4);
    for w in &words {
        ctx.case(|| format!("all schedules of the tree {}", show(w)), |ctx| {
            let mut k = vec![b'f'];
            k.extend_from_slice(w);
            k.extend_from_slice(b"f");
            let t = sequence(&k);
            let root = ctx.fresh("t");
            make(&t, &root);
            let plan = Plan::new(&t, &root);
            for q in (0..5usize).rev() {
                for n in [2usize, 3] {
                    let o = Opts::new(Ht::Sha).threads(n).queue(q);
                    for stall in [0usize, 1, 2, usize::MAX] {
                        let sc = sched::Config { stall, ..coarse };
                        let bound = if w.len() <= 3 { 2 } else { 1 };
                        ctx.explore(Bounds::new(bound), |ctx| one(ctx, &root, &plan, &t, &o, sc));
                    }
                }
            }
            wipe(&root);
        });
    }
    ctx.chunk(1);
    // every interleaving of small trees, with points at system calls
    for (name, t) in trees() {
        for n in [2usize, 3] {
            for q in [0usize, 1, 2] {
                let o = Opts::new(Ht::Sha).threads(n).queue(q);
                let b = if name == "blocks" { 1 } else { 2 };
                explore(ctx, name, if th { 16 } else { 2 }, b + th as u32, &t, &o, sched::Config::default());
            }
        }
    }
    // the default size and bigger trees
    let fill = |n: usize, c: u8| {
        let mut k = vec![b'f'];
        k.extend(std::iter::repeat(c).take(n));
        k.extend_from_slice(b"fldf");
        sequence(&k)
    };
    let sizes = vec![40usize, 100, 400];
    for &size in &sizes {
        for (what, t) in [("files", many(size)), ("links", fill(size, b'l')), ("directories", fill(size, b'd'))] {
            for (n, q) in [(2usize, None), (3, None), (5, None), (2, Some(7)), (4, Some(1)), (8, Some(0)), (2, Some(33)), (2, Some(150)), (3, Some(257)), (19, None)] {
                let mut o = Opts::new(Ht::Sha).threads(n);
                o.queue = q;
                for stall in [0usize, 1, 2, 5, usize::MAX] {
                    let sc = sched::Config { stall, ..coarse };
                    explore(ctx, &format!("{} {}", size, what), 1, if size == 40 || (th && size == 100) { 1 } else { 0 }, &t, &o, sc);
                }
            }
        }
    }
}
