//! C03: threaded scanning equals sequential scanning in every interleaving.
use crate::common::*;
use kit::ctx::Ctx;
use kit::hash::Ht;
use kit::interpose::NoEnv;
use kit::mc::explore::Bounds;
use kit::mc::sched;
use kit::model::*;
use std::collections::BTreeMap;

/// One scheduled execution; its result must be the reference index.
pub fn sched_run(ctx: &mut Ctx, root: &std::path::Path, t: &Node, o: &Opts, sc: sched::Config) {
    let s = scan_env(&[(root, "/")], o, &mut NoEnv, Some(sc));
    judge(ctx, &s, t, o, "threaded scan");
    tally(ctx, &s);
}

/// Count an execution's states and transitions.
pub fn tally(ctx: &mut Ctx, s: &ScanOut) {
    let rep = s.report.as_ref().unwrap();
    tally_rep(ctx, rep);
}
pub fn tally_rep(ctx: &mut Ctx, rep: &sched::Report) {
    let salt = ctx.case_no().wrapping_mul(0x9E3779B97F4A7C15);
    // case_no differs between shards of one exploration: use the group
    let salt = ctx.group().unwrap_or(salt);
    for &h in &rep.states {
        ctx.distinct(h ^ salt);
    }
    ctx.add("transitions", rep.points);
    ctx.add("traces_validated_against_impl", 1);
    ctx.max("max_tasks", rep.tasks);
    let b: Vec<u8> = rep.order.iter().flat_map(|x| x.to_le_bytes()).collect();
    ctx.outcome(kit::hash::fnv(&b) ^ salt);
}

/// Explore all schedules of one configuration, split into `shards` cases.
pub fn explore_sched(
    ctx: &mut Ctx,
    what: &str,
    shards: u64,
    bound: u32,
    cap: u64,
    t: &Node,
    o: &Opts,
    sc: sched::Config,
) {
    let group = kit::hash::fnv(format!("{} {:?} {:?}", what, o, sc).as_bytes());
    for sh in 0..shards {
        ctx.case(|| format!("{} {:?} {:?} bound {} shard {}/{}", what, o, sc, bound, sh, shards), |ctx| {
            ctx.set_group(group);
            let root = ctx.fresh("t");
            make(t, &root);
            ctx.explore(Bounds::new(bound).shard(sh, shards).cap(cap), |ctx| {
                sched_run(ctx, &root, t, o, sc);
            });
            ctx.sample(|| format!("{} with {:?}: index of {:?}", what, o, t));
            wipe(&root);
        });
    }
}

pub fn trees() -> Vec<(&'static str, Node)> {
    let f = |s: &str| Node::file(s.as_bytes());
    vec![
        ("two files", Node::dir().with(b"a", f("1")).with(b"b", Node::exe(b"2"))),
        ("file, link, file", Node::dir().with(b"a", f("1")).with(b"b", Node::link(b"a")).with(b"c", f("3"))),
        ("files in two directories", Node::dir().with(b"a", f("1")).with(b"d", Node::dir().with(b"b", f("2"))).with(b"e", Node::dir())),
        ("three files", Node::dir().with(b"a", f("1")).with(b"b", f("2")).with(b"c", f("3"))),
        ("blocks", Node::dir().with(b"a", Node::file(&content(BS + 1, 1))).with(b"b", f("")).with(b"c", Node::file(&content(BS, 3)))),
        ("nested", Node::dir().with(b"a", Node::dir().with(b"x", f("1")).with(b"l", Node::link(b"y"))).with(b"a-b", Node::dir().with(b"y", f("2"))).with(b"z", f("3"))),
    ]
}

/// n files and a few links and directories
pub fn many(n: usize) -> Node {
    let mut m = BTreeMap::new();
    for i in 0..n {
        m.insert(format!("f{:03}", i).into_bytes(), Node::file(format!("{}", i * i).as_bytes()));
    }
    m.insert(b"f001l".to_vec(), Node::link(b"x"));
    m.insert(b"sub".to_vec(), Node::dir().with(b"last", Node::exe(b"last")));
    Node::Dir(m)
}

/// A tree whose index lists entries of the given kinds in the given order
/// (after the root directory).
pub fn sequence(kinds: &[u8]) -> Node {
    let mut root = BTreeMap::new();
    let mut sub: Option<(Vec<u8>, BTreeMap<Vec<u8>, Node>)> = None;
    for (i, k) in kinds.iter().enumerate() {
        let name = format!("{:03}", i).into_bytes();
        let node = match k {
            b'f' => Node::file(&name),
            b'l' => Node::link(&name),
            _ => {
                if let Some((n, m)) = sub.replace((name, BTreeMap::new())) {
                    root.insert(n, Node::Dir(m));
                }
                continue;
            }
        };
        match &mut sub {
            Some((_, m)) => m.insert(name, node),
            None => root.insert(name, node),
        };
    }
    if let Some((n, m)) = sub {
        root.insert(n, Node::Dir(m));
    }
    Node::Dir(root)
}

/// All words of kinds around the moment the queue is full.
fn full_queue(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let len = if th { 6 } else { 4 };
    let mut words: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..len {
        words = words.iter().flat_map(|w| b"fld".iter().map(move |&c| { let mut v = w.clone(); v.push(c); v })).collect();
    }
    let coarse = sched::Config { task_syscalls: false, free_start: false, block_cost: 1, ..sched::Config::default() };
    let mut confs = vec![(2usize, None, 32usize)];
    if th {
        confs.push((3, None, 48));
    }
    for q in 1..4usize {
        confs.push((2, Some(q), q));
    }
    for (n, q, limit) in confs {
        for filler in [b'f', b'l', b'd'] {
            let lo = limit.saturating_sub(len);
            for fill in lo..limit + 1 {
                ctx.case(|| format!("threads {} queue {:?}: one file, {} x {}, every word of {} kinds", n, q, fill, filler as char, len), |ctx| {
                    for w in &words {
                        let mut k = vec![b'f'];
                        k.extend(std::iter::repeat(filler).take(fill));
                        k.extend_from_slice(w);
                        k.extend_from_slice(b"lf");
                        let t = sequence(&k);
                        let root = ctx.fresh("t");
                        make(&t, &root);
                        let mut o = Opts::new(Ht::Sha).threads(n);
                        o.queue = q;
                        for stall in [1usize, 2, usize::MAX] {
                            let sc = sched::Config { stall, ..coarse };
                            ctx.explore(Bounds::new(if limit < 10 && th { 1 } else { 0 }), |ctx| sched_run(ctx, &root, &t, &o, sc));
                        }
                        wipe(&root);
                    }
                });
            }
        }
    }
}

/// One tree of the universes of C01, scanned by several threads under a
/// few fixed schedules.
fn threaded(ctx: &mut Ctx, tree: &Node, hts: &[Ht]) {
    let root = ctx.fresh("t");
    make(tree, &root);
    let coarse = sched::Config { task_syscalls: false, free_start: false, block_cost: 1, ..sched::Config::default() };
    for &h in hts {
        for (n, q, stall) in [(2usize, None, 0usize), (3, Some(1), usize::MAX)] {
            let mut o = Opts::new(h).threads(n);
            o.queue = q;
            sched_run(ctx, &root, tree, &o, sched::Config { stall, ..coarse });
            ctx.eval();
        }
    }
    ctx.sample(|| format!("threaded: {:?}", tree));
    wipe(&root);
}

pub fn run(ctx: &mut Ctx) {
    ctx.chunk(1);
    crate::universe::all(ctx, crate::universe::Size::Small, &mut threaded);
    ctx.chunk(1);
    crate::huge::scan_case(ctx, Ht::B2, 2);
    full_queue(ctx);
    ctx.text("bounds", "trees of the universes of C01 (small) under two fixed schedules; small trees, trees around a full queue and trees of tens of files under all schedules: every choice of which runnable thread continues (tasks start in FIFO order, at most N at once), points at task submission, start, every file-system call of a hashing task, completion, every poll, blocking and end; all switches at blocking points and task starts, and up to the stated number of preemptions elsewhere");
    ctx.text("assumptions", "hashing threads interact with the scanning thread only through the pool and the oneshot channels of futures 0.1 (both run for real here), so scheduling points at those operations and at file-system calls suffice | sequentially consistent memory | the pool is the replacement mcpool, with the API and future semantics of futures-cpupool 0.1.8, which starts queued tasks in FIFO order");
    let sc = sched::Config::default();
    let th = ctx.thorough();
    for (name, t) in trees() {
        let files = t.file_count();
        for n in [2usize, 3] {
            for q in [None, Some(1), Some(2)] {
                for h in [Ht::Sha, Ht::B2] {
                    if h == Ht::B2 && (q.is_some() || n == 3) && !th {
                        continue;
                    }
                    let mut o = Opts::new(h).threads(n);
                    o.queue = q;
                    let bound = if th { if files <= 2 { 5 } else { 3 } } else if files <= 2 { 3 } else if name == "blocks" { 1 } else { 2 };
                    explore_sched(ctx, name, if th { 32 } else { 4 }, bound, 0, &t, &o, sc);
                }
            }
        }
    }
    // blake3: the known finding, but with the same bytes in every schedule
    for q in [None, Some(1)] {
        let mut o = Opts::new(Ht::B3).threads(2);
        o.queue = q;
        explore_sched(ctx, "blake3", 4, if th { 3 } else { 2 }, 0, &trees()[3].1, &o, sc);
    }
    // more files than the queue holds
    let coarse = sched::Config { task_syscalls: false, free_start: false, block_cost: 1, ..sc };
    for (n, q, files, bound) in [(2usize, None, 40usize, 1u32), (3, None, 60, 1), (2, Some(1), 6, 2), (2, Some(3), 8, 2), (4, Some(2), 7, 2), (2, Some(0), 5, 2)] {
        let mut o = Opts::new(Ht::Sha).threads(n);
        o.queue = q;
        explore_sched(ctx, &format!("{} files", files), if th { 32 } else { 8 }, bound + th as u32, 0, &many(files), &o, coarse);
    }
    // the first tasks finish last
    for k in [1usize, 2, 3, 5] {
        for (n, q, files) in [(2usize, None, 40usize), (4, None, 80), (8, Some(1), 20), (3, Some(0), 20), (3, Some(5), 30), (64, None, 80)] {
            let mut o = Opts::new(Ht::Sha).threads(n);
            o.queue = q;
            let sc = sched::Config { stall: k, ..coarse };
            explore_sched(ctx, &format!("first {} tasks last, {} files", k, files), 1, 0, 0, &many(files), &o, sc);
        }
    }
}
