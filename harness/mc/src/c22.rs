//! C22: a scan that cannot read everything; C31: descriptors.
use crate::c03::{many, sequence, tally, trees};
use crate::c02::run_id;
use crate::common::*;
use crate::universe::{small_leaves, small_names};
use kit::ctx::{check, violation, Ctx};
use kit::hash::{Ht, ALL};
use kit::interpose::{Act, Call, DirEnt, Env, Op};
use kit::mc::explore::{choose, Bounds};
use kit::mc::label::USER;
use kit::mc::sched;
use kit::model::*;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

pub const LBL: u32 = USER + 40;

/// Every error number Linux has.
static ERRNOS: [i32; 133] = {
    let mut v = [0; 133];
    let mut i = 0;
    while i < 133 {
        v[i] = i as i32 + 1;
        i += 1;
    }
    v
};

/// Errors the system may answer with.
fn menu(c: &Call, rich: bool, all: bool) -> &'static [i32] {
    if all && matches!(c.op, Op::Open | Op::Read | Op::Readdir | Op::Stat | Op::Fstat | Op::Readlink) {
        return &ERRNOS;
    }
    match (c.op, rich) {
        (Op::Open, true) => &[libc::EACCES, libc::ENOENT, libc::EMFILE, libc::ELOOP, libc::ENOTDIR, libc::EINTR, libc::ENXIO],
        (Op::Open, false) => &[libc::EACCES],
        (Op::Read, true) => &[libc::EIO, libc::EISDIR, libc::EAGAIN],
        (Op::Read, false) => &[libc::EIO],
        (Op::Readdir, true) => &[libc::EIO, libc::ENOENT],
        (Op::Readdir, false) => &[libc::EIO],
        (Op::Stat, true) => &[libc::EACCES, libc::ENOENT],
        (Op::Stat, false) => &[libc::EACCES],
        (Op::Fstat, true) => &[libc::EIO, libc::ENOMEM],
        (Op::Fstat, false) => &[libc::EIO],
        (Op::Readlink, true) => &[libc::EINVAL, libc::ENOENT, libc::EACCES],
        (Op::Readlink, false) => &[libc::EACCES],
        _ => &[],
    }
}

/// Fails calls as the explorer decides; counts open descriptors.
pub struct Faults {
    root: Vec<u8>,
    pub rich: bool,
    /// every errno there is
    pub all: bool,
    /// once something has failed, everything does
    pub sticky: bool,
    /// listings do not tell entry types
    pub unknown: bool,
    /// (operation, wants a directory, is the root itself)
    pub hit: Vec<(Op, bool, bool)>,
    /// calls that answered with an error of their own
    pub own: u32,
    /// /proc is not there: nothing of the tree depends on it
    pub no_proc: bool,
    pub count_fds: bool,
    pub max_fds: usize,
    pub ahead: u64,
}

impl Faults {
    pub fn new(root: &Path) -> Faults {
        Faults { root: root.as_os_str().as_bytes().to_vec(), rich: false, all: false, sticky: false, unknown: false, hit: vec![], own: 0, no_proc: false, count_fds: false, max_fds: 0, ahead: 0 }
    }
}

impl Env for Faults {
    fn call(&mut self, c: &Call) -> Act {
        if self.count_fds {
            self.max_fds = self.max_fds.max(open_fds().len());
        }
        if self.no_proc && c.name.map_or(false, |n| n.starts_with(b"/proc/")) {
            return Act::Fail(libc::ENOENT);
        }
        let m = menu(c, self.rich, self.all);
        if m.is_empty() || c.name.map_or(false, |n| n.starts_with(b"/proc/")) {
            return Act::Pass;
        }
        let k = if self.sticky && !self.hit.is_empty() { 1 } else { choose(m.len() + 1, 1, LBL) };
        if k == 0 {
            return Act::Pass;
        }
        let root = c.op == Op::Open && c.name == Some(&self.root[..]);
        let dir = c.op == Op::Readdir || (c.op == Op::Open && c.wants_dir());
        self.hit.push((c.op, dir, root));
        Act::Fail(m[k - 1])
    }
    fn arrange(&mut self, _dir: &[u8], ents: &mut Vec<DirEnt>) {
        if self.unknown {
            for e in ents.iter_mut() {
                e.dtype = libc::DT_UNKNOWN;
            }
        }
    }
}

/// Open descriptors of this process and what they refer to.
pub fn open_fds() -> Vec<(i32, Vec<u8>)> {
    kit::interpose::unhooked(|| {
        let mut v = Vec::new();
        // cheap enough: descriptors are small numbers here
        for fd in 0..1024 {
            if unsafe { libc::fcntl(fd, libc::F_GETFD) } >= 0 {
                v.push((fd, vec![]));
            }
        }
        v
    })
}

fn named_fds() -> Vec<(i32, Vec<u8>)> {
    open_fds().into_iter().map(|(fd, _)| (fd, kit::interpose::fd_path(fd))).collect()
}

/// The result must be the whole index, or an error with a proper prefix.
fn judge_fault(ctx: &mut Ctx, s: &ScanOut, env: &Faults, want: &[&[u8]], what: &str) {
    let fail = |m: String| -> ! { violation(&format!("{}: failing {:?}: {}", what, env.hit, m)) };
    match &s.res {
        Ok(()) => {
            // a failure may be worked around, but not by leaving things out
            if !want.iter().any(|w| *w == &s.out[..]) {
                fail(format!("the scan succeeds with a wrong index: {}", diff(&s.out, want[0])));
            }
        }
        Err((k, e)) => {
            if env.hit.is_empty() {
                fail(format!("the scan fails although no call did: {:?} {}", k, e));
            }
            if *k == Kind::Panic {
                fail(format!("panic: {}", e));
            }
            if !want.iter().any(|w| w[..w.len() - 65].starts_with(&s.out)) {
                fail(format!("after {:?} {}, what was written is not a proper prefix of the index without the footer: {}", k, e, diff(&s.out, want[0])));
            }
            let allowed: Vec<Kind> = env
                .hit
                .iter()
                .flat_map(|&(op, dir, root)| match (op, dir, root) {
                    (_, _, true) => vec![Kind::OpenDir, Kind::ListDir],
                    (_, true, _) => vec![Kind::ListDir],
                    // inspecting an entry is part of listing or of reading
                    (Op::Stat, _, _) => vec![Kind::ListDir, Kind::ReadFile],
                    _ => vec![Kind::ReadFile],
                })
                .collect();
            if !allowed.contains(k) {
                fail(format!("the error kind is {:?} ({})", k, e));
            }
            // opening the root is the first thing that can fail
            if env.hit[0].2 && *k != Kind::OpenDir {
                fail(format!("failing to open the root is reported as {:?}", k));
            }
        }
    }
    ctx.add("faults_injected", env.hit.len() as u64);
    ctx.outcome(kit::hash::fnv(format!("{:?} {:?}", s.res.as_ref().err().map(|x| x.0), env.hit.first()).as_bytes()));
}

fn wants(t: &Node, o: &Opts) -> Vec<Vec<u8>> {
    let mut v = vec![index(t, o.ht)];
    if o.ht == Ht::B3 {
        v.push(index_h(t, Ht::B3, o.how()));
    }
    v
}

fn fault_run(ctx: &mut Ctx, root: &Path, o: &Opts, set: &dyn Fn(&mut Faults), sc: Option<sched::Config>, want: &[Vec<u8>], id: u64) -> (ScanOut, Faults) {
    let mut env = Faults::new(root);
    set(&mut env);
    let s = scan_env(&[(root, "/")], o, &mut env, sc);
    let w: Vec<&[u8]> = want.iter().map(|w| &w[..]).collect();
    judge_fault(ctx, &s, &env, &w, "scan");
    ctx.eval();
    ctx.distinct(id);
    (s, env)
}

fn explore_faults(ctx: &mut Ctx, t: &Node, o: &Opts, bound: u32, shard: (u64, u64), set: &dyn Fn(&mut Faults), sc: Option<sched::Config>, fds: bool) {
    let root = ctx.fresh("t");
    make(t, &root);
    let want = wants(t, o);
    let before = named_fds();
    ctx.explore(Bounds::new(bound).shard(shard.0, shard.1), |ctx| {
        let (s, env) = fault_run(ctx, &root, o, set, sc, &want, run_id(t, o));
        if s.report.is_some() {
            tally(ctx, &s);
        }
        if fds {
            check_fds(&before, &env);
            ctx.max("max_open_descriptors", (env.max_fds - before.len().min(env.max_fds)) as u64);
        }
        ctx.sample(|| format!("{:?} {:?}: {:?} after failing {:?}", t, o, s.res, env.hit));
    });
    wipe(&root);
}

fn check_fds(before: &[(i32, Vec<u8>)], env: &Faults) {
    let after = named_fds();
    if after != before {
        let left: Vec<String> = after.iter().filter(|x| !before.contains(x)).map(|(fd, p)| format!("{} -> {}", fd, kit::json::show(p))).collect();
        let gone: Vec<&(i32, Vec<u8>)> = before.iter().filter(|x| !after.contains(x)).collect();
        violation(&format!("after a scan (failing {:?}) descriptors are still open: {:?} (or were closed: {:?})", env.hit, left, gone));
    }
}

fn fault_trees() -> Vec<(&'static str, Node)> {
    let mut v = trees();
    v.push(("kinds", Node::dir().with(b"a", Node::file(b"1")).with(b"d", Node::dir().with(b"e", Node::dir().with(b"f", Node::exe(b"2"))).with(b"l", Node::link(b"/x"))).with(b"p", Node::Fifo).with(b"z", Node::dir())));
    v
}

pub fn run22(ctx: &mut Ctx) {
    ctx.text("rule", "an execution is one scan in which one, two (small trees) or, from some point on, all system calls fail; it must return an error of the right kind after writing a proper prefix of the reference index without its footer, or (if the failure was worked around) succeed with exactly the index");
    ctx.text("bounds", "every open, read, readdir, stat, fstat and readlink of scans of all trees of up to 3 nodes (thorough: 4) and hand-made ones, each with every errno of its menu; every call of two hand-made trees with each of the 133 errnos Linux has; all pairs of failing calls on trees of up to 2 nodes (thorough: 3) and hand-made ones; everything failing from every call on; entry types known and unknown; threads {0,2,3} (threaded: failures combined with all schedules of up to 1 preemption, thorough 2); missing and non-directory roots");
    ctx.text("assumptions", "failures are injected at the libc boundary: open, openat, read, readdir, fstatat, fstat, statx, readlinkat | reading an entry's type when the listing lacks it may be reported as a listing or a reading error");
    let th = ctx.thorough();
    // every call of all small trees
    ctx.chunk(8);
    for n in 0..=ctx.pick(3, 4) {
        for f in forests(n, &small_names(), &small_leaves()) {
            let t = Node::Dir(f);
            ctx.case(|| format!("faults in {:?}", t), |ctx| {
                let bound = if n <= ctx.pick(2, 3) { 2 } else { 1 };
                for unknown in [false, true] {
                    explore_faults(ctx, &t, &Opts::new(Ht::Sha), bound, (0, 1), &|e| e.unknown = unknown, None, true);
                    explore_faults(ctx, &t, &Opts::new(Ht::Sha), 1, (0, 1), &|e| { e.unknown = unknown; e.rich = true }, None, false);
                    explore_faults(ctx, &t, &Opts::new(Ht::Sha), 1, (0, 1), &|e| { e.unknown = unknown; e.sticky = true }, None, true);
                }
                if n <= 2 {
                    let sc = sched::Config { task_syscalls: false, free_start: false, block_cost: 1, ..sched::Config::default() };
                    explore_faults(ctx, &t, &Opts::new(Ht::Sha).threads(2), 2, (0, 1), &|_| {}, Some(sc), true);
                }
            });
        }
    }
    ctx.chunk(1);
    for (name, t) in fault_trees() {
        for h in ALL {
            ctx.case(|| format!("{} {:?}", name, h), |ctx| {
                for progress in [false, true] {
                    let mut o = Opts::new(h);
                    o.progress = progress;
                    explore_faults(ctx, &t, &o, if h == Ht::Sha { 2 } else { 1 }, (0, 1), &|_| {}, None, true);
                    explore_faults(ctx, &t, &o, 1, (0, 1), &|e| { e.rich = true; e.unknown = true }, None, true);
                    explore_faults(ctx, &t, &o, 1, (0, 1), &|e| { e.sticky = true }, None, true);
                }
                kit::interpose::take_stderr();
            });
        }
        for n in [2usize, 3] {
            for q in [None, Some(1)] {
                let shards = 8;
                for sh in 0..shards {
                    ctx.case(|| format!("{} {} threads, queue {:?}, shard {}", name, n, q, sh), |ctx| {
                        let mut o = Opts::new(Ht::Sha).threads(n);
                        o.queue = q;
                        let sc = sched::Config::default();
                        let calls = t.count() > 4;
                        explore_faults(ctx, &t, &o, if calls && !th { 1 } else if th && !calls { 3 } else { 2 }, (sh, shards), &|_| {}, Some(sc), false);
                        let coarse = sched::Config { task_syscalls: false, free_start: false, block_cost: 1, ..sc };
                        explore_faults(ctx, &t, &o, 2 + (th && !calls) as u32, (sh, shards), &|_| {}, Some(coarse), true);
                        explore_faults(ctx, &t, &o, 1, (sh, shards), &|e| e.rich = true, Some(coarse), true);
                        explore_faults(ctx, &t, &o, 1, (sh, shards), &|e| e.sticky = true, Some(coarse), true);
                    });
                }
            }
        }
    }
    // each call failing in every way the system knows of
    for threads in [0usize, 2] {
        for unknown in [false, true] {
            for (i, t) in [
                Node::dir().with(b"a", Node::file(b"1")).with(b"d", Node::dir().with(b"x", Node::exe(b"2"))).with(b"l", Node::link(b"t")),
                Node::dir().with(b"e", Node::dir()).with(b"f", Node::file(&content(BS + 3, 1))).with(b"p", Node::Fifo),
            ].into_iter().enumerate() {
                ctx.case(|| format!("every errno, tree {}, {} threads, types {}", i, threads, if unknown { "unknown" } else { "known" }), |ctx| {
                    explore_faults(ctx, &t, &Opts::new(Ht::Sha).threads(threads), 1, (0, 1), &|e| { e.all = true; e.unknown = unknown }, None, true);
                });
            }
        }
    }
    // a failure in a task while the queue is full, and of a late file
    let coarse = sched::Config { task_syscalls: false, free_start: false, block_cost: 1, ..sched::Config::default() };
    for (n, q, files) in [(2usize, None, 40usize), (3, None, 60), (2, Some(1), 8), (2, Some(3), 10)] {
        for stall in [0usize, 1, 3, usize::MAX] {
            ctx.case(|| format!("{} files, {} threads, queue {:?}, first {} tasks last", files, n, q, stall), |ctx| {
                let mut o = Opts::new(Ht::Sha).threads(n);
                o.queue = q;
                let sc = sched::Config { stall, ..coarse };
                explore_faults(ctx, &many(files), &o, 1, (0, 1), &|_| {}, Some(sc), true);
            });
        }
    }
    // without /proc; entries of unknown kinds are the ones that may ask for it
    for (name, t) in fault_trees() {
        ctx.case(|| format!("{} without /proc", name), |ctx| {
            for threads in [0usize, 2] {
                for unknown in [false, true] {
                    explore_faults(ctx, &t, &Opts::new(Ht::Sha).threads(threads), 1, (0, 1), &|e| { e.no_proc = true; e.unknown = unknown }, None, true);
                }
            }
        });
    }
    // big files: a failure in every read of every block
    for threads in [0usize, 2] {
        ctx.case(|| format!("big file, {} threads", threads), |ctx| {
            for size in [BS, BS + 1, 2 * BS + 5, 100000] {
                let t = Node::dir().with(b"a", Node::file(b"1")).with(b"b", Node::file(&content(size, 1))).with(b"c", Node::file(&content(BS, 3)));
                explore_faults(ctx, &t, &Opts::new(Ht::Sha).threads(threads), 1, (0, 1), &|e| e.rich = true, None, true);
            }
        });
    }
    // roots that are not there
    ctx.case(|| "roots".into(), |ctx| {
        let base = ctx.fresh("t");
        make(&Node::dir().with(b"f", Node::file(b"x")).with(b"d", Node::dir()).with(b"dl", Node::link(b"nowhere")), &base);
        let before = named_fds();
        for bad in [base.join("missing"), base.join("f"), base.join("dl"), PathBuf::from(""), base.join("f/x"), PathBuf::from("/dev/null")] {
            for first in [false, true] {
                let good = base.join("d");
                let roots: Vec<(&Path, &str)> = if first { vec![(&bad, "/"), (&good, "/")] } else { vec![(&good, "/"), (&bad, "/")] };
                for threads in [0usize, 2] {
                    for roots in [&roots[..], &roots[if first { 0 } else { 1 }..][..1]] {
                        let s = scan_dirs(roots, &Opts::new(Ht::Sha).threads(threads));
                        match &s.res {
                            Err((Kind::OpenDir, _)) => {}
                            // opening a handle of a non-directory works
                            Err((Kind::ListDir, _)) if bad.ends_with("f") || bad.ends_with("null") => {}
                            r => violation(&format!("scanning {:?} gives {:?}", roots, r)),
                        }
                        let all = index(&Node::dir(), Ht::Sha);
                        check(all[..all.len() - 65].starts_with(&s.out), || format!("scanning {:?} writes {}", roots, kit::json::brief(&s.out)));
                        check(named_fds() == before, || format!("descriptors are left open after scanning {:?}", roots));
                        ctx.eval();
                    }
                }
            }
        }
        wipe(&base);
    });
}

fn depth(t: &Node) -> usize {
    match t {
        Node::Dir(m) => 1 + m.values().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

/// Descriptors a scan may hold besides those open before: more than any
/// reasonable way to walk a tree of this depth with that many entries ahead
/// needs (the code at hand needs two per level, one per queued entry and one
/// per thread), but independent of the number of files and directories.
fn allowance(t: &Node, o: &Opts) -> usize {
    let queue = if o.threads > 0 { o.queue.unwrap_or(o.threads * 16) + o.threads } else { 0 };
    4 * (depth(t) + queue) + 16
}

pub fn run31(ctx: &mut Ctx) {
    ctx.text("rule", "an execution is one scan, with or without failing calls; the descriptors open before and after it must be the same, and at every system call the number of additional ones must stay within 4 * depth + 16, plus 4 * (queue size + threads) if threaded, which does not depend on the number of files or directories");
    ctx.text("bounds", "every failing call (and pairs on small trees) of all trees of up to 2 nodes (thorough: 3) and hand-made ones, threads {0,2}; trees of 1 to 1000 files, links and sibling directories (empty, with files, with subdirectories), chains of depth 1 to 40; threads {0,2,4} x queue {default,1,3}, with the first tasks unfinished as long as possible");
    ctx.text("assumptions", "descriptors are counted at every intercepted system call");
    let th = ctx.thorough();
    ctx.chunk(4);
    for n in 0..=ctx.pick(2, 3) {
        for f in forests(n, &small_names(), &small_leaves()) {
            let t = Node::Dir(f);
            ctx.case(|| format!("faults in {:?}", t), |ctx| {
                for threads in [0usize, 2] {
                    explore_faults(ctx, &t, &Opts::new(Ht::Sha).threads(threads), 2, (0, 1), &|e| e.unknown = true, None, true);
                }
            });
        }
    }
    ctx.chunk(1);
    for (name, t) in fault_trees() {
        for threads in [0usize, 2, 3] {
            for shard in 0..4 {
                ctx.case(|| format!("faults in {} with {} threads, shard {}", name, threads, shard), |ctx| {
                    let o = Opts::new(Ht::Sha).threads(threads);
                    let sc = sched::Config { task_syscalls: false, free_start: false, block_cost: 1, ..sched::Config::default() };
                    explore_faults(ctx, &t, &o, if th { 3 } else { 2 }, (shard, 4), &|_| {}, if threads > 0 { Some(sc) } else { None }, true);
                });
            }
        }
    }
    // how many at once
    let files = |n: usize| sequence(&vec![b'f'; n]);
    let links = |n: usize| sequence(&vec![b'l'; n]);
    let dirs = |n: usize, sub: &[u8]| {
        let mut k = Vec::new();
        for _ in 0..n {
            k.push(b'd');
            k.extend_from_slice(sub);
        }
        sequence(&k)
    };
    let chain = |n: usize, full: bool| {
        let mut t = Node::dir();
        for i in 0..n {
            t = Node::dir().with(b"d", t);
            if full {
                t = t.with(b"a", Node::file(b"1")).with(b"e", Node::dir().with(b"x", Node::file(b"2"))).with(b"z", Node::dir()).with(b"l", Node::link(format!("{}", i).as_bytes()));
            }
        }
        t
    };
    let wide2 = |n: usize| {
        let mut t = Node::dir();
        for i in 0..n {
            let mut d = Node::dir();
            for j in 0..5 {
                d = d.with(format!("s{}", j).as_bytes(), Node::dir().with(b"f", Node::file(b"1")));
            }
            t = t.with(format!("{:03}", i).as_bytes(), d);
        }
        t
    };
    let mut shapes: Vec<(String, Node)> = Vec::new();
    for n in [1usize, 10, 40, 200, 1000] {
        shapes.push((format!("{} files", n), files(n)));
        shapes.push((format!("{} links", n), links(n)));
        shapes.push((format!("{} directories", n), dirs(n, b"")));
        shapes.push((format!("{} directories with a file", n), dirs(n, b"f")));
        shapes.push((format!("{} directories with a link", n), dirs(n, b"l")));
        if n < 100 {
            shapes.push((format!("{} directories with subdirectories", n), wide2(n)));
        }
    }
    for n in [1usize, 5, 20, 40] {
        shapes.push((format!("chain of {}", n), chain(n, false)));
        shapes.push((format!("full chain of {}", n), chain(n, true)));
    }
    for (name, t) in &shapes {
        for threads in [0usize, 2, 4] {
            for q in [None, Some(1), Some(3)] {
                if threads == 0 && q.is_some() {
                    continue;
                }
                ctx.case(|| format!("{}, {} threads, queue {:?}", name, threads, q), |ctx| {
                    let root = ctx.fresh("t");
                    make(t, &root);
                    let mut o = Opts::new(Ht::Sha).threads(threads);
                    o.queue = q;
                    let want = wants(t, &o);
                    let before = named_fds();
                    for stall in [0usize, 1, usize::MAX] {
                        let sc = sched::Config { task_syscalls: false, free_start: false, block_cost: 1, stall, ..sched::Config::default() };
                        ctx.explore(Bounds::new(0), |ctx| {
                            let mut env = Faults::new(&root);
                            env.count_fds = true;
                            let s = scan_env(&[(&root, "/")], &o, &mut env, if threads > 0 { Some(sc) } else { None });
                            check(s.res.is_ok() && want.contains(&s.out), || format!("scan of {}: {:?}", name, s.res));
                            check_fds(&before, &env);
                            let used = env.max_fds.saturating_sub(before.len());
                            check(used <= allowance(t, &o), || format!("{} descriptors are open at once while scanning {} with {} threads and queue {:?} (allowed {})", used, name, threads, q, allowance(t, &o)));
                            ctx.max("max_open_descriptors", used as u64);
                            ctx.eval();
                            ctx.distinct(kit::hash::fnv(format!("{} {} {:?} {}", name, threads, q, stall).as_bytes()));
                        });
                        if threads == 0 {
                            break;
                        }
                    }
                    wipe(&root);
                });
            }
        }
    }
}
