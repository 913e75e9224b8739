//! C32: what progress output claims is true.
use crate::c02::run_id;
use crate::c03::{many, trees};
use crate::c22::Faults;
use crate::cio::*;
use crate::common::*;
use crate::pgen::words;
use crate::universe::{small_leaves, small_names};
use kit::ctx::{violation, Ctx};
use kit::hash::{fnv, Ht, ALL};
use kit::interpose::{take_stderr, Act, Call, Env, NoEnv, Op, CLOCK_STEP};
use kit::json::show;
use kit::mc::explore::{choose, current_choices, Bounds};
use kit::mc::label::USER;
use kit::mc::sched;
use kit::model::*;
use std::sync::atomic::Ordering;

pub type Counts = (u64, u64, u64);

/// Counts after each number of entries of the index.
fn prefixes(t: &Node) -> Vec<Counts> {
    let mut c = (0, 0, 0);
    let mut v = vec![c];
    for e in entries(t, Ht::Sha, BS) {
        match e.kind {
            RKind::Dir => c.0 += 1,
            RKind::File { .. } => c.1 += 1,
            RKind::Link(_) => c.2 += 1,
        }
        v.push(c);
    }
    v
}

/// The number in front of a word.
fn before(txt: &str, word: &str) -> Option<u64> {
    let at = txt.find(word)?;
    let d: String = txt[..at].trim_end().chars().rev().take_while(|c| c.is_ascii_digit()).collect();
    d.chars().rev().collect::<String>().parse().ok()
}
pub fn counts(txt: &str) -> Option<Counts> {
    Some((before(txt, " dirs")?, before(txt, " files")?, before(txt, " symlinks")?))
}

/// Judges the text on stderr: `done` is the index, if one was completed.
/// Returns the number of updates.
fn judge_text(txt: &[u8], pre: &[Counts], done: Option<&[u8]>, what: &str) -> usize {
    let fail = |m: String| -> ! { violation(&format!("{}: {}; stderr is {}", what, m, show(&txt[..txt.len().min(3000)]))) };
    let s = match std::str::from_utf8(txt) {
        Ok(s) => s,
        Err(_) => fail("stderr is not text".into()),
    };
    let mut last = 0;
    let mut updates = 0;
    let mut finals = 0;
    for seg in s.split_inclusive(|c| c == '\r' || c == '\n') {
        if finals > 0 {
            fail("there is output after the final line".into());
        }
        let c = match counts(seg) {
            Some(c) => c,
            None => fail(format!("{:?} does not tell the numbers of directories, files and links", seg)),
        };
        if seg.ends_with('\r') {
            updates += 1;
            match pre.iter().skip(last).position(|p| *p == c) {
                Some(i) => last += i,
                None => fail(format!("the update {:?} counts entries that were not reached in this order", seg)),
            }
        } else {
            finals += 1;
            if !seg.ends_with('\n') {
                fail(format!("the line {:?} is not terminated", seg));
            }
            let out = match done {
                Some(o) => o,
                None => fail(format!("{:?} is printed for a scan that failed", seg)),
            };
            if c != *pre.last().unwrap() {
                fail(format!("the final line {:?} should count {:?}", seg, pre.last().unwrap()));
            }
            let foot = std::str::from_utf8(&out[out.len() - 65..]).unwrap_or("?");
            if !seg.contains(&foot[..8]) {
                fail(format!("the final line {:?} does not name the checksum {}", seg, foot.trim()));
            }
        }
    }
    if done.is_some() && finals != 1 {
        fail("the final line is missing".into());
    }
    updates
}

/// Short and interrupted writes to stderr.
struct Bumpy;
impl Env for Bumpy {
    fn call(&mut self, c: &Call) -> Act {
        if c.op != Op::Write || c.fd != 2 {
            return Act::Pass;
        }
        match choose(4, 1, USER + 90) {
            0 => Act::Pass,
            1 => Act::Fail(libc::EINTR),
            2 => Act::Limit(c.size.min(1)),
            _ => Act::Limit((c.size / 2).max(1)),
        }
    }
}

fn step(n: u64) {
    CLOCK_STEP.store(n, Ordering::SeqCst);
}

fn ok_scan(s: &ScanOut, what: &str) {
    if let Err((k, e)) = &s.res {
        violation(&format!("{}: scan failed with {:?} {}", what, k, e));
    }
    if s.out.len() < 65 {
        violation(&format!("{}: no index", what));
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an execution is one scan with progress enabled, a clock step per reading, and a behaviour of stderr, of the file system or of the destination; every update must count a prefix of the entries in index order, never going back, and the final line must be there exactly if the scan succeeded, with the exact counts and the first digits of the footer written");
    ctx.text("bounds", "all trees of up to 4 (thorough: 5) nodes and hand-made ones up to 66 000 entries x threads {0,1,2,3} x queue {unset,0,2} x clock steps {0, 30, 99, 101, 1000 ms} x 3 hash types on small ones; 2 to 5 roots; every single (thorough: pair of) short or interrupted write to stderr; each failing system call (thorough: pair), a destination full at each byte; threads with all schedules of up to 1 (2) preemptions");
    ctx.text("assumptions", "stderr is written through write(2); the clock is read through clock_gettime");
    let th = ctx.thorough();
    let coarse = sched::Config { task_syscalls: false, ..sched::Config::default() };
    let mut ts: Vec<Node> = Vec::new();
    for n in 0..=ctx.pick(4, 5) {
        for f in forests(n, &small_names(), &small_leaves()) {
            ts.push(Node::Dir(f));
        }
    }
    let small = ts.len();
    for (_, t) in trees() {
        ts.push(t);
    }
    ts.push(many(34));
    {
        let mut t = Node::dir();
        for i in 0..400 {
            let n = format!("{:03}", i).into_bytes();
            t = t.with(&[b"f", &n[..]].concat(), Node::file(b"")).with(&[b"l", &n[..]].concat(), Node::link(b"f")).with(&[b"d", &n[..]].concat(), Node::dir());
        }
        ts.push(t);
    }
    ctx.chunk(16);
    for (i, t) in ts.iter().enumerate() {
        ctx.case(|| format!("progress of {:?}", t), |ctx| {
            let root = ctx.fresh("t");
            make(t, &root);
            let pre = prefixes(t);
            let all = i >= small || i < 40 || th;
            for &h in &ALL {
                if h != Ht::Sha && !all {
                    continue;
                }
                for (threads, queue) in [(0, None), (1, None), (2, None), (3, None), (2, Some(0)), (2, Some(2))] {
                    if !all && queue.is_none() && threads % 2 == 1 {
                        continue;
                    }
                    for ms in [0u64, 30, 99, 101, 1000] {
                        let o = Opts { ht: h, threads, queue, progress: true };
                        take_stderr();
                        step(ms * 1_000_000);
                        let s = scan_env(&[(&root, "/")], &o, &mut NoEnv, None);
                        step(0);
                        let txt = take_stderr();
                        let what = format!("{:?} with {:?}, clock step {} ms", t, o, ms);
                        ok_scan(&s, &what);
                        let n = judge_text(&txt, &pre, Some(&s.out), &what);
                        ctx.add("updates_checked", n as u64);
                        ctx.add("final_lines_checked", 1);
                        ctx.eval();
                        ctx.distinct(run_id(t, &o) ^ ms);
                        ctx.outcome(fnv(&txt));
                    }
                    // nothing without progress
                    let o = Opts { ht: h, threads, queue, progress: false };
                    step(1_000_000_000);
                    scan_env(&[(&root, "/")], &o, &mut NoEnv, None);
                    step(0);
                    let txt = take_stderr();
                    if !txt.is_empty() {
                        violation(&format!("{:?} with {:?}: stderr is written without progress: {}", t, o, show(&txt)));
                    }
                }
            }
            ctx.sample(|| format!("progress of {:?}: prefixes {:?}", t, pre));
            wipe(&root);
        });
    }
    // more than 2^16 of each kind
    for kind in 0..3usize {
        ctx.case(|| format!("66000 entries of kind {}", kind), |ctx| {
            let n = 66_000;
            let root = ctx.fresh("t");
            std::fs::create_dir(&root).unwrap();
            for i in 0..n {
                let p = root.join(format!("e{:05}", i));
                match kind {
                    0 => std::fs::create_dir(p).unwrap(),
                    1 => drop(std::fs::File::create(p).unwrap()),
                    _ => std::os::unix::fs::symlink("t", p).unwrap(),
                }
                if i % 1000 == 0 {
                    ctx.beat();
                }
            }
            let pre: Vec<Counts> = [(0, 0, 0), (1, 0, 0)].into_iter().chain((1..=n).map(|i| match kind {
                0 => (1 + i, 0, 0),
                1 => (1, i, 0),
                _ => (1, 0, i),
            })).collect();
            for (threads, ms) in [(0, 30u64), (2, 101)] {
                let o = Opts::new(Ht::Sha).threads(threads).progress();
                take_stderr();
                step(ms * 1_000_000);
                let s = scan_env(&[(&root, "/")], &o, &mut NoEnv, None);
                step(0);
                let txt = take_stderr();
                ok_scan(&s, "scan of many entries");
                judge_text(&txt, &pre, Some(&s.out), "scan of many entries");
                ctx.eval();
                ctx.distinct(kind as u64 * 2 + threads as u64);
            }
            wipe(&root);
        });
    }
    // several roots: one progress for all of them
    ctx.chunk(8);
    for shape in words(3, 2).into_iter().chain(words(3, 3)).chain([vec![0, 1, 2, 1, 0]]) {
        for swap in [false, true] {
            ctx.case(|| format!("roots {:?} {}", shape, swap), |ctx| {
                let base = ctx.fresh("t");
                std::fs::create_dir(&base).unwrap();
                let mut all = Node::dir();
                let mut roots = vec![];
                for (i, &x) in shape.iter().enumerate() {
                    let n = |s: &str| format!("{}{}", s, i).into_bytes();
                    let parts: Vec<(Vec<u8>, Node)> = match x {
                        0 => vec![],
                        1 => vec![(n("f"), Node::file(b"x"))],
                        _ => vec![(n("d"), Node::dir().with(b"g", Node::file(b"yy")).with(b"l", Node::link(b"t"))), (n("f"), Node::file(b"")), (n("l"), Node::link(b"t"))],
                    };
                    let mut t = Node::dir();
                    for (k, v) in parts {
                        t = t.with(&k, v.clone());
                        all = all.with(&k, v);
                    }
                    let p = base.join(format!("root{}", i));
                    make(&t, &p);
                    roots.push(p);
                }
                if swap {
                    roots.reverse();
                }
                let pre = prefixes(&all);
                let dirs: Vec<(&std::path::Path, &str)> = roots.iter().map(|r| (r.as_path(), "/")).collect();
                for threads in [0usize, 2] {
                    for ms in [0u64, 30, 101] {
                        let o = Opts::new(Ht::Sha).threads(threads).progress();
                        take_stderr();
                        step(ms * 1_000_000);
                        let s = scan_env(&dirs, &o, &mut NoEnv, None);
                        step(0);
                        let txt = take_stderr();
                        let what = format!("roots {:?} with {:?}, clock step {} ms", shape, o, ms);
                        ok_scan(&s, &what);
                        judge_text(&txt, &pre, Some(&s.out), &what);
                        ctx.eval();
                        ctx.distinct(fnv(what.as_bytes()));
                    }
                }
                wipe(&base);
            });
        }
    }
    ctx.chunk(2);
    let picks: Vec<&Node> = ts[small..ts.len() - 1].iter().chain(ts[..small].iter().filter(|t| t.count() <= ctx.pick(2, 3))).collect();
    for t in &picks {
        ctx.case(|| format!("stderr delivers late: {:?}", t), |ctx| {
            let root = ctx.fresh("t");
            make(t, &root);
            let pre = prefixes(t);
            let o = Opts::new(Ht::Sha).progress();
            let bound = if th && t.count() <= 8 { 2 } else { 1 };
            ctx.explore(Bounds::new(bound), |ctx| {
                take_stderr();
                step(150_000_000);
                let s = scan_env(&[(&root, "/")], &o, &mut Bumpy, None);
                step(0);
                let txt = take_stderr();
                ok_scan(&s, "scan with an interrupted stderr");
                judge_text(&txt, &pre, Some(&s.out), "short or interrupted writes to stderr");
                ctx.eval();
                let b: Vec<u8> = current_choices().iter().map(|&c| c as u8).collect();
                ctx.distinct(fnv(&b) ^ run_id(t, &o));
            });
            wipe(&root);
        });
        for threads in [0usize, 2] {
            ctx.case(|| format!("failing calls, {} threads: {:?}", threads, t), |ctx| {
                let root = ctx.fresh("t");
                make(t, &root);
                let pre = prefixes(t);
                let o = Opts::new(Ht::Sha).threads(threads).progress();
                let bound = if th && t.count() <= 8 { 2 } else { 1 };
                ctx.explore(Bounds::new(bound), |ctx| {
                    let mut env = Faults::new(&root);
                    take_stderr();
                    step(150_000_000);
                    let s = scan_env(&[(&root, "/")], &o, &mut env, None);
                    step(0);
                    let txt = take_stderr();
                    let done = if s.res.is_ok() { Some(&s.out[..]) } else { None };
                    judge_text(&txt, &pre, done, &format!("scan with failing {:?} that returns {:?}", env.hit, s.res));
                    ctx.add("failures_injected", env.hit.len() as u64);
                    ctx.eval();
                    let b: Vec<u8> = current_choices().iter().map(|&c| c as u8).collect();
                    ctx.distinct(fnv(&b) ^ run_id(t, &o) ^ 1);
                });
                let len = index(t, Ht::Sha).len();
                let ks: Vec<usize> = if len <= 1500 || th { (0..len).collect() } else { (0..len).filter(|k| k % 17 == 0 || k + 80 > len).collect() };
                for k in ks {
                    let mut w = CWrite::plain().room(k);
                    take_stderr();
                    step(150_000_000);
                    let (r, _) = scan_env_to(&[(&root, "/")], &o, &mut NoEnv, None, &mut w);
                    step(0);
                    let txt = take_stderr();
                    let done = if r.is_ok() { Some(&w.got[..]) } else { None };
                    judge_text(&txt, &pre, done, &format!("scan to a destination with room for {} of {} bytes that returns {:?}", k, len, r));
                    ctx.eval();
                    ctx.add("failures_injected", 1);
                }
                wipe(&root);
            });
        }
        for q in [None, Some(0), Some(1)] {
            if t.count() > 12 {
                continue;
            }
            ctx.case(|| format!("scheduled, queue {:?}: {:?}", q, t), |ctx| {
                let root = ctx.fresh("t");
                make(t, &root);
                let pre = prefixes(t);
                let o = Opts { ht: Ht::Sha, threads: 2, queue: q, progress: true };
                ctx.explore(Bounds::new(ctx.pick(1, 2)), |ctx| {
                    take_stderr();
                    step(150_000_000);
                    let s = scan_env(&[(&root, "/")], &o, &mut NoEnv, Some(coarse));
                    step(0);
                    let txt = take_stderr();
                    ok_scan(&s, "threaded scan with progress");
                    judge_text(&txt, &pre, Some(&s.out), "threaded scan with progress");
                    ctx.eval();
                    let b: Vec<u8> = current_choices().iter().map(|&c| c as u8).collect();
                    ctx.distinct(fnv(&b) ^ run_id(t, &o) ^ 2);
                });
                wipe(&root);
            });
        }
    }
}
