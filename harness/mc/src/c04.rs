//! C04: options that do not describe content never change the index.
use crate::c02;
use crate::c03::many;
use crate::common::*;
use dir_signature::{v1, ScannerConfig};
use kit::ctx::{check, cut, verif_dir, violation, Ctx};
use kit::hash::{Ht, ALL};
use kit::interpose::{self, take_stderr, with_env, Act, Call, Env, NoEnv, Op, CLOCK_STEP};
use kit::json::show;
use kit::mc::explore::{choose, Bounds};
use kit::mc::label::USER;
use kit::mc::sched;
use kit::model::*;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering;

#[derive(Clone, Copy, Debug)]
enum Err2 {
    Works,
    Always(i32),
    /// each write: works, fails, or is short
    Choice,
}

struct Stderr {
    how: Err2,
    writes: u64,
}

impl Env for Stderr {
    fn call(&mut self, c: &Call) -> Act {
        if c.op != Op::Write || c.fd != 2 {
            return Act::Pass;
        }
        self.writes += 1;
        match self.how {
            Err2::Works => Act::Pass,
            Err2::Always(e) => Act::Fail(e),
            Err2::Choice => match choose(5, 1, USER + 20) {
                0 => Act::Pass,
                1 => Act::Fail(libc::EIO),
                2 => Act::Fail(libc::EINTR),
                3 => Act::Limit(c.size.min(1)),
                _ => Act::Fake(0),
            },
        }
    }
}

fn trees() -> Vec<Node> {
    let f = |s: &str| Node::file(s.as_bytes());
    vec![
        Node::dir(),
        Node::dir().with(b"a", f("1")),
        Node::dir().with(b"a", Node::exe(b"")).with(b"b", Node::file(&content(BS, 1))).with(b"l", Node::link(b"\xff")),
        Node::dir()
            .with(b"x", Node::file(&content(2 * BS + 5, 3)))
            .with(b"d", Node::dir().with(b"y", Node::exe(b"y")).with(b"e", Node::dir()).with(b"s", Node::link(b"x")))
            .with(b"p", Node::Fifo),
        {
            // a dozen and more of everything
            let mut t = many(20);
            for i in 0..14u8 {
                let n = format!("n{:02}", i).into_bytes();
                t = t.with(&[&n[..], b"l"].concat(), Node::link(&n)).with(&n, Node::dir().with(b"l", Node::link(&n)).with(b"x", Node::exe(&n)));
            }
            t
        },
    ]
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation is one scan with one combination of options (progress, threads, queue size, hash type) and stderr behaviour; distinct by options, tree and behaviour; all must write the reference index");
    ctx.text("bounds", "5 trees x threads {0,1,2,3,8,64,auto} x queue {unset,0,1,2,1000,2^64-1} x progress {off,on} x 3 hash types x stderr {works, EPIPE, EIO, EBADF, EAGAIN, ENOSPC; every single (thorough: pair of) failing, interrupted, short or empty write}, clock steps {0, 50 ms, 150 ms} per reading; plus scheduler exploration (preemption bound 1, thorough 2) with progress on, all sequences of 3 (4) of 11 settings of one configuration with scans in between, and the library built without thread support");
    ctx.text("assumptions", "stderr is written through write(2); the clock is read through clock_gettime");
    let ts = trees();
    let mut combos: Vec<(usize, Option<usize>)> = Vec::new();
    for threads in [0usize, 1, 2, 3, 8, 64] {
        for q in [None, Some(0), Some(1), Some(2), Some(1000), Some(usize::MAX)] {
            combos.push((threads, q));
        }
    }
    for (ti, t) in ts.iter().enumerate() {
        for &(threads, queue) in &combos {
            for &h in &ALL {
                for progress in [false, true] {
                    let o = Opts { ht: h, threads, queue, progress };
                    ctx.case(|| format!("tree {} {:?}", ti, o), |ctx| {
                        let root = ctx.fresh("t");
                        make(t, &root);
                        for how in [Err2::Works, Err2::Always(libc::EPIPE), Err2::Always(libc::EIO), Err2::Always(libc::EBADF), Err2::Always(libc::EAGAIN), Err2::Always(libc::ENOSPC)] {
                            for step in [0u64, 50_000_000, 150_000_000] {
                                if !progress && (step > 0 || !matches!(how, Err2::Works)) {
                                    continue;
                                }
                                CLOCK_STEP.store(step, Ordering::SeqCst);
                                let mut env = Stderr { how, writes: 0 };
                                take_stderr();
                                let s = scan_env(&[(&root, "/")], &o, &mut env, None);
                                CLOCK_STEP.store(0, Ordering::SeqCst);
                                let txt = take_stderr();
                                judge(ctx, &s, t, &o, "scan");
                                if !progress {
                                    check(env.writes == 0, || format!("stderr is written without progress: {}", show(&txt)));
                                }
                                ctx.max("max_stderr_writes", env.writes);
                                ctx.eval();
                                ctx.distinct(kit::hash::fnv(format!("{} {:?} {:?} {}", ti, o, how, step).as_bytes()));
                            }
                        }
                        ctx.sample(|| format!("{:?} of {:?}", o, t));
                        wipe(&root);
                    });
                }
            }
        }
        // automatic threads
        for &h in &ALL {
            for progress in [false, true] {
                ctx.case(|| format!("tree {} auto threads {:?} progress {}", ti, h, progress), |ctx| {
                    let root = ctx.fresh("t");
                    make(t, &root);
                    let mut c = ScannerConfig::new();
                    c.hash(ht(h)).auto_threads().add_dir(&root, "/");
                    if progress {
                        c.print_progress();
                    }
                    let mut out = Vec::new();
                    let r = with_env(&mut NoEnv, || cut(|| v1::scan(&c, &mut out)));
                    match r {
                        Ok(Ok(())) => {}
                        other => violation(&format!("scan with automatic threads: {:?}", other.map(|r| r.map_err(|e| e.to_string())))),
                    }
                    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
                    // either writer may be in use: the known finding differs
                    let o = Opts { ht: h, threads: n, queue: None, progress };
                    judge_bytes(ctx, &out, t, &o, "automatic threads");
                    ctx.eval();
                    wipe(&root);
                });
            }
        }
        // each stderr write failing on its own
        for threads in [0usize, 2] {
            let o = Opts { ht: Ht::Sha, threads, queue: None, progress: true };
            ctx.case(|| format!("tree {} stderr faults {:?}", ti, o), |ctx| {
                let root = ctx.fresh("t");
                make(t, &root);
                ctx.explore(Bounds::new(ctx.pick(1, if ti == 4 { 1 } else { 2 })), |ctx| {
                    CLOCK_STEP.store(150_000_000, Ordering::SeqCst);
                    let mut env = Stderr { how: Err2::Choice, writes: 0 };
                    let s = scan_env(&[(&root, "/")], &o, &mut env, None);
                    CLOCK_STEP.store(0, Ordering::SeqCst);
                    take_stderr();
                    judge(ctx, &s, t, &o, "scan with failing stderr");
                    ctx.eval();
                    ctx.distinct(c02::run_id(t, &o));
                });
                wipe(&root);
            });
        }
    }
    // progress on while threads are scheduled
    for (ti, t) in ts.iter().enumerate().take(4) {
        for q in [None, Some(1)] {
            let o = Opts { ht: Ht::Sha, threads: 2, queue: q, progress: true };
            ctx.case(|| format!("tree {} scheduled {:?}", ti, o), |ctx| {
                let root = ctx.fresh("t");
                make(t, &root);
                ctx.explore(Bounds::new(ctx.pick(1, 2)), |ctx| {
                    CLOCK_STEP.store(150_000_000, Ordering::SeqCst);
                    let s = scan_env(&[(&root, "/")], &o, &mut NoEnv, Some(sched::Config::default()));
                    CLOCK_STEP.store(0, Ordering::SeqCst);
                    take_stderr();
                    judge(ctx, &s, t, &o, "threaded scan with progress");
                    ctx.eval();
                    ctx.distinct(c02::run_id(t, &o));
                });
                wipe(&root);
            });
        }
    }
    // one configuration, changed between scans: the last call of each kind counts
    let setters: [fn(&mut ScannerConfig, &mut Opts); 11] = [
        |c, o| { c.threads(0); o.threads = 0 },
        |c, o| { c.threads(1); o.threads = 1 },
        |c, o| { c.threads(3); o.threads = 3 },
        |c, o| { c.auto_threads(); o.threads = std::thread::available_parallelism().map_or(1, |n| n.get()) },
        |c, o| { c.queue_size(0); o.queue = Some(0) },
        |c, o| { c.queue_size(7); o.queue = Some(7) },
        |c, o| { c.hash(ht(Ht::Sha)); o.ht = Ht::Sha },
        |c, o| { c.hash(ht(Ht::B2)); o.ht = Ht::B2 },
        |c, o| { c.hash(ht(Ht::B3)); o.ht = Ht::B3 },
        |c, o| { c.print_progress(); o.progress = true },
        |c, o| { *c = ScannerConfig::new(); *o = Opts::new(Ht::Sha) },
    ];
    let depth = ctx.pick(3u32, 4);
    for first in 0..setters.len() {
        ctx.case(|| format!("sequences of {} settings, setting {} first", depth, first), |ctx| {
            let root = ctx.fresh("t");
            let t = Node::dir().with(b"a", Node::file(b"1")).with(b"d", Node::dir().with(b"l", Node::link(b"t")).with(b"b", Node::file(&content(BS + 1, 2))));
            make(&t, &root);
            for rest in 0..setters.len().pow(depth - 1) {
                for dir_at in 0..=depth {
                    let (mut c, mut o) = (ScannerConfig::new(), Opts::new(Ht::Sha));
                    let (mut r, mut seq, mut has_dir) = (rest, vec![], false);
                    for i in 0..=depth {
                        if i == dir_at {
                            c.add_dir(&root, "/");
                            has_dir = true;
                        } else {
                            let k = if seq.is_empty() { first } else { r % setters.len() };
                            if !seq.is_empty() {
                                r /= setters.len();
                            }
                            seq.push(k);
                            setters[k](&mut c, &mut o);
                            has_dir &= k != 10;
                        }
                        // scanning at every step only once
                        if dir_at > 0 && i < depth {
                            continue;
                        }
                        let mut out = Vec::new();
                        let r = with_env(&mut NoEnv, || cut(|| v1::scan(&c, &mut out)));
                        take_stderr();
                        match r {
                            Ok(Ok(())) if has_dir => judge_bytes(ctx, &out, &t, &o, &format!("settings {:?}, directory added at {}", seq, dir_at)),
                            Ok(Err(_)) if !has_dir => {}
                            r => violation(&format!("settings {:?}, directory added at {}: {:?}", seq, dir_at, r.map(|r| r.map_err(|e| e.to_string())))),
                        }
                        ctx.eval();
                    }
                }
            }
            ctx.distinct(first as u64 ^ 1 << 50);
            wipe(&root);
        });
    }
    // closed stderr, in a child process is covered by EBADF above
    // without thread support
    ctx.case(|| "library without thread support".into(), |ctx| {
        let exe = verif_dir().join("target/nothreads/debug/nothreads");
        if !exe.exists() {
            kit::ctx::broken("nothreads is not built");
        }
        let mut input = String::new();
        let mut want: Vec<(usize, Opts, std::path::PathBuf)> = Vec::new();
        for (ti, t) in ts.iter().enumerate() {
            let root = ctx.fresh(&format!("t{}", ti));
            make(t, &root);
            for &h in &ALL {
                for threads in ["0", "1", "2", "8", "auto"] {
                    for q in ["-", "0", "1", "18446744073709551615"] {
                        for progress in [0, 1] {
                            let f = ctx.scratch.join(format!("out-{}", want.len()));
                            input.push_str(&format!("{} {} {} {} {} {}\n", h.name(), threads, q, progress, root.display(), f.display()));
                            want.push((ti, Opts::new(h), f));
                        }
                    }
                }
            }
        }
        let mut child = Command::new(&exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        let mut pipe = child.stdin.take().unwrap();
        let feeder = std::thread::spawn(move || {
            let _ = pipe.write_all(input.as_bytes());
        });
        let out = child.wait_with_output().unwrap();
        feeder.join().unwrap();
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let lines: Vec<&str> = text.lines().collect();
        for (i, (ti, o, f)) in want.iter().enumerate() {
            if lines.get(i) != Some(&"ok") {
                violation(&format!("library without threads, run {}: {:?}", i, lines.get(i)));
            }
            let got = std::fs::read(f).unwrap();
            judge_bytes(ctx, &got, &ts[*ti], o, "library without thread support");
            wipe(f);
            ctx.eval();
            ctx.distinct(kit::hash::fnv(format!("nothreads {}", i).as_bytes()));
        }
        for ti in 0..ts.len() {
            ctx.fresh(&format!("t{}", ti));
        }
    });
    let _ = interpose::CALLS.load(Ordering::Relaxed);
}
