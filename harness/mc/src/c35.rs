//! C35: scans use the threads they are told to use.
use crate::c03::{many, sequence};
use crate::c22::Faults;
use crate::common::*;
use crate::universe::small_leaves;
use futures_cpupool::workers;
use kit::ctx::{broken, cut, deadlock, verif_dir, violation, Ctx};
use kit::hash::{fnv, Ht, ALL};
use kit::interpose::{take_stderr, with_env, Act, Call, Env, NoEnv, Op};
use kit::mc::explore::Bounds;
use kit::mc::sched;
use kit::model::*;
use std::collections::BTreeSet;
use std::io::{self, Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// Takes that many bytes.
struct Room(usize);
impl Write for Room {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.0);
        self.0 -= n;
        if n == 0 && !b.is_empty() {
            return Err(io::ErrorKind::StorageFull.into());
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Sees which tasks are reading a file at the same time.
struct Overlap {
    now: BTreeSet<usize>,
    most: usize,
}
impl Env for Overlap {
    fn call(&mut self, c: &Call) -> Act {
        if let Some(k) = sched::me().filter(|&k| k > 0) {
            match c.op {
                Op::Read => {
                    self.now.insert(k);
                    self.most = self.most.max(self.now.len());
                }
                Op::Close => {
                    self.now.remove(&k);
                }
                _ => {}
            }
        }
        Act::Pass
    }
}

/// One scan; the threads it had and left.
fn count(ctx: &mut Ctx, dirs: &[(&Path, &str)], o: &Opts, env: &mut dyn Env, sc: Option<sched::Config>, room: usize, what: &str) -> (bool, sched::Report) {
    let c = config(dirs, o);
    let mut out = Room(room);
    workers::reset();
    let before = workers::now();
    let mut rep = sched::Report::default();
    let r = with_env(env, || match sc {
        Some(sc) => {
            let (r, p) = sched::run(sc, deadlock, || cut(|| dir_signature::v1::scan(&c, &mut out)));
            rep = p;
            r
        }
        None => cut(|| dir_signature::v1::scan(&c, &mut out)),
    });
    take_stderr();
    let (max, after) = (workers::max() - before, workers::now() - before);
    ctx.eval();
    let ok = match r {
        Ok(r) => r.is_ok(),
        Err(e) => violation(&format!("{}: the scan panics: {}", what, e)),
    };
    ctx.add(if ok { "scans_that_succeeded" } else { "scans_that_failed" }, 1);
    if max > o.threads {
        violation(&format!("{}: {} hashing threads instead of {}", what, max, o.threads));
    }
    if after != 0 {
        violation(&format!("{}: {} threads are left after the scan ({})", what, after, if ok { "succeeded" } else { "failed" }));
    }
    if rep.max_running > o.threads as u64 {
        violation(&format!("{}: {} files are hashed at the same time by {} threads", what, rep.max_running, o.threads));
    }
    ctx.outcome((max as u64) << 1 | ok as u64);
    (ok, rep)
}

fn library(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let trees: Vec<(&str, Node)> = vec![
        ("nothing", Node::dir()),
        ("one file", Node::dir().with(b"a", Node::file(b"1"))),
        ("no files", sequence(b"lldldl")),
        ("all kinds", sequence(b"flfdflfdxf")),
        ("many files", many(150)),
        ("blocks", Node::dir().with(b"a", Node::file(&content(3 * BS + 1, 1))).with(b"b", Node::exe(&content(BS, 2)))),
    ];
    for (name, t) in &trees {
        for threads in [0usize, 1, 2, 3, 4, 7, 8, 16, 33, 100] {
            for h in ALL {
                if h != Ht::Sha && threads > 3 {
                    continue;
                }
                ctx.case(|| format!("{} with {} threads, {:?}", name, threads, h), |ctx| {
                    let root = ctx.fresh("t");
                    make(t, &root);
                    let missing = root.with_file_name("missing");
                    for queue in [None, Some(0usize), Some(1), Some(5), Some(1000)] {
                        for progress in [false, true] {
                            let o = Opts { ht: h, threads, queue, progress };
                            let what = |w: &str| format!("scan of {} with {:?}{}", name, o, w);
                            if !count(ctx, &[(&root, "/")], &o, &mut NoEnv, None, usize::MAX, &what("")).0 {
                                violation(&what(" fails"));
                            }
                            for dirs in [vec![(missing.as_path(), "/")], vec![], vec![(root.as_path(), "/"), (missing.as_path(), "/")], vec![(root.as_path(), "/x")]] {
                                let dirs: Vec<(&Path, &str)> = dirs.iter().map(|d| (d.0, d.1)).collect();
                                count(ctx, &dirs, &o, &mut NoEnv, None, usize::MAX, &what(&format!(" of {} directories", dirs.len())));
                            }
                        }
                    }
                    ctx.distinct(fnv(format!("{} {} {:?}", name, threads, h).as_bytes()));
                    wipe(&root);
                });
            }
        }
        // failing destinations and calls
        for threads in [0usize, 1, 2, 3] {
            ctx.case(|| format!("{} with {} threads: failures", name, threads), |ctx| {
                let root = ctx.fresh("t");
                make(t, &root);
                let len = index(t, Ht::Sha).len();
                for queue in [None, Some(1)] {
                    let mut o = Opts::new(Ht::Sha).threads(threads);
                    o.queue = queue;
                    let step = if len > 2000 && !th { 37 } else { 1 };
                    for room in (0..len).step_by(step) {
                        let (ok, _) = count(ctx, &[(&root, "/")], &o, &mut NoEnv, None, room, &format!("scan of {} with {:?} with room for {} bytes", name, o, room));
                        if ok {
                            violation(&format!("scan of {} with {:?} succeeds with room for {} bytes", name, o, room));
                        }
                    }
                    ctx.explore(Bounds::new(if len > 2000 { 1 } else { ctx.pick(1, 2) }), |ctx| {
                        let mut env = Faults::new(&root);
                        count(ctx, &[(&root, "/")], &o, &mut env, None, usize::MAX, &format!("scan of {} with {:?} and a failing call", name, o));
                    });
                }
                wipe(&root);
            });
        }
    }
    // as many at the same time as there are threads
    let coarse = sched::Config { task_syscalls: false, free_start: false, block_cost: 1, ..sched::Config::default() };
    for threads in ctx.pick(vec![1usize, 2, 3, 5], vec![1, 2, 3, 4, 5, 8, 16]) {
        for queue in [None, Some(0usize), Some(1), Some(threads - 1), Some(threads), Some(3 * threads)] {
            for files in [1, threads - 1, threads, threads + 1, 4 * threads, 40 * threads] {
                ctx.case(|| format!("{} files with {} threads and queue {:?}", files, threads, queue), |ctx| {
                    let root = ctx.fresh("t");
                    let t = sequence(&vec![b'f'; files]);
                    make(&t, &root);
                    let mut o = Opts::new(Ht::Sha).threads(threads);
                    o.queue = queue;
                    let mut most = 0;
                    for stall in [0usize, usize::MAX] {
                        ctx.explore(Bounds::new(if files > 2 * threads { 0 } else { 1 }), |ctx| {
                            let (_, rep) = count(ctx, &[(&root, "/")], &o, &mut NoEnv, Some(sched::Config { stall, ..coarse }), usize::MAX, &format!("scan of {} files with {:?}", files, o));
                            most = most.max(rep.max_running as usize);
                        });
                    }
                    // a file waits for the oldest one if the queue is full
                    let could = threads.min(files).min(queue.map_or(usize::MAX, |q| q + 1));
                    if most < could {
                        violation(&format!("with {:?} at most {} of {} files are hashed at the same time, but {} could be", o, most, files, could));
                    }
                    let mut reading = 0;
                    ctx.explore(Bounds::new(0), |ctx| {
                        let mut env = Overlap { now: BTreeSet::new(), most: 0 };
                        let sc = sched::Config { stall: usize::MAX, task_syscalls: true, turns: true, ..coarse };
                        count(ctx, &[(&root, "/")], &o, &mut env, Some(sc), usize::MAX, &format!("scan of {} files with {:?}", files, o));
                        reading = reading.max(env.most);
                    });
                    if reading < could {
                        violation(&format!("with {:?} at most {} of {} files are read at the same time, but {} could be", o, reading, files, could));
                    }
                    ctx.max("max_read_at_once", reading as u64);
                    ctx.max("max_hashed_at_once", most as u64);
                    ctx.distinct(fnv(format!("{} {} {:?}", files, threads, queue).as_bytes()));
                    wipe(&root);
                });
            }
        }
    }
    // schedules with failures: nothing is left, whoever comes last
    for n in 1..=ctx.pick(2, 3) {
        for f in forests(n, &[b"a", b"b"], &small_leaves()) {
            let t = Node::Dir(f);
            ctx.case(|| format!("schedules of {:?}", t), |ctx| {
                let root = ctx.fresh("t");
                make(&t, &root);
                let len = index(&t, Ht::Sha).len();
                for threads in [1usize, 2] {
                    let o = Opts::new(Ht::Sha).threads(threads).queue(1);
                    for room in [usize::MAX, len - 1, len - 66, 50] {
                        ctx.explore(Bounds::new(1), |ctx| {
                            count(ctx, &[(&root, "/")], &o, &mut NoEnv, Some(sched::Config::default()), room, &format!("scan of {:?} with {:?} and room for {} bytes", t, o, room));
                        });
                    }
                    ctx.explore(Bounds::new(1), |ctx| {
                        let mut env = Faults::new(&root);
                        count(ctx, &[(&root, "/")], &o, &mut env, Some(coarse), usize::MAX, &format!("scan of {:?} with {:?} and a failing call", t, o));
                    });
                }
                ctx.distinct(tree_id(&t));
                wipe(&root);
            });
        }
    }
}

/// Runs the command until it waits for its output to be read; returns the
/// number of its threads.
fn held_up(ctx: &mut Ctx, root: &Path, args: &[&str], cpus: Option<usize>, t: &Node, h: Ht) -> usize {
    let exe = verif_dir().join("target/cli/debug/index");
    if !exe.exists() {
        broken("the command is not built");
    }
    let mut p = [0i32; 2];
    assert_eq!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
    let (rd, wr) = unsafe { (OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1])) };
    if unsafe { libc::fcntl(wr.as_raw_fd(), libc::F_SETPIPE_SZ, 4096) } < 0 {
        broken("the size of a pipe cannot be set");
    }
    let mut c = Command::new(exe);
    c.env_clear().args(args).arg(root).stdin(Stdio::null()).stderr(Stdio::null()).stdout(wr);
    if let Some(n) = cpus {
        unsafe {
            c.pre_exec(move || {
                let mut have: libc::cpu_set_t = std::mem::zeroed();
                libc::sched_getaffinity(0, std::mem::size_of_val(&have), &mut have);
                let mut want: libc::cpu_set_t = std::mem::zeroed();
                let mut k = 0;
                for i in 0..libc::CPU_SETSIZE as usize {
                    if k < n && libc::CPU_ISSET(i, &have) {
                        libc::CPU_SET(i, &mut want);
                        k += 1;
                    }
                }
                libc::sched_setaffinity(0, std::mem::size_of_val(&want), &want);
                Ok(())
            });
        }
    }
    let mut child = c.spawn().unwrap_or_else(|e| broken(&format!("cannot start the command: {}", e)));
    drop(c);
    let waiting = || {
        let mut n = 0i32;
        unsafe { libc::ioctl(rd.as_raw_fd(), libc::FIONREAD, &mut n) };
        n
    };
    let tasks = format!("/proc/{}/task", child.id());
    let (t0, mut last, mut same, mut most) = (Instant::now(), -1, 0, 0);
    while same < 5 {
        if t0.elapsed() > Duration::from_secs(120) {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
        let n = waiting();
        // a full pipe may have some bytes left
        same = if n == last && n > 2048 { same + 1 } else { 0 };
        last = n;
        most = most.max(std::fs::read_dir(&tasks).map_or(0, |d| d.count()));
        if n < 2048 && matches!(child.try_wait(), Ok(Some(_))) {
            break;
        }
        ctx.beat();
    }
    let mut out = Vec::new();
    let mut rd = std::fs::File::from(rd);
    rd.read_to_end(&mut out).unwrap();
    let st = child.wait().unwrap();
    if !st.success() {
        violation(&format!("index {:?}: {}", args, st));
    }
    if same < 5 {
        broken("the command did not wait for its output to be read");
    }
    judge_bytes(ctx, &out, t, &Opts::new(h).threads(if args.contains(&"0") { 0 } else { 2 }), &format!("index {:?}", args));
    ctx.eval();
    most
}

fn command(ctx: &mut Ctx) {
    let mut t = many(300);
    if let Node::Dir(ref mut d) = t {
        // index longer than the pipe whatever is listed first
        for i in 0..60 {
            d.insert(format!("a{:02}{}", i, "x".repeat(100)).into_bytes(), Node::file(b"y"));
        }
    }
    let numbers = ctx.pick(vec!["0", "1", "2", "3", "8", "20"], vec!["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "16", "20", "33", "64", "100"]);
    for (h, ha) in [(Ht::Sha, &[][..]), (Ht::B2, &["--hash", "blake2b/256"][..])] {
        for q in [&["-q"][..], &[][..]] {
            for n in &numbers {
                for opt in ["-t", "--threads"] {
                    ctx.case(|| format!("index {} {} {:?} {:?}", opt, n, q, ha), |ctx| {
                        let root = ctx.fresh("t");
                        make(&t, &root);
                        let args: Vec<&str> = [opt, n].iter().chain(q).chain(ha).cloned().collect();
                        let got = held_up(ctx, &root, &args, None, &t, h);
                        let want = 1 + n.parse::<usize>().unwrap();
                        if got != want {
                            violation(&format!("index {:?} runs {} threads instead of {}", args, got, want));
                        }
                        ctx.distinct(fnv(format!("{:?}", args).as_bytes()));
                        wipe(&root);
                    });
                }
            }
            for cpus in [Some(1usize), Some(2), None] {
                ctx.case(|| format!("index {:?} {:?} on {:?} processors", q, ha, cpus), |ctx| {
                    let root = ctx.fresh("t");
                    make(&t, &root);
                    let args: Vec<&str> = q.iter().chain(ha).cloned().collect();
                    let got = held_up(ctx, &root, &args, cpus, &t, h);
                    let have = cpus.unwrap_or(usize::MAX).min(unsafe { libc::sysconf(libc::_SC_NPROCESSORS_CONF) } as usize);
                    if got > 1 + have {
                        violation(&format!("index {:?} runs {} threads on {} processors", args, got, have));
                    }
                    ctx.distinct(fnv(format!("{:?} {:?}", args, cpus).as_bytes()));
                    wipe(&root);
                });
            }
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation is one scan or one run of the index command; during it there are at most as many threads besides the scanning one as were asked for, after it, however it ends, there are none; with n threads, as many files as the queue allows, up to n, are hashed at the same time in some schedule; index -t N runs exactly N threads besides the scanning one, and without -t at most as many as there are processors");
    ctx.text("bounds", "6 trees x threads {0,1,2,3,4,7,8,16,33,100} x queue {unset,0,1,5,1000} x progress x hash types; succeeding, without root, with missing roots, the destination full at every byte (long index: every 37th, thorough: all), each (thorough: pair of) failing calls; 1 to 200 (640) files with 1 to 5 (16) threads and 6 queue sizes, tasks unfinished as long as possible and schedules with a deviation; all trees of 1 and 2 (3) nodes in all schedules with one pre-emption, with full destinations and failing calls; the command with 6 (15) numbers of threads, and with 1, 2 and all processors");
    ctx.text("assumptions", "hashing threads of the library are those of its pools (of the crate futures-cpupool, whose size is what the pool is made with); the command runs with the real crate and its threads are counted by the kernel while its output is held up");
    library(ctx);
    command(ctx);
}
