//! C28: the command; C29: the shell script.
use crate::c03::many;
use crate::common::*;
use crate::universe::small_leaves;
use kit::ctx::{broken, verif_dir, violation, Ctx};
use kit::hash::{fnv, Ht};
use kit::json::{brief, show};
use kit::model::*;
use std::ffi::OsString;
use std::fs;
use std::io::Read;
use std::os::fd::{FromRawFd, IntoRawFd, OwnedFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Dest {
    /// stdout is a pipe that is read
    Pipe,
    /// stdout is a file
    Stdout,
    /// -o FILE
    File,
    /// -o FILE, which exists and is longer
    Over,
    StdoutFull,
    FileFull,
    /// nobody reads the pipe any more
    Broken,
}

#[derive(Clone, Debug)]
struct Run {
    dest: Dest,
    args: Vec<&'static str>,
    fsize: Option<u64>,
    nofile: Option<u64>,
    err: Stderr,
}

/// Where messages go.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Stderr {
    Piped,
    Full,
    Broken,
}

fn dead_pipe() -> OwnedFd {
    let mut p = [0i32; 2];
    assert_eq!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
    unsafe { libc::close(p[0]) };
    unsafe { OwnedFd::from_raw_fd(p[1]) }
}

struct Done {
    code: Option<i32>,
    signal: Option<i32>,
    stdout: Vec<u8>,
    /// what the destination holds
    got: Vec<u8>,
    stderr: Vec<u8>,
}

fn exec(ctx: &mut Ctx, dirs: &[&Path], r: &Run) -> Done {
    let exe = verif_dir().join("target/cli/debug/index");
    if !exe.exists() {
        broken("the command is not built");
    }
    let dest = ctx.scratch.join("dest");
    wipe(&dest);
    let so = ctx.scratch.join("stdout");
    wipe(&so);
    let mut c = Command::new(exe);
    c.env_clear().stdin(Stdio::null());
    match r.err {
        Stderr::Piped => c.stderr(Stdio::piped()),
        Stderr::Full => c.stderr(fs::OpenOptions::new().write(true).open("/dev/full").unwrap()),
        Stderr::Broken => c.stderr(dead_pipe()),
    };
    let mut args: Vec<OsString> = r.args.iter().map(|a| a.into()).collect();
    match r.dest {
        Dest::File | Dest::Over => {
            if r.dest == Dest::Over {
                fs::write(&dest, vec![b'#'; 200_000]).unwrap();
            }
            args.push("-o".into());
            args.push(dest.clone().into());
        }
        Dest::FileFull => {
            args.push("-o".into());
            args.push("/dev/full".into());
        }
        _ => {}
    }
    args.extend(dirs.iter().map(|d| OsString::from(d)));
    c.args(&args);
    match r.dest {
        Dest::Stdout => {
            c.stdout(fs::File::create(&dest).unwrap());
        }
        Dest::StdoutFull => {
            c.stdout(fs::OpenOptions::new().write(true).open("/dev/full").unwrap());
        }
        Dest::Broken => {
            c.stdout(dead_pipe());
        }
        Dest::Pipe => {
            c.stdout(Stdio::piped());
        }
        // must stay empty
        _ => {
            c.stdout(fs::File::create(&so).unwrap());
        }
    }
    let (fsize, nofile) = (r.fsize, r.nofile);
    unsafe {
        c.pre_exec(move || {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            for (what, n) in [(libc::RLIMIT_FSIZE, fsize), (libc::RLIMIT_NOFILE, nofile)] {
                if let Some(n) = n {
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    if libc::setrlimit(what, &l) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
            }
            Ok(())
        });
    }
    let mut child = match c.spawn() {
        Ok(c) => c,
        // not enough descriptors to start at all
        Err(e) if nofile.is_some() => return Done { code: Some(127), signal: None, stdout: vec![], got: vec![], stderr: e.to_string().into_bytes() },
        Err(e) => broken(&format!("cannot start the command: {}", e)),
    };
    let pipe = child.stdout.take().map(|s| OwnedFd::from(s).into_raw_fd());
    let reader = std::thread::spawn(move || {
        let mut v = Vec::new();
        if let Some(fd) = pipe {
            let _ = unsafe { fs::File::from_raw_fd(fd) }.read_to_end(&mut v);
        }
        v
    });
    let err = child.stderr.take();
    let errs = std::thread::spawn(move || {
        let mut v = Vec::new();
        if let Some(mut err) = err {
            let _ = err.read_to_end(&mut v);
        }
        v
    });
    let t0 = Instant::now();
    let st = loop {
        match child.try_wait().unwrap() {
            Some(st) => break st,
            None if t0.elapsed() > Duration::from_secs(120) => {
                let _ = child.kill();
                let _ = child.wait();
                violation(&format!("the command does not end within 120 s: {:?} {:?}", r, dirs));
            }
            None => std::thread::sleep(Duration::from_micros(if t0.elapsed().as_millis() < 20 { 100 } else { 3000 })),
        }
    };
    let piped = reader.join().unwrap();
    let stderr = errs.join().unwrap();
    ctx.beat();
    let got = match r.dest {
        Dest::Pipe => piped.clone(),
        Dest::Stdout | Dest::File | Dest::Over => fs::read(&dest).unwrap_or_default(),
        _ => vec![],
    };
    let stdout = match r.dest {
        Dest::Pipe => vec![],
        Dest::Stdout => vec![],
        _ => fs::read(&so).unwrap_or_default(),
    };
    Done { code: st.code(), signal: st.signal(), stdout, got, stderr }
}

/// Judge one run. `want`: the index, or None if the run cannot succeed.
fn judge_run(ctx: &mut Ctx, t: &Node, o: &Opts, r: &Run, d: &Done, possible: bool) {
    let fail = |m: String| -> ! { violation(&format!("index {:?} on {:?}: {} (exit {:?}, signal {:?}, stderr {})", r, t, m, d.code, d.signal, brief(&d.stderr))) };
    if !d.stdout.is_empty() {
        fail(format!("standard output carries {}", brief(&d.stdout)));
    }
    if d.code == Some(0) {
        if !possible {
            fail(format!("exit 0, but the destination holds {} bytes", d.got.len()));
        }
        judge_bytes(ctx, &d.got, t, o, &format!("exit 0 of index {:?}", r));
        ctx.add("runs_that_exited_0", 1);
    } else {
        if possible && r.nofile.is_none() {
            fail("the command fails".into());
        }
        if d.stderr.is_empty() && r.err == Stderr::Piped {
            fail("no message".into());
        }
        if r.dest == Dest::Pipe || r.dest == Dest::Stdout {
            let mut w = vec![index(t, o.ht)];
            if o.ht == Ht::B3 {
                w.push(index_h(t, o.ht, Hashing::PerScan));
                w.push(index_h(t, o.ht, Hashing::PerFile));
            }
            if !w.iter().any(|w| w.starts_with(&d.got)) {
                fail(format!("standard output carries something other than the index: {}", brief(&d.got)));
            }
        }
        ctx.add("runs_that_failed", 1);
    }
    ctx.eval();
    ctx.outcome(fnv(format!("{:?} {}", d.code, show(&d.stderr[..d.stderr.len().min(12)])).as_bytes()));
}

fn opts(h: Ht, args: &[&'static str]) -> Opts {
    // how a known BLAKE3 finding shows depends on it
    let mut o = Opts::new(h);
    if !args.contains(&"0") {
        o = o.threads(2);
    }
    o
}

fn cli_trees() -> Vec<(&'static str, Node)> {
    let f = |s: &str| Node::file(s.as_bytes());
    vec![
        ("empty", Node::dir()),
        ("kinds", Node::dir().with(b"a", f("1")).with(b"d e", Node::dir().with(b"x", Node::exe(b"2")).with(b"l", Node::link(b"q")).with(b"p", Node::Fifo)).with(b"z", Node::dir())),
        ("blocks", Node::dir().with(b"big", Node::file(&content(2 * BS + 1, 1))).with(b"zero", f(""))),
        ("many", many(130)),
    ]
}

pub fn run28(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation is one run of the index command; exit 0 requires that the destination holds exactly the reference index and that standard output holds nothing else, any other exit requires a message on standard error, and that standard output holds at most a prefix of the index");
    ctx.text("bounds", "hand-made trees (index below and above the size of the output buffer) and all trees of up to 2 nodes x hash names x threads {0,1,3, default} x {-q, --progress, none} x {stdout to pipe, to file, -o, -o onto a longer file}; the destination limited to every number of bytes (big index: every 11th, thorough: every) for stdout and -o; /dev/full; closed pipe; standard error full or closed; every limit of descriptors from 3 to 40; missing directories, files as directories, bad options, unwritable destinations, several directories");
    ctx.text("assumptions", "the limit on file size (RLIMIT_FSIZE) stands for every way in which a destination stops accepting data | hashing threads of the command run as the system schedules them; their interleavings are explored by C03");
    let th = ctx.thorough();
    let hashes: Vec<(Ht, Vec<&'static str>)> = vec![(Ht::Sha, vec![]), (Ht::Sha, vec!["--hash", "sha512/256"]), (Ht::B2, vec!["--hash", "blake2b/256"]), (Ht::B3, vec!["--hash=blake3/256"])];
    let threads: Vec<Vec<&'static str>> = vec![vec!["-t", "0"], vec![], vec!["-t", "1"], vec!["--threads", "3"]];
    let progress: Vec<Vec<&'static str>> = vec![vec![], vec!["-q"], vec!["--progress"], vec!["--no-progress"]];
    // combinations of options
    for (name, t) in cli_trees() {
        for (h, ha) in &hashes {
            ctx.case(|| format!("options: {} {:?}", name, ha), |ctx| {
                let root = ctx.fresh("t");
                make(&t, &root);
                for ta in &threads {
                    for pa in &progress {
                        for dest in [Dest::Pipe, Dest::Stdout, Dest::File, Dest::Over] {
                            let args: Vec<&'static str> = pa.iter().chain(ta).chain(ha).cloned().collect();
                            let r = Run { dest, args, fsize: None, nofile: None, err: Stderr::Piped };
                            let d = exec(ctx, &[&root], &r);
                            judge_run(ctx, &t, &opts(*h, ta), &r, &d, true);
                            for err in [Stderr::Full, Stderr::Broken] {
                                let r = Run { err, ..r.clone() };
                                let d = exec(ctx, &[&root], &r);
                                judge_run(ctx, &t, &opts(*h, ta), &r, &d, true);
                            }
                            ctx.distinct(fnv(format!("{} {:?}", name, r).as_bytes()));
                            ctx.sample(|| format!("{} {:?}: exit {:?}", name, r, d.code));
                        }
                    }
                }
                wipe(&root);
            });
        }
    }
    ctx.chunk(8);
    for n in 0..=ctx.pick(2, 3) {
        for f in forests(n, &[b"a", b"a b"], &small_leaves()) {
            let t = Node::Dir(f);
            ctx.case(|| format!("{:?}", t), |ctx| {
                let root = ctx.fresh("t");
                make(&t, &root);
                for dest in [Dest::Pipe, Dest::File] {
                    for ta in [&["-t", "0"][..], &["-t", "2"][..]] {
                        let r = Run { dest, args: ta.to_vec(), fsize: None, nofile: None, err: Stderr::Piped };
                        let d = exec(ctx, &[&root], &r);
                        judge_run(ctx, &t, &opts(Ht::Sha, ta), &r, &d, true);
                    }
                }
                ctx.distinct(tree_id(&t));
                wipe(&root);
            });
        }
    }
    ctx.chunk(1);
    // the destination takes only so many bytes
    for (name, t) in cli_trees() {
        let len = index(&t, Ht::Sha).len() as u64;
        let step = if len > 3000 { ctx.pick(11, 1) } else { 1 };
        for dest in [Dest::Stdout, Dest::File] {
            for ta in [&["-t", "0", "-q"][..], &["-t", "2"][..], &["-t", "0"][..]] {
                if !th && len > 3000 && ta.len() == 2 && ta[1] == "0" {
                    continue;
                }
                let shards = if len > 3000 { 8 } else { 2 };
                for sh in 0..shards {
                    ctx.case(|| format!("limited {:?}: {} {:?}, shard {}", dest, name, ta, sh), |ctx| {
                        let root = ctx.fresh("t");
                        make(&t, &root);
                        let mut limits: Vec<u64> = (0..len).filter(|k| k % step == 0 || len - k < 150 || *k < 100 || k % 8192 < 3 || k % 1024 < 2).collect();
                        limits.extend([len, len + 1]);
                        for k in limits.into_iter().filter(|k| k % shards == sh) {
                            let r = Run { dest, args: ta.to_vec(), fsize: Some(k), nofile: None, err: Stderr::Piped };
                            let d = exec(ctx, &[&root], &r);
                            judge_run(ctx, &t, &opts(Ht::Sha, ta), &r, &d, k >= len);
                            ctx.distinct(fnv(format!("{} {:?}", name, r).as_bytes()));
                        }
                        wipe(&root);
                    });
                }
            }
        }
        ctx.case(|| format!("full and closed destinations: {}", name), |ctx| {
            let root = ctx.fresh("t");
            make(&t, &root);
            for dest in [Dest::StdoutFull, Dest::FileFull, Dest::Broken] {
                for (_, ha) in &hashes {
                    for ta in &threads {
                        for pa in &progress {
                            let args: Vec<&'static str> = pa.iter().chain(ta).chain(ha).cloned().collect();
                            let r = Run { dest, args, fsize: None, nofile: None, err: Stderr::Piped };
                            let d = exec(ctx, &[&root], &r);
                            judge_run(ctx, &t, &Opts::new(Ht::Sha), &r, &d, false);
                        }
                    }
                }
            }
            wipe(&root);
        });
        // the number of descriptors is limited
        ctx.case(|| format!("limited descriptors: {}", name), |ctx| {
            let root = ctx.fresh("t");
            make(&t, &root);
            for n in 3..40 {
                for dest in [Dest::Pipe, Dest::File] {
                    for ta in [&["-t", "0"][..], &["-t", "2"][..]] {
                        let r = Run { dest, args: ta.to_vec(), fsize: None, nofile: Some(n), err: Stderr::Piped };
                        let d = exec(ctx, &[&root], &r);
                        judge_run(ctx, &t, &opts(Ht::Sha, ta), &r, &d, true);
                    }
                }
            }
            wipe(&root);
        });
    }
    // what cannot work
    ctx.case(|| "bad arguments".into(), |ctx| {
        let base = ctx.fresh("t");
        let t = Node::dir().with(b"f", Node::file(b"1")).with(b"d", Node::dir().with(b"g", Node::file(b"2"))).with(b"dl", Node::link(b"nowhere"));
        make(&t, &base);
        let dirs: Vec<std::path::PathBuf> = vec![base.join("missing"), base.join("f"), base.join("dl"), base.join("f/x"), "".into(), base.join("d:e")];
        for bad in &dirs {
            for dest in [Dest::Pipe, Dest::Stdout, Dest::File] {
                for ta in &threads {
                    let good = base.join("d");
                    for ds in [vec![bad.as_path()], vec![good.as_path(), bad.as_path()], vec![bad.as_path(), good.as_path()]] {
                        let r = Run { dest, args: ta.clone(), fsize: None, nofile: None, err: Stderr::Piped };
                        let d = exec(ctx, &ds, &r);
                        // prefix of the index of an empty tree: the header
                        judge_run(ctx, &Node::dir(), &Opts::new(Ht::Sha), &r, &d, false);
                    }
                }
            }
        }
        for args in [vec!["--hash", "md5"], vec!["--hash", ""], vec!["--hash", "sha512"], vec!["-t", "x"], vec!["-t", "-1"], vec!["--nonsense"], vec!["-o"], vec!["-o", "/nonexistent/dir/x"], vec!["-o", "/"], vec!["-o", ""]] {
            let r = Run { dest: Dest::Pipe, args: args.clone(), fsize: None, nofile: None, err: Stderr::Piped };
            // "-o" alone takes the directory as its value
            let ds: Vec<&Path> = if args == ["-o"] { vec![] } else { vec![&base] };
            let d = exec(ctx, &ds, &r);
            if d.code == Some(0) || d.stderr.is_empty() || !d.got.is_empty() {
                violation(&format!("index {:?}: exit {:?}, stderr {}, stdout {}", args, d.code, brief(&d.stderr), brief(&d.got)));
            }
            ctx.eval();
        }
        wipe(&base);
    });
    ctx.case(|| "several directories".into(), |ctx| {
        let base = ctx.fresh("t");
        std::fs::create_dir(&base).unwrap();
        let a = Node::dir().with(b"1", Node::file(b"1")).with(b"d", Node::dir().with(b"x", Node::file(b"x")));
        let b = Node::dir().with(b"2", Node::link(b"1")).with(b"d", Node::dir().with(b"y", Node::exe(b"y")));
        make(&a, &base.join("a"));
        make(&b, &base.join("b"));
        let u = crate::c27::union(&[&a, &b]).unwrap();
        for ds in [[base.join("a"), base.join("b")], [base.join("b"), base.join("a")]] {
            for dest in [Dest::Pipe, Dest::Stdout, Dest::File] {
                for ta in &threads {
                    let r = Run { dest, args: ta.clone(), fsize: None, nofile: None, err: Stderr::Piped };
                    let d = exec(ctx, &[&ds[0], &ds[1]], &r);
                    judge_run(ctx, &u, &opts(Ht::Sha, ta), &r, &d, true);
                }
            }
        }
        // and more of them
        for n in [3usize, 4, 5, 8, 33] {
            let trees: Vec<Node> = (0..n).map(|i| Node::dir().with(format!("f{:02}", (i * 5) % n).as_bytes(), Node::file(b"z")).with(b"d", Node::dir().with(format!("y{}", i).as_bytes(), Node::link(b"t")))).collect();
            let trees: Vec<Node> = if n % 5 == 0 { trees.into_iter().enumerate().map(|(i, _)| Node::dir().with(format!("f{:02}", i).as_bytes(), Node::file(b"z"))).collect() } else { trees };
            let mut dirs = vec![];
            for (i, t) in trees.iter().enumerate() {
                let p = base.join(format!("many{}-{}", n, (i * 3) % n.max(1)));
                let p = if p.exists() { base.join(format!("many{}-x{}", n, i)) } else { p };
                make(t, &p);
                dirs.push(p);
            }
            let refs: Vec<&Node> = trees.iter().collect();
            let u = crate::c27::union(&refs).unwrap();
            let refs: Vec<&Path> = dirs.iter().map(|d| d.as_path()).collect();
            for dest in [Dest::Pipe, Dest::Stdout, Dest::File] {
                for ta in &threads {
                    let r = Run { dest, args: ta.clone(), fsize: None, nofile: None, err: Stderr::Piped };
                    let d = exec(ctx, &refs, &r);
                    judge_run(ctx, &u, &opts(Ht::Sha, ta), &r, &d, true);
                }
            }
        }
        wipe(&base);
    });
}

// ---------------------------------------------------------------- C29

fn script(ctx: &mut Ctx, root: &Path, block_size: Option<usize>) -> Vec<u8> {
    let mut c = Command::new("bash");
    c.arg("/repo/hash.sh").arg(root).env_clear().env("PATH", "/usr/local/bin:/usr/bin:/bin").env("LC_ALL", "C").stdin(Stdio::null());
    if let Some(b) = block_size {
        c.env("BLOCK_SIZE", b.to_string());
    }
    let o = match c.output() {
        Ok(o) => o,
        Err(e) => broken(&format!("cannot run bash: {}", e)),
    };
    ctx.beat();
    if !o.status.success() {
        violation(&format!("hash.sh fails: {:?} {}", o.status, brief(&o.stderr)));
    }
    o.stdout
}

fn compare(ctx: &mut Ctx, t: &Node) {
    let root = ctx.fresh("t");
    make(t, &root);
    let sh = script(ctx, &root, None);
    for threads in [0usize, 2] {
        let o = Opts::new(Ht::Sha).threads(threads);
        let s = scan(&root, &o);
        if let Err((k, e)) = &s.res {
            violation(&format!("scan fails: {:?} {}", k, e));
        }
        if s.out != sh {
            violation(&format!("hash.sh and the library disagree about {:?}: library against script: {}", t, diff(&s.out, &sh)));
        }
        ctx.eval();
    }
    ctx.distinct(tree_id(t));
    ctx.outcome(fnv(&sh));
    ctx.sample(|| format!("{:?}: {} bytes", t, sh.len()));
    wipe(&root);
}

pub fn run29(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation compares the complete output of hash.sh with that of one scan of the same tree, byte for byte");
    ctx.text("bounds", "all trees of up to 3 nodes (thorough: 4) over names {a,a-b,b} and leaves {empty file, executable, link}; file sizes around block boundaries up to 3 (thorough: 9) blocks; hand-made trees with names of letters, digits and ._-+=, in nested and wide directories; threads {0,2}");
    ctx.text("assumptions", "bash, coreutils, find and shasum (an implementation of SHA-512/256 independent of the library's) | plain names: letters, digits and ._-+=,@ | executable for everyone or for nobody");
    for x in ["shasum", "find", "dd", "tee", "stat"] {
        if !["/usr/bin", "/bin", "/usr/local/bin"].iter().any(|d| Path::new(d).join(x).exists()) {
            broken(&format!("{} is missing", x));
        }
    }
    let th = ctx.thorough();
    ctx.chunk(8);
    let leaves = vec![Node::file(b""), Node::exe(b"xy"), Node::link(b"../a")];
    for n in 0..=ctx.pick(3, 4) {
        let names = small_names_for(n, th);
        for f in forests(n, &names, &leaves) {
            let t = Node::Dir(f);
            ctx.case(|| format!("{:?}", t), |ctx| compare(ctx, &t));
        }
    }
    ctx.chunk(1);
    let mut sizes = vec![0usize, 1, 511, 512, 4095, 8192, 8193, BS - 1, BS, BS + 1, 2 * BS - 1, 2 * BS, 2 * BS + 1, 3 * BS];
    if th {
        for k in 4..=9 {
            sizes.extend([k * BS - 1, k * BS, k * BS + 1]);
        }
    }
    for s in sizes {
        ctx.case(|| format!("size {}", s), |ctx| {
            for kind in [0u8, 1, 3] {
                let t = Node::dir().with(b"f", Node::file(&content(s, kind))).with(b"x", Node::exe(&content(s, kind)));
                compare(ctx, &t);
            }
        });
    }
    let f = |s: &str| Node::file(s.as_bytes());
    let hand = vec![
        Node::dir().with(b"a", Node::dir().with(b"z", f("1"))).with(b"a-b", Node::dir().with(b"z", f("2"))).with(b"a.b", Node::dir().with(b"z", f("3"))).with(b"a+", Node::dir()).with(b"aa", Node::dir().with(b"B", f("4")).with(b"_", f("5"))),
        Node::dir().with(b".hidden", f("1")).with(b".dir", Node::dir().with(b".f", f("2"))).with(b"..x", f("3")).with(b"...", Node::dir()),
        Node::dir().with(b"Z", f("1")).with(b"a", f("2")).with(b"B", f("3")).with(b"_", f("4")).with(b"0", f("5")).with(b"-", f("6")).with(b"-n", f("7")).with(b"=,@", f("8")),
        Node::dir().with(b"l1", Node::link(b"missing")).with(b"l2", Node::link(b"/")).with(b"l3", Node::link(b"d")).with(b"d", Node::dir().with(b"l", Node::link(b"..")).with(b"m", Node::link(b"../f"))).with(b"f", f("f")),
        Node::dir().with(b"p", Node::Fifo).with(b"s", Node::Sock).with(b"d", Node::dir().with(b"p", Node::Fifo)).with(b"z", f("z")),
        many(20),
        { let mut t = Node::dir().with(b"leaf", f("leaf")); for i in 0..12 { t = Node::dir().with(format!("d{}", i % 3).as_bytes(), t).with(b"f", f("x")); } t },
        Node::dir().with(b"x", Node::File { data: Rc::new(b"1".to_vec()), mode: 0o755 }).with(b"y", Node::File { data: Rc::new(b"2".to_vec()), mode: 0o600 }).with(b"w", Node::File { data: Rc::new(b"3".to_vec()), mode: 0o777 }).with(b"v", Node::File { data: Rc::new(b"3".to_vec()), mode: 0o100 | 0o400 }),
        Node::dir().with(b"two", Node::file(&content(BS + 5, 1))).with(b"d", Node::dir().with(b"one", Node::exe(&content(BS, 3))).with(b"e", f(""))),
    ];
    for t in &hand {
        ctx.case(|| format!("{:?}", t), |ctx| compare(ctx, t));
    }
}

fn small_names_for(n: usize, th: bool) -> Vec<&'static [u8]> {
    if n >= 3 && !th || n >= 4 {
        vec![b"a", b"a-b"]
    } else {
        vec![b"a", b"a-b", b"b"]
    }
}
