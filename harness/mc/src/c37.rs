//! C37: scanning and reading change nothing but the destination.
use crate::c03::trees;
use crate::c22::Faults;
use crate::common::*;
use crate::universe::{small_leaves, small_names};
use dir_signature::v1::{self, merge::FileMergeBuilder, Emitter, Hashes, Parser};
use dir_signature::get_hash;
use kit::ctx::{broken, cut, verif_dir, violation, Ctx};
use kit::hash::{fnv, Ht, ALL};
use kit::interpose::{take_stderr, unhooked, with_env, Act, Call, DirEnt, Env, NoEnv, Op};
use kit::mc::explore::Bounds;
use kit::mc::sched;
use kit::model::*;
use libc::{c_int, c_long, c_void, sock_filter};
use std::fs;
use std::io::{self, BufReader, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc::{channel, Sender};
use std::sync::Mutex;

// ---- calls that change something ----

static MANY: AtomicUsize = AtomicUsize::new(0);
static SEEN: [AtomicU64; 8] = [const { AtomicU64::new(0) }; 8];

/// Calls that always change something.
const NEVER: &[(c_long, &str)] = &[
    (libc::SYS_unlink, "unlink"), (libc::SYS_unlinkat, "unlinkat"), (libc::SYS_rename, "rename"), (libc::SYS_renameat, "renameat"), (libc::SYS_renameat2, "renameat2"),
    (libc::SYS_mkdir, "mkdir"), (libc::SYS_mkdirat, "mkdirat"), (libc::SYS_rmdir, "rmdir"), (libc::SYS_creat, "creat"), (libc::SYS_link, "link"), (libc::SYS_linkat, "linkat"),
    (libc::SYS_symlink, "symlink"), (libc::SYS_symlinkat, "symlinkat"), (libc::SYS_mknod, "mknod"), (libc::SYS_mknodat, "mknodat"),
    (libc::SYS_chmod, "chmod"), (libc::SYS_fchmod, "fchmod"), (libc::SYS_fchmodat, "fchmodat"), (452, "fchmodat2"),
    (libc::SYS_chown, "chown"), (libc::SYS_fchown, "fchown"), (libc::SYS_lchown, "lchown"), (libc::SYS_fchownat, "fchownat"),
    (libc::SYS_utime, "utime"), (libc::SYS_utimes, "utimes"), (libc::SYS_futimesat, "futimesat"), (libc::SYS_utimensat, "utimensat"),
    (libc::SYS_truncate, "truncate"), (libc::SYS_ftruncate, "ftruncate"), (libc::SYS_fallocate, "fallocate"),
    (libc::SYS_setxattr, "setxattr"), (libc::SYS_lsetxattr, "lsetxattr"), (libc::SYS_fsetxattr, "fsetxattr"),
    (libc::SYS_removexattr, "removexattr"), (libc::SYS_lremovexattr, "lremovexattr"), (libc::SYS_fremovexattr, "fremovexattr"),
    (libc::SYS_chdir, "chdir"), (libc::SYS_fchdir, "fchdir"), (libc::SYS_chroot, "chroot"), (libc::SYS_umask, "umask"), (libc::SYS_mount, "mount"), (libc::SYS_umount2, "umount2"),
    (libc::SYS_fork, "fork"), (libc::SYS_vfork, "vfork"), (libc::SYS_execve, "execve"), (libc::SYS_execveat, "execveat"), (libc::SYS_kill, "kill"),
    (libc::SYS_socket, "socket"), (libc::SYS_socketpair, "socketpair"), (libc::SYS_sendto, "sendto"), (libc::SYS_sendmsg, "sendmsg"),
    (libc::SYS_setrlimit, "setrlimit"), (libc::SYS_setuid, "setuid"), (libc::SYS_setgid, "setgid"), (libc::SYS_setreuid, "setreuid"), (libc::SYS_setregid, "setregid"),
    (libc::SYS_setresuid, "setresuid"), (libc::SYS_setresgid, "setresgid"), (libc::SYS_setfsuid, "setfsuid"), (libc::SYS_setfsgid, "setfsgid"), (libc::SYS_setgroups, "setgroups"),
    (libc::SYS_setpgid, "setpgid"), (libc::SYS_setsid, "setsid"), (libc::SYS_setpriority, "setpriority"), (libc::SYS_personality, "personality"), (libc::SYS_alarm, "alarm"), (libc::SYS_setitimer, "setitimer"),
    (libc::SYS_unshare, "unshare"), (libc::SYS_setns, "setns"), (libc::SYS_io_uring_setup, "io_uring_setup"), (libc::SYS_sched_setaffinity, "sched_setaffinity"), (libc::SYS_sched_setscheduler, "sched_setscheduler"), (libc::SYS_swapon, "swapon"), (libc::SYS_reboot, "reboot"), (libc::SYS_sethostname, "sethostname"),
    (libc::SYS_pwrite64, "pwrite"), (libc::SYS_pwritev, "pwritev"), (libc::SYS_sendfile, "sendfile"), (libc::SYS_splice, "splice"), (libc::SYS_copy_file_range, "copy_file_range"),
];
/// Calls that change something with some arguments.
const OTHER: &[(c_long, &str)] = &[
    (libc::SYS_open, "open for writing"), (libc::SYS_openat, "openat for writing"), (libc::SYS_write, "write"), (libc::SYS_writev, "writev"),
    (libc::SYS_clone, "clone of a process"), (libc::SYS_ioctl, "ioctl that sets flags"), (libc::SYS_prlimit64, "prlimit"), (libc::SYS_rt_sigaction, "sigaction"),
];

fn filter() -> Vec<sock_filter> {
    const LD: u16 = 0x20;
    const JEQ: u16 = 0x15;
    const JSET: u16 = 0x45;
    const RET: u16 = 0x06;
    const ALLOW: u32 = 0x7fff_0000;
    const TRAP: u32 = 0x0003_0000;
    let op = |code, jt, jf, k| sock_filter { code, jt, jf, k };
    let arg = |n: u32| 16 + 8 * n;
    let mut p = vec![op(LD, 0, 0, 4), op(JEQ, 1, 0, 0xc000_003e), op(RET, 0, 0, ALLOW), op(LD, 0, 0, 0)];
    // its arguments are out of sight; there is another one
    p.push(op(JEQ, 0, 1, libc::SYS_clone3 as u32));
    p.push(op(RET, 0, 0, 0x0005_0000 | libc::ENOSYS as u32));
    for (n, _) in NEVER {
        p.push(op(JEQ, 0, 1, *n as u32));
        p.push(op(RET, 0, 0, TRAP));
    }
    let writing = (libc::O_ACCMODE | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND | 0o20000000) as u32;
    // (call, argument, comparison, value, answer if it holds, answer if not)
    for (n, a, cmp, v, yes, no) in [
        (libc::SYS_open, 1, JSET, writing, TRAP, ALLOW),
        (libc::SYS_openat, 2, JSET, writing, TRAP, ALLOW),
        (libc::SYS_write, 0, JEQ, 2, ALLOW, TRAP),
        (libc::SYS_writev, 0, JEQ, 2, ALLOW, TRAP),
        (libc::SYS_clone, 0, JSET, 0x10000, ALLOW, TRAP),
        (libc::SYS_ioctl, 1, JEQ, 0x4008_6602, TRAP, ALLOW),
        (libc::SYS_prlimit64, 2, JEQ, 0, ALLOW, TRAP),
        (libc::SYS_rt_sigaction, 1, JEQ, 0, ALLOW, TRAP),
    ] {
        p.push(op(JEQ, 0, 4, n as u32));
        p.push(op(LD, 0, 0, arg(a)));
        p.push(op(cmp, 0, 1, v));
        p.push(op(RET, 0, 0, yes));
        p.push(op(RET, 0, 0, no));
    }
    p.push(op(RET, 0, 0, ALLOW));
    p
}

unsafe extern "C" fn trapped(_sig: c_int, info: *mut libc::siginfo_t, uc: *mut c_void) {
    // the number is behind the address of the call
    let nr = *(info as *const u8).add(24).cast::<i32>();
    let k = MANY.fetch_add(1, SeqCst);
    if k < SEEN.len() {
        SEEN[k].store(nr as u64, SeqCst);
    }
    let uc = &mut *(uc as *mut libc::ucontext_t);
    uc.uc_mcontext.gregs[libc::REG_RAX as usize] = -(libc::EPERM as i64);
}

fn arm() -> bool {
    unsafe {
        let p = filter();
        let prog = libc::sock_fprog { len: p.len() as u16, filter: p.as_ptr() as *mut _ };
        libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && libc::prctl(libc::PR_SET_SECCOMP, 2, &prog as *const _) == 0
    }
}

/// What a thread has of its own: blocked signals and name.
fn mine() -> (Vec<bool>, Vec<u8>) {
    unsafe {
        let mut set: libc::sigset_t = std::mem::zeroed();
        libc::pthread_sigmask(libc::SIG_SETMASK, std::ptr::null(), &mut set);
        let mut name = [0u8; 16];
        libc::prctl(libc::PR_GET_NAME, name.as_mut_ptr());
        ((1..65).map(|s| libc::sigismember(&set, s) == 1).collect(), name.to_vec())
    }
}

fn handler() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = trapped as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut());
    }
}

static TELL: Mutex<Option<Sender<Option<String>>>> = Mutex::new(None);

fn stuck(msg: &str) -> ! {
    // whoever waits for this thread reports it: it cannot write files
    if let Some(t) = &*TELL.lock().unwrap() {
        let _ = t.send(Some(msg.to_string()));
    }
    loop {
        std::thread::park();
    }
}

/// Run `f` in a thread whose calls that change something fail and are noted.
fn confined<T>(ctx: &mut Ctx, what: &dyn Fn() -> String, f: impl FnOnce() -> T) -> T {
    struct Carry<T>(T);
    unsafe impl<T> Send for Carry<T> {}
    impl<T> Carry<T> {
        fn get(self) -> T {
            self.0
        }
    }
    MANY.store(0, SeqCst);
    let (tx, rx) = channel();
    *TELL.lock().unwrap() = Some(tx.clone());
    let mut res: Option<T> = None;
    let mut armed = false;
    let mut same = true;
    std::thread::scope(|s| {
        let job = Carry((f, &mut res, &mut armed, &mut same));
        s.spawn(move || {
            let (f, res, armed, same) = job.get();
            *armed = arm();
            let before = mine();
            *res = Some(f());
            *same = before == mine();
            let _ = tx.send(None);
        });
        match rx.recv() {
            Ok(None) => {}
            Ok(Some(m)) => violation(&format!("{}: never ends: {}", what(), m)),
            Err(_) => broken("the confined thread died"),
        }
    });
    *TELL.lock().unwrap() = None;
    ctx.add(if armed { "runs_with_filter" } else { "runs_without_filter" }, 1);
    if !same {
        violation(&format!("{}: the blocked signals or the name of the calling thread changed", what()));
    }
    let n = MANY.load(SeqCst);
    if n > 0 {
        let mut names: Vec<String> = Vec::new();
        for s in &SEEN[..n.min(SEEN.len())] {
            let nr = s.load(SeqCst) as c_long;
            let name = NEVER.iter().chain(OTHER).find(|x| x.0 == nr).map_or(format!("call {}", nr), |x| x.1.to_string());
            if !names.contains(&name) {
                names.push(name);
            }
        }
        violation(&format!("{}: calls that change something: {} ({} of them)", what(), names.join(", "), n));
    }
    res.unwrap()
}

// ---- what can be seen afterwards ----

#[derive(PartialEq)]
struct Stat {
    path: PathBuf,
    /// mode, inode, links, owner, group, size, modified, changed
    meta: [u64; 10],
    xattrs: Vec<u8>,
    data: u64,
}

fn shot(path: &Path, v: &mut Vec<Stat>) {
    let m = match fs::symlink_metadata(path) {
        Ok(m) => m,
        Err(e) => broken(&format!("cannot inspect {:?}: {}", path, e)),
    };
    let mut x = vec![0u8; 512];
    let c = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
    let n = unsafe { libc::llistxattr(c.as_ptr(), x.as_mut_ptr().cast(), x.len()) };
    x.truncate(n.max(0) as usize);
    let data = if m.file_type().is_symlink() {
        fnv(fs::read_link(path).unwrap_or_default().as_os_str().as_bytes())
    } else if m.is_file() {
        fnv(&fs::read(path).unwrap_or_default())
    } else {
        0
    };
    v.push(Stat {
        path: path.to_path_buf(),
        meta: [m.mode() as u64, m.ino(), m.nlink(), m.uid() as u64, m.gid() as u64, m.size(), m.mtime() as u64, m.mtime_nsec() as u64, m.ctime() as u64, m.ctime_nsec() as u64],
        xattrs: x,
        data,
    });
    if m.is_dir() {
        let mut names: Vec<_> = fs::read_dir(path).unwrap_or_else(|e| broken(&format!("cannot list {:?}: {}", path, e))).map(|e| e.unwrap().path()).collect();
        names.sort();
        for n in names {
            shot(&n, v);
        }
    }
}

#[derive(PartialEq)]
struct World {
    tree: Vec<Stat>,
    /// what a process has only one of
    process: Vec<(String, String)>,
}

fn world(dirs: &[&Path]) -> World {
    unhooked(|| {
        let mut tree = Vec::new();
        for d in dirs {
            shot(d, &mut tree);
        }
        let mut process = vec![("working directory".to_string(), format!("{:?}", std::env::current_dir()))];
        let mut env: Vec<_> = std::env::vars_os().collect();
        env.sort();
        process.push(("environment".into(), format!("{:?}", env)));
        for l in fs::read_to_string("/proc/self/status").unwrap_or_default().lines() {
            if let Some((k, v)) = l.split_once(':') {
                if ["Umask", "SigIgn", "SigCgt", "SigBlk", "Uid", "Gid", "Groups", "CoreDumping"].contains(&k) {
                    let mut v = v.trim().to_string();
                    if k.starts_with("Sig") {
                        // two signals are the C library's own
                        v = format!("{:x}", u64::from_str_radix(&v, 16).unwrap_or(0) & !(3 << 31));
                    }
                    process.push((k.into(), v));
                }
            }
        }
        for r in [libc::RLIMIT_NOFILE, libc::RLIMIT_CORE, libc::RLIMIT_FSIZE, libc::RLIMIT_STACK, libc::RLIMIT_AS] {
            let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            unsafe { libc::getrlimit(r, &mut l) };
            process.push((format!("limit {}", r), format!("{} {}", l.rlim_cur, l.rlim_max)));
        }
        World { tree, process }
    })
}

/// Is the panic hook still that of the program?
fn hook(what: &str) {
    if cut(|| panic!("a probe")).map_or_else(|e| !e.contains("a probe"), |_: ()| true) {
        violation(&format!("{}: the panic hook of the process was replaced", what));
    }
}

fn compare(old: &World, new: &World, what: &dyn Fn() -> String) {
    if old == new {
        return;
    }
    for (a, b) in old.process.iter().zip(&new.process) {
        if a != b {
            violation(&format!("{}: the {} of the process changed from {} to {}", what(), a.0, a.1, b.1));
        }
    }
    for s in &old.tree {
        match new.tree.iter().find(|t| t.path == s.path) {
            None => violation(&format!("{}: {:?} is gone", what(), s.path)),
            Some(t) if t != s => violation(&format!("{}: {:?} changed: {:?} {:?}, was {:?} {:?}", what(), s.path, t.meta, t.xattrs, s.meta, s.xattrs)),
            _ => {}
        }
    }
    for t in &new.tree {
        if !old.tree.iter().any(|s| s.path == t.path) {
            violation(&format!("{}: {:?} was created", what(), t.path));
        }
    }
    violation(&format!("{}: something changed", what()));
}

/// Looks at the descriptors that are used.
struct Watch<'a> {
    inner: &'a mut dyn Env,
    bad: Option<Vec<u8>>,
    looked: u64,
}
impl Env for Watch<'_> {
    fn call(&mut self, c: &Call) -> Act {
        if c.fd > 2 && matches!(c.op, Op::Read | Op::Readdir | Op::Fstat | Op::Close | Op::Stat | Op::Open | Op::Readlink) {
            self.looked += 1;
            if unsafe { libc::fcntl(c.fd, libc::F_GETFD) } == 0 {
                self.bad = Some(kit::interpose::fd_path(c.fd));
            }
        }
        self.inner.call(c)
    }
    fn ret(&mut self, c: &Call, res: isize) {
        self.inner.ret(c, res)
    }
    fn arrange(&mut self, d: &[u8], e: &mut Vec<DirEnt>) {
        self.inner.arrange(d, e)
    }
    fn relist(&mut self, fd: i32, e: &mut Vec<DirEnt>, pos: usize) {
        self.inner.relist(fd, e, pos)
    }
}

struct Room(usize);
impl Write for Room {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.0);
        self.0 -= n;
        if n == 0 && !b.is_empty() {
            return Err(io::ErrorKind::StorageFull.into());
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// One scan; nothing may change.
fn one(ctx: &mut Ctx, dirs: &[(&Path, &str)], seen: &[&Path], old: &World, o: &Opts, env: &mut dyn Env, sc: Option<sched::Config>, room: usize, what: &dyn Fn() -> String) {
    let mut w = Watch { inner: env, bad: None, looked: 0 };
    take_stderr();
    let r = confined(ctx, what, || {
        let mut out = Room(room);
        let c = cut(|| config(dirs, o)).expect("configuring panics");
        with_env(&mut w, || match sc {
            Some(sc) => sched::run(sc, stuck, || cut(|| v1::scan(&c, &mut out))).0,
            None => cut(|| v1::scan(&c, &mut out)),
        })
    });
    let said = take_stderr();
    ctx.eval();
    if let Err(e) = &r {
        violation(&format!("{}: panic: {}", what(), e));
    }
    ctx.add("descriptors_looked_at", w.looked);
    if let Some(p) = w.bad {
        violation(&format!("{}: a descriptor of {} would be inherited by programs started meanwhile", what(), String::from_utf8_lossy(&p)));
    }
    if !o.progress && !said.is_empty() {
        violation(&format!("{}: something is printed although no progress is wanted: {}", what(), kit::json::show(&said)));
    }
    compare(old, &world(seen), what);
    ctx.outcome(matches!(r, Ok(Ok(_))) as u64);
}

/// A path to `p` that starts at the working directory.
fn relative(p: &Path) -> PathBuf {
    let cwd = std::env::current_dir().unwrap();
    let mut r = PathBuf::new();
    for _ in cwd.components().skip(1) {
        r.push("..");
    }
    r.join(p.strip_prefix("/").unwrap())
}

fn scans(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let mut list: Vec<(String, Node)> = trees().into_iter().map(|(n, t)| (n.to_string(), t)).collect();
    list.push(("modes".into(), Node::dir().with(b"0", Node::File { data: std::rc::Rc::new(b"x".to_vec()), mode: 0 }).with(b"1", Node::File { data: std::rc::Rc::new(b"y".to_vec()), mode: 0o4711 }).with(b"2", Node::File { data: std::rc::Rc::new(vec![]), mode: 0o200 }).with(b"s", Node::Sock).with(b"p", Node::Fifo)));
    list.push(("names".into(), Node::dir().with(b".dirsignature", Node::file(b"1")).with(b"index.txt", Node::file(b"2")).with(b".tmp", Node::dir().with(b"x~", Node::file(b"3"))).with(b"\xff\n", Node::link(b"nowhere")).with(b"abs", Node::link(b"/etc/passwd")).with(b"self", Node::link(b"self")).with(b"up", Node::link(b"../../..")).with(b"big", Node::link(&[b'x'; 4095])).with(b"core", Node::exe(b"#!/bin/sh\n"))));
    list.push(("blocks".into(), Node::dir().with(b"a", Node::file(&content(2 * BS + 1, 1))).with(b"b", Node::exe(&content(BS, 2)))));
    ctx.chunk(4);
    for n in 0..=ctx.pick(3, 4) {
        for f in forests(n, &small_names(), &small_leaves()) {
            let t = Node::Dir(f);
            ctx.case(|| format!("{:?}", t), |ctx| {
                let root = ctx.fresh("t");
                make(&t, &root);
                let old = world(&[&root]);
                for threads in [0usize, 2] {
                    for h in ALL {
                        if h != Ht::Sha && n > 2 {
                            continue;
                        }
                        for progress in [false, true] {
                            let o = Opts { ht: h, threads, queue: None, progress };
                            one(ctx, &[(&root, "/")], &[&root], &old, &o, &mut NoEnv, None, usize::MAX, &|| format!("scan with {:?}", o));
                        }
                    }
                }
                if n <= ctx.pick(2, 3) {
                    for threads in [0usize, 2] {
                        let o = Opts::new(Ht::Sha).threads(threads);
                        ctx.explore(Bounds::new(1), |ctx| {
                            let mut env = Faults::new(&root);
                            one(ctx, &[(&root, "/")], &[&root], &old, &o, &mut env, None, usize::MAX, &|| format!("scan with {:?} and a failing call", o));
                        });
                    }
                }
                if n <= 2 {
                    let o = Opts::new(Ht::Sha).threads(2).queue(1);
                    ctx.explore(Bounds::new(1), |ctx| {
                        one(ctx, &[(&root, "/")], &[&root], &old, &o, &mut NoEnv, Some(sched::Config::default()), usize::MAX, &|| format!("scan with {:?} under a schedule", o));
                    });
                }
                hook("after the scans");
                ctx.distinct(tree_id(&t));
                wipe(&root);
            });
        }
    }
    ctx.chunk(1);
    for (name, t) in &list {
        ctx.case(|| name.clone(), |ctx| {
            let base = ctx.fresh("w");
            fs::create_dir(&base).unwrap();
            let (root, other, link, file) = (base.join("t"), base.join("u"), base.join("l"), base.join("f"));
            make(t, &root);
            make(&Node::dir().with(b"zz", Node::file(b"1")), &other);
            std::os::unix::fs::symlink("t", &link).unwrap();
            fs::write(&file, b"no directory").unwrap();
            fs::set_permissions(&other, fs::Permissions::from_mode(0o1751)).unwrap();
            let (missing, rel) = (base.join("missing"), relative(&root));
            let slash = PathBuf::from(format!("{}/", root.display()));
            let seen: &[&Path] = &[&base];
            let old = world(seen);
            let len = index(t, Ht::Sha).len();
            for h in ALL {
                for threads in [0usize, 1, 2, 5] {
                    for queue in [None, Some(0), Some(2)] {
                        for progress in [false, true] {
                            let o = Opts { ht: h, threads, queue, progress };
                            for dirs in [vec![(&root, "/")], vec![(&rel, "/")], vec![(&slash, "/")], vec![(&link, "/")], vec![(&root, "/"), (&other, "/x")], vec![(&root, "/"), (&other, "/")], vec![(&rel, "/"), (&other, "/"), (&missing, "/")], vec![(&root, "/"), (&missing, "/x")], vec![(&missing, "/")], vec![(&file, "/")], vec![]] {
                                let d: Vec<(&Path, &str)> = dirs.iter().map(|(p, s)| (p.as_path(), *s)).collect();
                                one(ctx, &d, seen, &old, &o, &mut NoEnv, None, usize::MAX, &|| format!("scan of {:?} with {:?}", d, o));
                            }
                        }
                    }
                }
            }
            for threads in [0usize, 2] {
                let o = Opts::new(Ht::Sha).threads(threads);
                let step = if len > 2000 { ctx.pick(97, 11) } else { ctx.pick(5, 1) };
                for room in (0..len).step_by(step) {
                    one(ctx, &[(&root, "/")], seen, &old, &o, &mut NoEnv, None, room, &|| format!("scan with {:?} with room for {} bytes", o, room));
                }
                ctx.explore(Bounds::new(1), |ctx| {
                    let mut env = Faults::new(&root);
                    env.unknown = true;
                    env.rich = th || len < 1000;
                    one(ctx, &[(&root, "/")], seen, &old, &o, &mut env, None, usize::MAX, &|| format!("scan with {:?} and a failing call", o));
                });
                if threads > 0 && (th || len < 1000) {
                    let coarse = sched::Config { task_syscalls: false, free_start: false, block_cost: 1, ..sched::Config::default() };
                    ctx.explore(Bounds::new(1), |ctx| {
                        let mut env = Faults::new(&root);
                        one(ctx, &[(&root, "/")], seen, &old, &o, &mut env, Some(coarse), usize::MAX, &|| format!("scan with {:?} under a schedule", o));
                    });
                }
            }
            hook("after the scans");
            ctx.distinct(tree_id(t));
            ctx.sample(|| format!("{}: {} things watched", name, old.tree.len()));
            wipe(&base);
        });
    }
}

/// Everything that reads indexes and files.
fn readers(ctx: &mut Ctx) {
    for (name, t) in trees() {
        for h in ALL {
            ctx.case(|| format!("reading the index of {} {:?}", name, h), |ctx| {
                let base = ctx.fresh("w");
                fs::create_dir(&base).unwrap();
                let (root, idx, two, broken_idx) = (base.join("t"), base.join("i"), base.join("j"), base.join("k"));
                make(&t, &root);
                let text = index(&t, h);
                fs::write(&idx, &text).unwrap();
                fs::write(&two, index(&Node::dir().with(b"a", Node::file(b"1")), h)).unwrap();
                fs::write(&broken_idx, &text[..text.len() - 70]).unwrap();
                let alien = base.join("o");
                fs::write(&alien, index(&t, ALL[(ALL.iter().position(|&x| x == h).unwrap() + 1) % 3])).unwrap();
                let data = base.join("d");
                fs::write(&data, content(BS + 5, 2)).unwrap();
                let seen: &[&Path] = &[&base];
                let old = world(seen);
                let missing = base.join("missing");
                for file in [&idx, &two, &broken_idx, &alien, &data, &missing, &root] {
                    let jobs: Vec<(&str, Box<dyn Fn()>)> = vec![
                        ("parsing", Box::new(|| {
                            if let Ok(f) = fs::File::open(file) {
                                if let Ok(mut p) = Parser::new(BufReader::new(f)) {
                                    p.get_header();
                                    for e in p.iter().take(1000) {
                                        let _ = e.map(|e| e.path().to_path_buf());
                                    }
                                }
                            }
                        })),
                        ("looking up", Box::new(|| {
                            if let Ok(f) = fs::File::open(file) {
                                if let Ok(mut p) = Parser::new(BufReader::new(f)) {
                                    for q in ["/", "/a", "/d", "/zz"] {
                                        let _ = p.iter().advance(&v1::EntryKind::Dir(Path::new(q)));
                                        let _ = p.iter().advance(&v1::EntryKind::File(Path::new(q)));
                                    }
                                }
                            }
                        })),
                        ("get_hash", Box::new(|| {
                            if let Ok(mut f) = fs::File::open(file) {
                                let _ = get_hash(&mut f);
                            }
                        })),
                        ("hash_file and check_file", Box::new(|| {
                            if let Ok(f) = fs::File::open(file) {
                                if let Ok(l) = Hashes::hash_file(ht(h), 100, &f) {
                                    let _ = fs::File::open(file).map(|f| l.1.check_file(f));
                                    let _ = fs::File::open(&idx).map(|f| l.1.check_file(f));
                                }
                            }
                        })),
                        ("merging", Box::new(|| {
                            let mut b = FileMergeBuilder::new();
                            b.add(Path::new("/1"), file.as_path());
                            b.add(Path::new("/2"), two.as_path());
                            if let Ok(mut m) = b.finalize() {
                                for e in m.iter().take(1000) {
                                    let _ = e;
                                }
                                for q in ["/", "/a", "/zz"] {
                                    let _ = m.iter().advance(&v1::EntryKind::File(Path::new(q)));
                                }
                            }
                        })),
                        ("configuring", Box::new(|| {
                            let mut c = dir_signature::ScannerConfig::new();
                            c.auto_threads().queue_size(3).hash(ht(h)).print_progress().add_dir(file, "/");
                        })),
                        ("emitting", Box::new(|| {
                            let mut out = Vec::new();
                            if let Ok(mut e) = Emitter::new(ht(h), 100, &mut out) {
                                let _ = e.start_dir(Path::new("/"));
                                if let Ok(l) = fs::File::open(file).and_then(|f| Hashes::hash_file(ht(h), 100, f)) {
                                    let _ = e.add_file("f".as_ref(), true, l.0, &l.1);
                                }
                                let _ = e.add_symlink("l".as_ref(), Path::new("x"));
                                let _ = e.finish();
                            }
                        })),
                    ];
                    for (job, f) in &jobs {
                        let what = || format!("{} with {:?}", job, file);
                        let mut w = Watch { inner: &mut NoEnv, bad: None, looked: 0 };
                        take_stderr();
                        if let Err(e) = confined(ctx, &what, || with_env(&mut w, || cut(f))) {
                            violation(&format!("{}: panic: {}", what(), e));
                        }
                        let said = take_stderr();
                        ctx.eval();
                        if let Some(p) = w.bad {
                            violation(&format!("{}: a descriptor of {} would be inherited by programs started meanwhile", what(), String::from_utf8_lossy(&p)));
                        }
                        if !said.is_empty() {
                            violation(&format!("{}: something is printed: {}", what(), kit::json::show(&said)));
                        }
                        compare(&old, &world(seen), &what);
                    }
                }
                hook("after reading");
                ctx.distinct(fnv(format!("{} {:?}", name, h).as_bytes()));
                wipe(&base);
            });
        }
    }
}

/// The command: the only file that appears is the output.
fn command(ctx: &mut Ctx) {
    let exe = verif_dir().join("target/cli/debug/index");
    for (name, t) in trees() {
        ctx.case(|| format!("the command on {}", name), |ctx| {
            if !exe.exists() {
                broken("the command is not built");
            }
            let base = ctx.fresh("w");
            fs::create_dir(&base).unwrap();
            for d in ["cwd", "tmp", "home", "out"] {
                fs::create_dir(base.join(d)).unwrap();
            }
            let (root, out) = (base.join("t"), base.join("out"));
            make(&t, &root);
            for threads in ["0", "3"] {
                for flag in ["-q", "--progress"] {
                    for dest in [None, Some("out/index"), Some("t/index"), Some("out/there"), Some("none/sub/index"), Some("out")] {
                        for dir in ["t", "missing", "out"] {
                            let what = || format!("index -t {} {} -o {:?} of {}", threads, flag, dest, dir);
                            let mut c = Command::new(&exe);
                            c.env_clear().env("HOME", base.join("home")).env("TMPDIR", base.join("tmp")).current_dir(base.join("cwd"));
                            c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).args(["-t", threads, flag]);
                            if let Some(d) = dest {
                                c.arg("-o").arg(base.join(d));
                            }
                            if dest == Some("out/there") {
                                fs::write(out.join("there"), content(5000, 1)).unwrap();
                            }
                            let old = world(&[&base]);
                            let r = c.arg(base.join(dir)).output().unwrap_or_else(|e| broken(&format!("cannot start the command: {}", e)));
                            ctx.eval();
                            ctx.beat();
                            let mut old = World { tree: old.tree, process: vec![] };
                            let mut new = World { tree: world(&[&base]).tree, process: vec![] };
                            if let Some(d) = dest.filter(|d| *d != "out") {
                                // its directory changes, and it may be there (it has to, if all went well)
                                let made = base.join(d);
                                if r.status.success() && !new.tree.iter().any(|s| s.path == made) {
                                    violation(&format!("{}: succeeded, but there is no output", what()));
                                }
                                let parent = made.parent().unwrap();
                                for w in [&mut old, &mut new] {
                                    w.tree.retain(|s| s.path != made);
                                    for s in w.tree.iter_mut().filter(|s| s.path == parent) {
                                        s.meta[5..].fill(0);
                                    }
                                }
                            }
                            compare(&old, &new, &what);
                            ctx.outcome(r.status.success() as u64 + 2);
                            if let Some(d) = dest {
                                let _ = fs::remove_file(base.join(d));
                            }
                        }
                    }
                }
            }
            wipe(&base);
        });
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation is one scan, one use of a reader, the emitter or the merge builder, or one run of the index command; meanwhile no system call that could change the file system, the process or another one is attempted (only standard error may be written to, and only for progress), descriptors are close-on-exec, and afterwards every file is as it was in mode, inode, links, owner, size, content, extended attributes and times of modification and change, and so are working directory, umask, environment, signal dispositions, identity and limits of the process");
    ctx.text("bounds", "all trees of up to 3 nodes (thorough: 4) and hand-made ones x threads {0,1,2,5} x queue sizes x progress x hash types x {absolute, relative, symlinked, several, missing, no directories}; every single failing call; destinations that fail at every 5th (thorough: every) byte; schedules of one preemption; parser, look-ups, get_hash, hash_file, check_file, merging and emitting with good, bad and missing files; the command with and without output file, also inside the scanned directory");
    ctx.text("assumptions", "system calls are watched by a seccomp filter in the thread that runs the code and the threads it starts (runs_without_filter counts runs in which the kernel refused it) | access times are not looked at | the command is judged by its effects only");
    handler();
    scans(ctx);
    readers(ctx);
    command(ctx);
}
