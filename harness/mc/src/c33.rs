//! C33: scans, parsers and emitters don't influence each other.
use crate::c22::Faults;
use crate::c32::{counts, Counts};
use crate::c03::tally_rep;
use crate::common::*;
use dir_signature::v1::{self, Emitter, Entry, Hashes, Parser};
use dir_signature::ScannerConfig;
use futures::Future;
use futures_cpupool::CpuPool;
use kit::ctx::{check, cut, deadlock, violation, Ctx};
use kit::hash::Ht;
use kit::interpose::{with_env, NoEnv, CLOCK_STEP};
use kit::mc::explore::{choose, Bounds};
use kit::mc::label::USER;
use kit::mc::sched;
use kit::model::*;
use std::collections::BTreeMap;
use std::io::{self, BufRead, Read, Write};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

const LBL: u32 = USER + 90;

// ---- changes of a tree between scans

type Dirs = BTreeMap<Vec<u8>, Node>;

fn dir_mut<'a>(t: &'a mut Node, path: &[&str]) -> &'a mut Dirs {
    match t {
        Node::Dir(m) => match path.split_first() {
            None => m,
            Some((h, rest)) => dir_mut(m.get_mut(h.as_bytes()).unwrap(), rest),
        },
        _ => panic!("not a directory"),
    }
}

fn base() -> Node {
    let big = content(2 * BS + 10, 1);
    Node::dir()
        .with(b"a", Node::file(b"first"))
        .with(b"b", Node::file(b"other"))
        .with(b"big", Node::file(&big))
        .with(b"d", Node::dir().with(b"a", Node::file(b"first")).with(b"e", Node::dir().with(b"x", Node::file(b"12"))))
        .with(b"l", Node::link(b"to1"))
        .with(b"z", Node::dir())
}

/// Every entry's times are the same again.
fn old_times(p: &Path) {
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    if std::fs::symlink_metadata(p).map_or(false, |m| m.is_dir()) {
        for e in std::fs::read_dir(p).unwrap() {
            old_times(&e.unwrap().path());
        }
    }
    let t = libc::timespec { tv_sec: 1_000_000, tv_nsec: 0 };
    let ts = [t, t];
    assert_eq!(unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), ts.as_ptr(), libc::AT_SYMLINK_NOFOLLOW) }, 0);
}

/// Changes that keep as much as possible the same: size, times, inode.
const EDITS: [&str; 12] = [
    "change a byte of a file in place", "swap two files of the same size", "make a file executable", "make it not executable", "retarget a link", "change the last block of a big file in place", "truncate or extend a file in place",
    "exchange two directories", "replace a file by a link of its name", "replace an empty directory by an empty file", "move a file to another directory", "nothing",
];

/// Returns false if the change doesn't apply to the tree as it is.
fn edit(k: usize, root: &Path, t: &mut Node) -> bool {
    use std::fs;
    use std::os::unix::fs::{FileExt, PermissionsExt};
    let m = dir_mut(t, &[]);
    let over = |p: PathBuf, data: &[u8], at: usize, b: u8| {
        let f = fs::OpenOptions::new().write(true).open(p).unwrap();
        f.write_all_at(&[b], at as u64).unwrap();
        let mut v = data.to_vec();
        v[at] = b;
        v
    };
    match k {
        0 => match m.get_mut(&b"a"[..]) {
            Some(Node::File { data, .. }) if !data.is_empty() => {
                let b = data[0] ^ 1;
                *data = over(root.join("a"), data, 0, b).into();
            }
            _ => return false,
        },
        1 => {
            let (a, b) = match (m.remove(&b"a"[..]), m.remove(&b"b"[..])) {
                (Some(a), Some(b)) => (a, b),
                (a, b) => {
                    a.map(|x| m.insert(b"a".to_vec(), x));
                    b.map(|x| m.insert(b"b".to_vec(), x));
                    return false;
                }
            };
            m.insert(b"a".to_vec(), b);
            m.insert(b"b".to_vec(), a);
            fs::rename(root.join("a"), root.join("tmp")).unwrap();
            fs::rename(root.join("b"), root.join("a")).unwrap();
            fs::rename(root.join("tmp"), root.join("b")).unwrap();
        }
        2 | 3 => match m.get_mut(&b"b"[..]) {
            Some(Node::File { mode, .. }) if (*mode & 0o100 != 0) == (k == 3) => {
                *mode = if k == 2 { 0o755 } else { 0o644 };
                fs::set_permissions(root.join("b"), fs::Permissions::from_mode(if k == 2 { 0o755 } else { 0o644 })).unwrap();
            }
            _ => return false,
        },
        4 => match m.get_mut(&b"l"[..]) {
            Some(Node::Link(t)) => {
                let new: &[u8] = if &t[..] == b"to1" { b"to2" } else { b"to1" };
                *t = new.to_vec().into();
                fs::remove_file(root.join("l")).unwrap();
                std::os::unix::fs::symlink(os(new), root.join("l")).unwrap();
            }
            _ => return false,
        },
        5 => match m.get_mut(&b"big"[..]) {
            Some(Node::File { data, .. }) => {
                let at = data.len() - 1;
                let b = data[at].wrapping_add(1);
                *data = over(root.join("big"), data, at, b).into();
            }
            _ => return false,
        },
        6 => match dir_mut(m.get_mut(&b"d"[..]).unwrap(), &[]).get_mut(&b"a"[..]) {
            Some(Node::File { data, .. }) => {
                let mut v = data.to_vec();
                let n = if v.len() > 3 { 2 } else { 9 };
                v.resize(n, 0);
                fs::OpenOptions::new().write(true).open(root.join("d/a")).unwrap().set_len(n as u64).unwrap();
                *data = v.into();
            }
            _ => return false,
        },
        7 => {
            let (d, z) = (m.remove(&b"d"[..]).unwrap(), m.remove(&b"z"[..]).unwrap());
            if !d.is_dir() || !z.is_dir() {
                m.insert(b"d".to_vec(), d);
                m.insert(b"z".to_vec(), z);
                return false;
            }
            m.insert(b"d".to_vec(), z);
            m.insert(b"z".to_vec(), d);
            fs::rename(root.join("d"), root.join("tmp")).unwrap();
            fs::rename(root.join("z"), root.join("d")).unwrap();
            fs::rename(root.join("tmp"), root.join("z")).unwrap();
        }
        8 => {
            if !matches!(m.get(&b"a"[..]), Some(Node::File { .. })) {
                return false;
            }
            m.insert(b"a".to_vec(), Node::link(b"first"));
            fs::remove_file(root.join("a")).unwrap();
            std::os::unix::fs::symlink("first", root.join("a")).unwrap();
        }
        9 => {
            if !matches!(m.get(&b"z"[..]), Some(Node::Dir(d)) if d.is_empty()) {
                return false;
            }
            m.insert(b"z".to_vec(), Node::file(b""));
            fs::remove_dir(root.join("z")).unwrap();
            fs::write(root.join("z"), b"").unwrap();
        }
        10 => {
            if !matches!(m.get(&b"d"[..]), Some(Node::Dir(d)) if !d.contains_key(&b"b"[..])) || !m.contains_key(&b"b"[..]) {
                return false;
            }
            let b = m.remove(&b"b"[..]).unwrap();
            dir_mut(m.get_mut(&b"d"[..]).unwrap(), &[]).insert(b"b".to_vec(), b);
            fs::rename(root.join("b"), root.join("d/b")).unwrap();
        }
        _ => {}
    }
    true
}

fn edit_applies(k: usize, t: &Node) -> bool {
    // edit 6 needs d to be a directory
    k != 6 || matches!(t.children().get(&b"d"[..]), Some(d) if d.is_dir() && d.children().contains_key(&b"a"[..]))
}

fn histories(ctx: &mut Ctx) {
    let depth = ctx.pick(4, 5);
    for first in 0..EDITS.len() {
        for h in [Ht::Sha, Ht::B2] {
            ctx.case(|| format!("histories of {} changes, the first: {}, {:?}", depth, EDITS[first], h), |ctx| {
                let n = (EDITS.len() as u64).pow(depth as u32 - 1);
                for w in 0..n {
                    let root = ctx.fresh("t");
                    let mut t = base();
                    make(&t, &root);
                    old_times(&root);
                    let o = Opts::new(h).threads(if w % 2 == 0 { 0 } else { 2 });
                    let cfg = config(&[(&root, "/")], &o);
                    let mut seq = vec![first];
                    let mut x = w;
                    for _ in 1..depth {
                        seq.push((x % EDITS.len() as u64) as usize);
                        x /= EDITS.len() as u64;
                    }
                    let mut done = Vec::new();
                    scan_judge(ctx, &cfg, &t, &o, &done);
                    for k in seq {
                        if !edit_applies(k, &t) || !edit(k, &root, &mut t) {
                            break;
                        }
                        old_times(&root);
                        done.push(EDITS[k]);
                        scan_judge(ctx, &cfg, &t, &o, &done);
                    }
                    ctx.distinct(tree_id(&t) ^ w ^ (h as u64) << 40);
                    ctx.beat();
                    if w == 7 {
                        ctx.sample(|| format!("{:?} scanned after each of {:?}", t, done));
                    }
                    wipe(&root);
                }
            });
        }
    }
}

fn scan_judge(ctx: &mut Ctx, cfg: &ScannerConfig, t: &Node, o: &Opts, done: &[&str]) {
    let mut out = Vec::new();
    match cut(|| v1::scan(cfg, &mut out)) {
        Ok(Ok(())) => judge_bytes(ctx, &out, t, o, &format!("scanning again after {:?}", done)),
        r => violation(&format!("scanning again after {:?} gives {:?}", done, r)),
    }
    ctx.eval();
}

// ---- after failures

struct FailAt {
    left: usize,
    err: Option<io::ErrorKind>,
    out: Vec<u8>,
}
impl Write for FailAt {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 {
            if let Some(e) = self.err {
                return Err(e.into());
            }
        }
        let n = if self.err.is_some() { b.len().min(self.left) } else { b.len() };
        self.left -= n.min(self.left);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn after_failures(ctx: &mut Ctx) {
    let a = Node::dir().with(b"a", Node::file(b"1")).with(b"b", Node::exe(&content(BS + 7, 1))).with(b"d", Node::dir().with(b"x", Node::file(b"2")).with(b"l", Node::link(b"t")));
    let b = Node::dir().with(b"a", Node::file(b"22")).with(b"c", Node::link(b"22")).with(b"e", Node::dir().with(b"x", Node::file(&content(BS, 2))));
    for threads in [0usize, 2] {
        for h in [Ht::Sha, Ht::B2] {
            for progress in [false, true] {
                ctx.case(|| format!("a scan after one with a failing call, {} threads, {:?}, progress {}", threads, h, progress), |ctx| {
                    let (ra, rb) = (ctx.fresh("t"), ctx.fresh("u"));
                    make(&a, &ra);
                    make(&b, &rb);
                    let mut o = Opts::new(h).threads(threads);
                    o.progress = progress;
                    let ca = config(&[(&ra, "/")], &o);
                    ctx.explore(Bounds::new(1), |ctx| {
                        let mut env = Faults::new(&ra);
                        let mut out = Vec::new();
                        let r = with_env(&mut env, || cut(|| v1::scan(&ca, &mut out)));
                        check(!(env.hit.is_empty() && !matches!(r, Ok(Ok(())))), || format!("the first scan gives {:?}", r));
                        let s = scan_env(&[(&rb, "/")], &o, &mut NoEnv, None);
                        judge(ctx, &s, &b, &o, &format!("a scan after one with failing {:?}", env.hit));
                        let mut out = Vec::new();
                        let r = with_env(&mut NoEnv, || cut(|| v1::scan(&ca, &mut out)));
                        check(matches!(r, Ok(Ok(()))), || format!("scanning again gives {:?}", r));
                        judge_bytes(ctx, &out, &a, &o, &format!("scanning again after failing {:?}", env.hit));
                        kit::interpose::take_stderr();
                        ctx.eval();
                    });
                    // and after a failing write
                    let n = index(&a, h).len();
                    for left in 0..n {
                        let mut w = FailAt { left, err: Some(io::ErrorKind::Other), out: vec![] };
                        let mut env = NoEnv;
                        let r = with_env(&mut env, || cut(|| v1::scan(&ca, &mut w)));
                        check(matches!(r, Ok(Err(_))), || format!("a scan with a failing write gives {:?}", r));
                        let s = scan_env(&[(&rb, "/")], &o, &mut NoEnv, None);
                        judge(ctx, &s, &b, &o, &format!("a scan after one that failed to write byte {}", left));
                        kit::interpose::take_stderr();
                        ctx.eval();
                        ctx.beat();
                    }
                    wipe(&ra);
                    wipe(&rb);
                });
            }
        }
    }
    for hb in kit::hash::ALL {
        for hg in kit::hash::ALL {
            ctx.case(|| format!("parsers, emitters and hashers of {:?} after failed ones of {:?}", hg, hb), |ctx| {
                let (good, other) = (emitted(&a, hg), emitted(&b, hb));
                let want = parse_ok(&good);
                let data = content(3 * 7 + 2, 5);
                let hashed = Hashes::hash_file(ht(hg), 7, &data[..]).unwrap();
                for n in 0..other.len() {
                    let what = || format!("after uses of another index that end at byte {}", n);
                    let _ = parse_all(&other[..n], 1000);
                    check(parse_ok(&good) == want, || format!("{}: {} parses differently", what(), kit::json::brief(&good)));
                    // a destination that fails, a reader that fails, an emitter that is given up
                    for give_up in [false, true] {
                        let mut w = FailAt { left: n, err: if give_up { None } else { Some(io::ErrorKind::BrokenPipe) }, out: vec![] };
                        let r = cut(|| emit_upto(&other, &mut w, if give_up { n } else { usize::MAX }));
                        check(give_up || matches!(r, Ok(Err(_))), || format!("emitting to a failing destination gives {:?}", r));
                        let mut out = Vec::new();
                        emit(&good, &mut out).unwrap_or_else(|e| violation(&format!("emitting fails: {}", e)));
                        check(out == good, || format!("{}, emitting: {}", what(), diff(&out, &good)));
                    }
                    let _ = Hashes::hash_file(ht(hb), 7, io::Read::chain(&other[..n], Broken));
                    let again = Hashes::hash_file(ht(hg), 7, &data[..]).unwrap();
                    check(again == hashed, || format!("{}: a file is hashed differently", what()));
                    let _ = hashed.1.check_file(io::Read::chain(&data[..n.min(data.len())], Broken));
                    check(hashed.1.check_file(&data[..]).unwrap_or(false), || format!("{}: a file is not accepted", what()));
                    ctx.eval();
                    ctx.beat();
                }
            });
        }
    }
}

struct Broken;
impl Read for Broken {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        Err(io::ErrorKind::Other.into())
    }
}

/// The index as the emitter writes it.
fn emitted(t: &Node, h: Ht) -> Vec<u8> {
    let v = index(t, h);
    let mut out = Vec::new();
    emit(&v, &mut out).unwrap_or_else(|e| violation(&format!("emitting fails: {}", e)));
    out
}

// ---- at the same time

fn emit(data: &[u8], w: &mut dyn Write) -> io::Result<()> {
    emit_upto(data, w, usize::MAX)
}

/// An entry to an emitter.
pub fn feed(m: &mut Emitter, e: &Entry) -> io::Result<()> {
    match e {
        Entry::Dir(p) => m.start_dir(p),
        Entry::File { path, exe, size, hashes } => m.add_file(path.file_name().unwrap(), *exe, *size, hashes),
        Entry::Link(p, t) => m.add_symlink(p.file_name().unwrap(), t),
    }
}

/// Gives up after a number of entries.
fn emit_upto(data: &[u8], w: &mut dyn Write, limit: usize) -> io::Result<()> {
    let mut p = Parser::new(io::Cursor::new(data)).unwrap_or_else(|e| violation(&format!("index cannot be opened: {}", e)));
    let h = p.get_header();
    let mut e = Emitter::new(h.get_hash_type(), h.get_block_size(), w)?;
    for (i, x) in p.iter().enumerate() {
        if i >= limit {
            return Ok(());
        }
        feed(&mut e, &x.unwrap_or_else(|e| violation(&format!("a valid index doesn't parse: {}", e))))?;
    }
    e.finish()
}

/// Somebody else may go on at every call.
struct PointW(Vec<u8>);
impl Write for PointW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        sched::point(LBL);
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct PointR {
    data: Vec<u8>,
    at: usize,
    step: usize,
}
impl Read for PointR {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        sched::point(LBL + 1);
        let n = b.len().min(self.step).min(self.data.len() - self.at);
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
impl BufRead for PointR {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        sched::point(LBL + 2);
        Ok(&self.data[self.at..(self.at + self.step).min(self.data.len())])
    }
    fn consume(&mut self, n: usize) {
        self.at += n;
    }
}

#[derive(Clone, Debug)]
enum Job {
    Scan(PathBuf, Opts),
    Parse(Vec<u8>, usize),
    Emit(Vec<u8>),
    Hash(Ht, u64, Vec<u8>),
    Check(std::sync::Arc<Hashes>, Vec<u8>),
}

/// What the job delivers.
fn perform(j: &Job) -> Vec<u8> {
    match j {
        Job::Scan(root, o) => {
            let mut w = PointW(vec![]);
            let r = v1::scan(&config(&[(root, "/")], o), &mut w);
            if let Err(e) = r {
                w.0.extend_from_slice(format!("error: {}", e).as_bytes());
            }
            w.0
        }
        Job::Parse(data, step) => match parse_reader(PointR { data: data.clone(), at: 0, step: *step }, 12) {
            Ok(v) => format!("{:?}", v).into_bytes(),
            Err(e) => e.into_bytes(),
        },
        Job::Emit(data) => {
            let mut w = PointW(vec![]);
            let r = emit(data, &mut w);
            w.0.extend_from_slice(if r.is_ok() { b"" } else { b"error" });
            w.0
        }
        Job::Hash(h, bs, data) => {
            let r = Hashes::hash_file(ht(*h), *bs, PointR { data: data.clone(), at: 0, step: 5 });
            format!("{:?}", r.map(|(n, h)| (n, hashes(&h))).map_err(|e| e.to_string())).into_bytes()
        }
        Job::Check(h, data) => format!("{:?}", h.check_file(PointR { data: data.clone(), at: 0, step: 5 }).map_err(|e| e.to_string())).into_bytes(),
    }
}

/// Counts after each line of the body of an index.
fn line_counts(index: &[u8]) -> Vec<Counts> {
    let mut c = (0, 0, 0);
    let mut v = vec![c];
    let s = String::from_utf8_lossy(index).into_owned();
    for l in s.lines().skip(1) {
        if l.starts_with('/') {
            c.0 += 1;
        } else if l.starts_with("  ") {
            if l[2..].split(' ').nth(1) == Some("s") {
                c.2 += 1;
            } else {
                c.1 += 1;
            }
        }
        v.push(c);
    }
    v
}

/// Lines of several scans mixed on stderr: every one that can be read has to
/// be true for one of the scans. Returns how many can.
fn judge_progress(err: &[u8], jobs: &[(Job, Vec<u8>)], what: &str) -> u64 {
    let scans: Vec<(Vec<Counts>, String)> = jobs
        .iter()
        .filter(|(j, _)| matches!(j, Job::Scan(_, o) if o.progress))
        .map(|(_, w)| (line_counts(w), String::from_utf8_lossy(&w[w.len() - 65..][..8]).into_owned()))
        .collect();
    let s = String::from_utf8_lossy(err);
    let mut n = 0;
    for seg in s.split_inclusive(|c| c == '\r' || c == '\n') {
        let Some(c) = counts(seg) else { continue };
        n += 1;
        let done = seg.ends_with('\n');
        let ok = scans.iter().any(|(p, f)| if done { *p.last().unwrap() == c && seg.contains(&f[..]) } else { p.contains(&c) });
        if !ok {
            violation(&format!("{} at the same time: {:?} is true for none of them", what, seg));
        }
    }
    n
}

/// All of them in one process, interleaved in every way up to the bound.
fn together(ctx: &mut Ctx, what: &str, shards: u64, bound: u32, sc: sched::Config, mk: &dyn Fn(&mut Ctx) -> (Vec<(Job, Vec<u8>)>, Vec<PathBuf>)) {
    let group = kit::hash::fnv(format!("{} {:?}", what, sc).as_bytes());
    for sh in 0..shards {
        ctx.case(|| format!("at the same time: {}, bound {}, shard {}/{}", what, bound, sh, shards), |ctx| {
            ctx.set_group(group);
            let (jobs, roots) = mk(ctx);
            ctx.explore(Bounds::new(bound).shard(sh, shards), |ctx| {
                let js: Vec<Job> = jobs.iter().map(|x| x.0.clone()).collect();
                // the clock goes 30 ms at every reading
                CLOCK_STEP.store(30_000_000, std::sync::atomic::Ordering::SeqCst);
                let (res, rep) = with_env(&mut NoEnv, || {
                    sched::run(sc, deadlock, || {
                        cut(|| {
                            let pool = CpuPool::new(js.len());
                            let futs: Vec<_> = js[1..].iter().cloned().map(|j| pool.spawn_fn(move || Ok::<_, ()>(perform(&j)))).collect();
                            let mut v = vec![perform(&js[0])];
                            for f in futs {
                                v.push(f.wait().unwrap());
                            }
                            v
                        })
                    })
                });
                CLOCK_STEP.store(0, std::sync::atomic::Ordering::SeqCst);
                match res {
                    Err(p) => violation(&format!("{} at the same time: panic: {}", what, p)),
                    Ok(v) => {
                        for (i, (got, (j, want))) in v.iter().zip(&jobs).enumerate() {
                            check(got == want, || format!("{} at the same time: number {} ({}) differs from what it gives alone: {}", what, i, kit::json::brief(format!("{:?}", j).as_bytes()), diff(got, want)));
                        }
                    }
                }
                let err = kit::interpose::take_stderr();
                ctx.add("progress_lines", judge_progress(&err, &jobs, what));
                tally_rep(ctx, &rep);
                ctx.eval();
            });
            ctx.sample(|| format!("{} at the same time", what));
            for r in &roots {
                wipe(r);
            }
        });
    }
}

fn tree1() -> Node {
    Node::dir().with(b"a", Node::file(b"1")).with(b"d", Node::dir().with(b"l", Node::link(b"x")))
}
fn tree2() -> Node {
    Node::dir().with(b"a", Node::exe(b"22")).with(b"c", Node::dir())
}

fn at_once(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let fine = sched::Config { main_syscalls: true, free_start: false, block_cost: 1, ..sched::Config::default() };
    let confs: Vec<(usize, usize, bool)> = vec![(0, 0, false), (0, 0, true), (0, 2, false), (2, 2, false), (2, 2, true)];
    for (n1, n2, same) in confs {
        for h in [Ht::Sha, Ht::B2] {
            if h != Ht::Sha && (n1, n2) != (0, 0) && !th {
                continue;
            }
            let what = format!("scans with {} and {} threads of {}, {:?}", n1, n2, if same { "the same tree" } else { "two trees" }, h);
            let bound = match (n1 + n2, th) {
                (0, false) => 3,
                (0, true) => 4,
                (4, true) => 3,
                (2, true) => 3,
                _ => 2,
            };
            together(ctx, &what, 8, bound, fine, &|ctx| {
                let (r1, r2) = (ctx.fresh("t"), ctx.fresh("u"));
                make(&tree1(), &r1);
                if !same {
                    make(&tree2(), &r2);
                }
                let t2 = if same { tree1() } else { tree2() };
                let b = if same { r1.clone() } else { r2.clone() };
                let mut o1 = Opts::new(h).threads(n1);
                o1.progress = n1 > 0;
                let jobs = vec![
                    (Job::Scan(r1.clone(), o1), index(&tree1(), h)),
                    (Job::Scan(b, Opts::new(h).threads(n2)), index(&t2, h)),
                ];
                (jobs, if same { vec![r1] } else { vec![r1, r2] })
            });
        }
    }
    for (n2, same) in [(0, false), (0, true), (2, false)] {
        let what = format!("scans with progress, 0 and {} threads, of {}", n2, if same { "the same tree" } else { "two trees" });
        let bound = if n2 == 0 { ctx.pick(2, 3) } else { ctx.pick(1, 2) };
        together(ctx, &what, 4, bound, fine, &|ctx| {
            let (r1, r2) = (ctx.fresh("t"), ctx.fresh("u"));
            let t1 = tree1().with(b"b", Node::file(b"3"));
            make(&t1, &r1);
            let t2 = if same { t1.clone() } else { tree2().with(b"b", Node::exe(b"")) };
            make(&t2, &r2);
            let mut o1 = Opts::new(Ht::Sha);
            o1.progress = true;
            let mut o2 = Opts::new(Ht::B2).threads(n2);
            o2.progress = true;
            let jobs = vec![
                (Job::Scan(r1.clone(), o1), index(&t1, Ht::Sha)),
                (Job::Scan(r2.clone(), o2), index(&t2, Ht::B2)),
            ];
            (jobs, vec![r1, r2])
        });
    }
    // everything else, in pairs and all together
    let i1 = index(&Node::dir().with(b"f", Node::file(b"x")), Ht::Sha);
    let i2 = index(&Node::dir().with(b"l", Node::link(b"a b")), Ht::B2);
    let cut1 = i1[..i1.len() - 80].to_vec();
    let alone = |j: Job| {
        let w = perform(&j);
        (j, w)
    };
    let hs = Hashes::hash_file(ht(Ht::Sha), 7, &b"some content of a file"[..]).unwrap().1;
    let hs = std::sync::Arc::new(hs);
    let all: Vec<(&str, (Job, Vec<u8>))> = vec![
        ("parse", alone(Job::Parse(i1.clone(), 50))),
        ("parse another", alone(Job::Parse(i2.clone(), 45))),
        ("parse a cut one", alone(Job::Parse(cut1, 60))),
        ("emit", alone(Job::Emit(i1.clone()))),
        ("emit another", alone(Job::Emit(i2.clone()))),
        ("hash", alone(Job::Hash(Ht::Sha, 7, b"some content of a file".to_vec()))),
        ("hash another", alone(Job::Hash(Ht::B2, 6, b"different things".to_vec()))),
        ("check", alone(Job::Check(hs.clone(), b"some content of a file".to_vec()))),
        ("check other content", alone(Job::Check(hs.clone(), b"some content of a filf".to_vec()))),
    ];
    check(all[7].1 .1 == b"Ok(true)" && all[8].1 .1 == b"Ok(false)", || "checking a file alone is wrong".into());
    check(all[3].1 .1 == i1 && all[4].1 .1 == i2, || "emitting alone is wrong".into());
    for a in 0..all.len() {
        for b in a..all.len() {
            let what = format!("{} and {}", all[a].0, all[b].0);
            together(ctx, &what, 1, ctx.pick(4, 6), fine, &|_| (vec![all[a].1.clone(), all[b].1.clone()], vec![]));
        }
    }
    together(ctx, "all of these", 8, ctx.pick(2, 3), fine, &|_| (all.iter().map(|x| x.1.clone()).collect(), vec![]));
    // with a scan
    for b in 0..all.len() {
        let what = format!("a scan and {}", all[b].0);
        together(ctx, &what, 2, ctx.pick(3, 4), fine, &|ctx| {
            let r1 = ctx.fresh("t");
            make(&tree1(), &r1);
            (vec![(Job::Scan(r1.clone(), Opts::new(Ht::Sha)), index(&tree1(), Ht::Sha)), all[b].1.clone()], vec![r1])
        });
    }
}

/// Operations on two parsers or emitters in one thread, in every order.
fn alternating(ctx: &mut Ctx) {
    let trees = [tree1(), tree2(), base(), Node::dir()];
    let idx: Vec<Vec<u8>> = trees.iter().flat_map(|t| [index(t, Ht::Sha), index(t, Ht::B2)]).collect();
    for a in 0..idx.len() {
        for b in 0..idx.len() {
            // number of orders: binomial
            ctx.case(|| format!("parsers of indexes {} and {} alternating", a, b), |ctx| {
                let (wa, wb) = (parse_ok(&idx[a]), parse_ok(&idx[b]));
                if wa.len() + wb.len() > ctx.pick(16, 20) {
                    return;
                }
                ctx.explore(Bounds::new(1000), |ctx| {
                    let mut pa = Parser::new(io::Cursor::new(&idx[a][..])).unwrap_or_else(|e| violation(&format!("{}", e)));
                    let mut pb = Parser::new(io::Cursor::new(&idx[b][..])).unwrap_or_else(|e| violation(&format!("{}", e)));
                    let (mut ia, mut ib) = (pa.iter(), pb.iter());
                    let (mut ea, mut eb) = (Vec::new(), Vec::new());
                    let mut outs = (Vec::new(), Vec::new());
                    {
                        let (ha, hb) = ([Ht::Sha, Ht::B2][a % 2], [Ht::Sha, Ht::B2][b % 2]);
                        let mut ma = Emitter::new(ht(ha), BS as u64, &mut outs.0).unwrap();
                        let mut mb = Emitter::new(ht(hb), BS as u64, &mut outs.1).unwrap();
                        let (mut da, mut db) = (false, false);
                        while !da || !db {
                            let first = if da { false } else if db { true } else { choose(2, 1, LBL) == 0 };
                            let (it, m, v, d) = if first { (&mut ia, &mut ma, &mut ea, &mut da) } else { (&mut ib, &mut mb, &mut eb, &mut db) };
                            match cut(|| it.next()) {
                                Ok(Some(Ok(e))) => {
                                    feed(m, &e).unwrap();
                                    v.push(rent(&e));
                                }
                                Ok(None) => {
                                    m.finish().unwrap();
                                    *d = true;
                                }
                                r => violation(&format!("two parsers alternating: {:?}", r)),
                            }
                        }
                    }
                    check(ea == wa && eb == wb, || "two parsers alternating give other entries than alone".into());
                    check(outs.0 == idx[a] && outs.1 == idx[b], || format!("two emitters alternating: {} and {}", diff(&outs.0, &idx[a]), diff(&outs.1, &idx[b])));
                    ctx.eval();
                });
                ctx.distinct((a * 100 + b) as u64);
            });
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an execution is a history of scans of one tree that is changed in between, or a use of a scan, parser or emitter after another one failed, or several of them at the same time under one interleaving; each of them has to give what the reference model (or the same use alone) gives");
    ctx.text("bounds", "all sequences of 4 (thorough: 5) of 12 changes that keep sizes, times and (mostly) inodes, scanned after each one with the same configuration, threads {0,2}; every single failing system call and every failing byte of the output, followed by scans of two trees; every cut of an index and every failing byte of an emitter, followed by a good one; pairs of scans (threads {0,2}, same or different trees), parsers, emitters, hashers and checkers in threads of their own, switching at every system call, read and write, up to 3 preemptions (two threaded scans 2, one 2; parsers and emitters 4; thorough: 4, 3, 3, 6), and nine of them at once with 2 (thorough 3); two parsers feeding two emitters alternating in every order for indexes of up to 16 (thorough 20) entries together");
    ctx.text("assumptions", "switches happen at system calls, at calls of readers and writers and at waits, not in between");
    histories(ctx);
    after_failures(ctx);
    at_once(ctx);
    alternating(ctx);
}
