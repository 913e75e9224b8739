//! Running a check: worker processes that share the cases of a check, the
//! watchdog, counters, violations, replay files and the evidence file.
use crate::json::esc;
use crate::mc::explore::{self, Bounds};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{exit, Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Check {
    pub id: &'static str,
    /// level field of the evidence file
    pub level: &'static str,
    pub run: fn(&mut Ctx),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

const SLOTS: usize = 64;
const W: usize = 600; // words per worker
const MAXW: usize = 64;
const HANG_SECS: u64 = 180;

/// Shared page: claims, stop flag, per-worker progress.
struct Shm(*mut u64);
unsafe impl Sync for Shm {}
unsafe impl Send for Shm {}
impl Shm {
    fn open(path: &Path, create: bool) -> Shm {
        let len = (SLOTS + W * MAXW) * 8;
        let f = fs::OpenOptions::new().read(true).write(true).create(create).open(path).expect("shm");
        if create {
            f.set_len(len as u64).unwrap();
        }
        use std::os::unix::io::AsRawFd;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Shm(p as *mut u64)
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.0.add(i) as *const AtomicU64) }
    }
    fn w(&self, worker: usize, i: usize) -> &AtomicU64 {
        self.at(SLOTS + worker * W + i)
    }
    fn set_desc(&self, worker: usize, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min((W - 8) * 8);
        unsafe {
            let base = self.0.add(SLOTS + worker * W + 8) as *mut u8;
            std::ptr::copy_nonoverlapping(b.as_ptr(), base, n);
        }
        self.w(worker, 3).store(n as u64, Ordering::SeqCst);
    }
    fn desc(&self, worker: usize) -> String {
        let n = self.w(worker, 3).load(Ordering::SeqCst) as usize;
        let s = unsafe {
            let base = self.0.add(SLOTS + worker * W + 8) as *const u8;
            std::slice::from_raw_parts(base, n.min((W - 8) * 8))
        };
        String::from_utf8_lossy(s).into_owned()
    }
}
// shared words
const NEXT: usize = 0;
const STOP: usize = 1;
// worker words
const BEAT: usize = 0;
const CUT: usize = 1;
const CASE: usize = 2;

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub worker: usize,
    pub scratch: PathBuf,
    shm: Shm,
    idx: u64,
    lo: u64,
    hi: u64,
    chunk: u64,
    only: Option<u64>,
    choices: Option<Vec<u32>>,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
    listed: Vec<(String, String)>,
    text: BTreeMap<String, String>,
    capped: bool,
    diverged: u64,
    replay_detail: Vec<(String, String)>,
    desc: String,
    group: Option<u64>,
}

struct Slot(UnsafeCell<*mut Ctx>);
unsafe impl Sync for Slot {}
static CUR: Slot = Slot(UnsafeCell::new(std::ptr::null_mut()));
struct PanicMsg(UnsafeCell<String>);
unsafe impl Sync for PanicMsg {}
static LAST_PANIC: PanicMsg = PanicMsg(UnsafeCell::new(String::new()));

fn cur() -> &'static mut Ctx {
    unsafe { &mut **CUR.0.get() }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// Report a violation of the property being checked and end this worker.
pub fn violation(msg: &str) -> ! {
    crate::interpose::unhooked(|| {
        let c = cur();
        let choices = if explore::active() { explore::current_choices() } else { vec![] };
        let how = if explore::active() { explore::describe_choices() } else { String::new() };
        let dir = verif_dir().join("replay");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.json", c.id, c.idx, std::process::id()));
        let mut detail = String::new();
        for (k, v) in &c.replay_detail {
            detail.push_str(&format!(",\n {}: {}", esc(k), esc(v)));
        }
        let ch: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
        let text = format!(
            "{{\"property\": {}, \"tier\": {}, \"case\": {}, \"choices\": [{}],\n \"case_description\": {},\n \"schedule\": {},\n \"message\": {}{}}}\n",
            esc(c.id),
            esc(if c.tier == Tier::Quick { "quick" } else { "thorough" }),
            c.idx, ch.join(","), esc(&c.desc), esc(&how), esc(msg), detail
        );
        if c.only.is_some() {
            println!("reproduced: {}\n  case: {}\n  schedule: {}", msg, c.desc, how);
            let _ = std::io::stdout().flush();
            unsafe { libc::_exit(1) }
        }
        let _ = fs::write(&path, text);
        let _ = fs::write(
            c.scratch.parent().unwrap().join(format!("violation-{}", c.worker)),
            format!("{}\n{}\n{}\n{}\n", path.display(), msg.replace('\n', " "), c.desc.replace('\n', " "), how),
        );
        c.shm.at(STOP).store(1, Ordering::SeqCst);
        unsafe { libc::_exit(1) }
    })
}

/// Machinery failure (not a verdict).
pub fn broken(msg: &str) -> ! {
    crate::interpose::unhooked(|| {
        eprintln!("mc: machinery error: {}", msg);
        unsafe { libc::_exit(3) }
    })
}

pub fn check(cond: bool, msg: impl FnOnce() -> String) {
    if !cond {
        violation(&msg());
    }
}

/// Handler for `sched::run`.
pub fn deadlock(msg: &str) -> ! {
    violation(&format!("the scan never terminates: {}", msg))
}

/// Run code under test; a panic is returned as text.
pub fn cut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let c = cur();
    let was = c.shm.w(c.worker, CUT).swap(1, Ordering::SeqCst);
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    c.shm.w(c.worker, CUT).store(was, Ordering::SeqCst);
    r.map_err(|_| unsafe { (*LAST_PANIC.0.get()).clone() })
}

/// Run code under test; a panic is a violation.
pub fn cut_ok<T>(f: impl FnOnce() -> T) -> T {
    match cut(f) {
        Ok(v) => v,
        Err(e) => violation(&format!("panic in the library: {}", e)),
    }
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough one
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() { t } else { q }
    }
    /// How many cases a worker claims at once from here on.
    pub fn chunk(&mut self, n: u64) {
        self.chunk = n;
    }
    pub fn stopping(&self) -> bool {
        self.shm.at(STOP).load(Ordering::Relaxed) != 0
    }
    pub fn beat(&self) {
        self.shm.w(self.worker, BEAT).fetch_add(1, Ordering::Relaxed);
    }
    fn mine(&mut self) -> bool {
        let i = self.idx;
        if let Some(o) = self.only {
            return o == i;
        }
        if i < self.lo {
            return false;
        }
        while i >= self.hi {
            self.lo = self.shm.at(NEXT).fetch_add(self.chunk, Ordering::SeqCst);
            self.hi = self.lo + self.chunk;
        }
        i >= self.lo
    }
    /// One case of the enumeration: runs in exactly one worker.
    pub fn case(&mut self, desc: impl FnOnce() -> String, f: impl FnOnce(&mut Ctx)) {
        if self.mine() {
            if self.stopping() {
                self.finish();
            }
            self.desc = desc();
            self.group = None;
            self.replay_detail.clear();
            self.shm.set_desc(self.worker, &self.desc);
            self.shm.w(self.worker, CASE).store(self.idx, Ordering::SeqCst);
            self.beat();
            let t0 = Instant::now();
            f(self);
            if std::env::var_os("MC_TRACE").is_some() && t0.elapsed().as_millis() >= 200 {
                eprintln!("[{} w{}] {} ms, executions so far {}: {}", self.idx, self.worker, t0.elapsed().as_millis(),
                    self.counters.get("executions").copied().unwrap_or(0), self.desc);
            }
            self.add("cases", 1);
        }
        self.idx += 1;
    }
    /// Cheap cases: no description is stored unless something fails.
    pub fn fast(&mut self, f: impl FnOnce(&mut Ctx)) {
        if self.mine() {
            if self.idx & 63 == 0 {
                if self.stopping() {
                    self.finish();
                }
                self.desc.clear();
                self.replay_detail.clear();
                self.shm.w(self.worker, CASE).store(self.idx, Ordering::Relaxed);
                self.beat();
            }
            f(self);
        }
        self.idx += 1;
    }
    pub fn case_no(&self) -> u64 {
        self.idx
    }
    /// Cases that explore parts of one state space share a group.
    pub fn set_group(&mut self, g: u64) {
        self.group = Some(g);
    }
    pub fn group(&self) -> Option<u64> {
        self.group
    }
    pub fn add(&mut self, name: &str, n: u64) {
        match self.counters.get_mut(name) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(name.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.maxima.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn eval(&mut self) {
        self.add("evaluations", 1);
    }
    pub fn distinct(&mut self, h: u64) {
        self.distinct.insert(h);
    }
    pub fn outcome(&mut self, h: u64) {
        self.outcomes.insert(h);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = s();
            self.samples.push(s);
        }
    }
    pub fn detail(&mut self, k: &str, v: String) {
        self.replay_detail.retain(|(a, _)| a != k);
        self.replay_detail.push((k.to_string(), v));
    }
    pub fn set_desc(&mut self, s: String) {
        self.shm.set_desc(self.worker, &s);
        self.desc = s;
    }
    /// Free text fields of the coverage record ("rule", "bounds", ...).
    pub fn text(&mut self, k: &str, v: &str) {
        self.text.insert(k.to_string(), v.to_string());
    }
    /// A listed known finding was met; an unlisted one is a violation.
    pub fn known(&mut self, key: &str, msg: impl FnOnce() -> String) {
        if self.listed.iter().any(|(k, _)| k == key) {
            *self.known.entry(key.to_string()).or_insert(0) += 1;
        } else {
            violation(&msg());
        }
    }
    pub fn explore(&mut self, b: Bounds, mut run: impl FnMut(&mut Ctx)) {
        if let Some(ch) = self.choices.clone() {
            explore::replay(&ch, || run(self));
            return;
        }
        let mut div = 0;
        let st = {
            let this: *mut Ctx = self;
            explore::explore(b, || {
                let me = unsafe { &mut *this };
                run(me);
                me.beat();
                if let Some(m) = explore::divergence() {
                    div += 1;
                    if me.samples.len() < 5 {
                        me.samples.push(format!("{} in {}", m, me.desc));
                    }
                }
                !me.stopping()
            })
        };
        self.diverged += div;
        if st.capped {
            self.capped = true;
            self.add("capped_explorations", 1);
        }
        self.add("executions", st.execs);
        self.add("choice_points", st.choices);
        self.max("max_choice_points_per_execution", st.max_points);
    }
    /// An empty scratch directory of this worker.
    pub fn fresh(&mut self, name: &str) -> PathBuf {
        let p = self.scratch.join(name);
        crate::model::wipe(&p);
        p
    }
    fn finish(&mut self) -> ! {
        let base = self.scratch.parent().unwrap().to_path_buf();
        let mut s = String::new();
        for (k, v) in &self.counters {
            s.push_str(&format!("C\t{}\t{}\n", k, v));
        }
        for (k, v) in &self.maxima {
            s.push_str(&format!("M\t{}\t{}\n", k, v));
        }
        for k in &self.samples {
            s.push_str(&format!("S\t{}\n", k.replace(['\n', '\t'], " ")));
        }
        for (k, v) in &self.known {
            s.push_str(&format!("K\t{}\t{}\n", k, v));
        }
        for (k, v) in &self.text {
            s.push_str(&format!("T\t{}\t{}\n", k, v.replace(['\n', '\t'], " ")));
        }
        s.push_str(&format!("D\t{}\t{}\n", self.capped as u8, self.diverged));
        for (name, set) in [("distinct", &self.distinct), ("outcomes", &self.outcomes)] {
            let mut b = Vec::with_capacity(set.len() * 8);
            for h in set {
                b.extend_from_slice(&h.to_le_bytes());
            }
            fs::write(base.join(format!("{}-{}", name, self.worker)), b).unwrap();
        }
        fs::write(base.join(format!("result-{}", self.worker)), s).unwrap();
        crate::model::wipe(&self.scratch);
        unsafe { libc::_exit(0) }
    }
}

fn listed(id: &str) -> Vec<(String, String)> {
    let text = fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in text.lines() {
        let mut it = l.splitn(4, ' ');
        if it.next() == Some("known:")
            && it.next() == Some(&format!("property={}", id))
        {
            if let (Some(k), Some(t)) = (it.next(), it.next()) {
                if let Some(k) = k.strip_prefix("id=") {
                    v.push((k.to_string(), t.to_string()));
                }
            }
        }
    }
    v
}

fn quiet_panics() {
    panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe {
            *LAST_PANIC.0.get() = format!("{} at {}", msg, loc);
        }
    }));
}

fn run_worker(c: &Check, tier: Tier, seed: u64, worker: usize, base: &Path, only: Option<u64>, choices: Option<Vec<u32>>) -> ! {
    quiet_panics();
    let scratch = base.join(format!("w{}", worker));
    fs::create_dir_all(&scratch).unwrap();
    let mut ctx = Ctx {
        id: c.id,
        tier,
        seed,
        worker,
        scratch,
        shm: Shm::open(&base.join("shm"), only.is_some()),
        idx: 0,
        lo: 0,
        hi: 0,
        chunk: 1,
        only,
        choices,
        counters: BTreeMap::new(),
        maxima: BTreeMap::new(),
        distinct: HashSet::new(),
        outcomes: HashSet::new(),
        samples: vec![],
        known: BTreeMap::new(),
        listed: listed(c.id),
        text: BTreeMap::new(),
        capped: false,
        diverged: 0,
        replay_detail: vec![],
        desc: String::new(),
        group: None,
    };
    unsafe { *CUR.0.get() = &mut ctx };
    // a failing statx once, so that std knows statx exists
    let _ = fs::metadata("/nonexistent-warm-up");
    // num_cpus reads /proc and caches the answer
    let _ = futures_cpupool::Builder::new();
    let r = panic::catch_unwind(AssertUnwindSafe(|| (c.run)(&mut ctx)));
    if r.is_err() {
        let m = unsafe { (*LAST_PANIC.0.get()).clone() };
        eprintln!("mc: machinery error in {} worker {}, case {} ({}): panic: {}", c.id, worker, ctx.idx, ctx.desc, m);
        unsafe { libc::_exit(3) }
    }
    if only.is_some() {
        println!("case {} of {}: no violation", only.unwrap(), c.id);
        crate::model::wipe(base);
        exit(0);
    }
    ctx.finish()
}

pub fn scratch_base() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let name = format!("ds-mc-{}", std::process::id());
    if shm.is_dir() {
        let p = shm.join(&name);
        if fs::create_dir_all(&p).is_ok() {
            return p;
        }
    }
    let p = std::env::temp_dir().join(&name);
    fs::create_dir_all(&p).expect("no scratch space");
    p
}

fn json_field(text: &str, key: &str) -> Option<String> {
    let i = text.find(&format!("\"{}\":", key))? + key.len() + 3;
    let rest = text[i..].trim_start();
    if let Some(r) = rest.strip_prefix('"') {
        Some(r[..r.find('"')?].to_string())
    } else if let Some(r) = rest.strip_prefix('[') {
        Some(r[..r.find(']')?].to_string())
    } else {
        Some(rest.split(|c: char| c == ',' || c == '}' || c == '\n').next()?.trim().to_string())
    }
}

fn status_text(s: std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match s.signal() {
        Some(n) => format!("signal {}", n),
        None => format!("status {:?}", s.code()),
    }
}

/// Entry point of the `mc` binary.
pub fn main(checks: &[Check]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let arg = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let tier = match arg("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if let Some(f) = arg("--replay") {
        let text = fs::read_to_string(&f).expect("replay file");
        let id = json_field(&text, "property").unwrap();
        let case: u64 = json_field(&text, "case").unwrap().parse().unwrap();
        let ch: Vec<u32> = json_field(&text, "choices")
            .unwrap_or_default()
            .split(',')
            .filter_map(|s| s.trim().parse().ok())
            .collect();
        let tier = if json_field(&text, "tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
        let c = checks.iter().find(|c| c.id == id).expect("unknown property");
        let base = scratch_base();
        // run in a child so that scratch space is removed whatever happens
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            run_worker(c, tier, seed, 0, &base, Some(case), if ch.is_empty() { None } else { Some(ch) });
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        crate::model::wipe(&base);
        exit(if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 1 });
    }
    let id = args.get(1).cloned().unwrap_or_default();
    let c = match checks.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("usage: mc <property> [--tier quick|thorough] [--jobs N] | --replay FILE");
            for c in checks {
                eprintln!("  {} ({})", c.id, c.level);
            }
            exit(2)
        }
    };
    if let Some(w) = arg("--worker") {
        let base = PathBuf::from(arg("--base").unwrap());
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
        pin(w.parse().unwrap());
        run_worker(c, tier, seed, w.parse().unwrap(), &base, None, None);
    }
    let jobs: usize = arg("--jobs").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
    });
    parent(c, tier, seed, jobs)
}

/// One CPU per worker: hand-overs between its threads stay cheap.
fn pin(w: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[w % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &one);
    }
}

fn parent(c: &Check, tier: Tier, seed: u64, jobs: usize) -> ! {
    let start = Instant::now();
    let base = scratch_base();
    let shm = Shm::open(&base.join("shm"), true);
    let exe = std::env::current_exe().unwrap();
    let evidence = verif_dir().join("evidence").join(format!("{}.json", c.id));
    let _ = fs::remove_file(&evidence);
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut kids: Vec<Option<Child>> = (0..jobs)
        .map(|w| {
            Some(
                Command::new(&exe)
                    .args([c.id, "--tier", tname, "--worker", &w.to_string(), "--base"])
                    .arg(&base)
                    .env("VERIF_SEED", seed.to_string())
                    .stdin(Stdio::null())
                    .spawn()
                    .expect("worker"),
            )
        })
        .collect();
    let mut last: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); jobs];
    let mut crash: Option<(usize, String)> = None;
    let mut error: Option<String> = None;
    loop {
        let mut alive = 0;
        for w in 0..jobs {
            let done = match kids[w] {
                None => continue,
                Some(ref mut k) => k.try_wait().unwrap(),
            };
            match done {
                None => {
                    alive += 1;
                    let b = shm.w(w, BEAT).load(Ordering::SeqCst);
                    if b != last[w].0 {
                        last[w] = (b, Instant::now());
                    } else if last[w].1.elapsed() > Duration::from_secs(HANG_SECS) {
                        let in_cut = shm.w(w, CUT).load(Ordering::SeqCst) != 0;
                        let _ = kids[w].as_mut().unwrap().kill();
                        let _ = kids[w].as_mut().unwrap().wait();
                        kids[w] = None;
                        shm.at(STOP).store(1, Ordering::SeqCst);
                        if in_cut {
                            crash.get_or_insert((w, format!("no progress for {} s inside the library", HANG_SECS)));
                        } else {
                            error.get_or_insert(format!("worker {} hangs outside the library: {}", w, shm.desc(w)));
                        }
                    }
                }
                Some(st) => {
                    kids[w] = None;
                    if st.success() || st.code() == Some(1) {
                        continue;
                    }
                    shm.at(STOP).store(1, Ordering::SeqCst);
                    use std::os::unix::process::ExitStatusExt;
                    let in_cut = shm.w(w, CUT).load(Ordering::SeqCst) != 0;
                    let sig = st.signal();
                    if in_cut && matches!(sig, Some(libc::SIGABRT) | Some(libc::SIGSEGV) | Some(libc::SIGILL) | Some(libc::SIGBUS) | Some(libc::SIGFPE) | Some(libc::SIGTRAP) | Some(libc::SIGSYS)) {
                        crash.get_or_insert((w, format!("the library ended the process ({})", status_text(st))));
                    } else {
                        error.get_or_insert(format!("worker {} ended with {} at: {}", w, status_text(st), shm.desc(w)));
                    }
                }
            }
        }
        if alive == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // collect
    let mut violations: Vec<(String, String, String, String)> = Vec::new();
    for w in 0..jobs {
        if let Ok(t) = fs::read_to_string(base.join(format!("violation-{}", w))) {
            let mut l = t.lines().map(|s| s.to_string());
            let mut g = || l.next().unwrap_or_default();
            violations.push((g(), g(), g(), g()));
        }
    }
    if let Some((w, msg)) = crash {
        let dir = verif_dir().join("replay");
        let _ = fs::create_dir_all(&dir);
        let case = shm.w(w, CASE).load(Ordering::SeqCst);
        let path = dir.join(format!("{}-{}-crash-{}.json", c.id, case, std::process::id()));
        let _ = fs::write(
            &path,
            format!(
                "{{\"property\": {}, \"tier\": {}, \"case\": {}, \"choices\": [],\n \"case_description\": {},\n \"message\": {}}}\n",
                esc(c.id), esc(tname), case, esc(&shm.desc(w)), esc(&msg)
            ),
        );
        violations.push((path.display().to_string(), msg, shm.desc(w), String::new()));
    }
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<String, u64> = BTreeMap::new();
    let mut text: BTreeMap<String, String> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut capped = false;
    let mut diverged = 0;
    let mut sets: [HashSet<u64>; 2] = [HashSet::new(), HashSet::new()];
    let mut complete = true;
    for w in 0..jobs {
        let t = match fs::read_to_string(base.join(format!("result-{}", w))) {
            Ok(t) => t,
            Err(_) => {
                complete = false;
                continue;
            }
        };
        for l in t.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "C" => *counters.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                "M" => {
                    let e = maxima.entry(f[1].into()).or_insert(0);
                    *e = (*e).max(f[2].parse().unwrap());
                }
                "S" => samples.push(f[1].into()),
                "K" => *known.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                "T" => {
                    text.insert(f[1].into(), f[2].into());
                }
                "D" => {
                    capped |= f[1] == "1";
                    diverged += f[2].parse::<u64>().unwrap();
                }
                _ => {}
            }
        }
        for (i, name) in ["distinct", "outcomes"].iter().enumerate() {
            if let Ok(b) = fs::read(base.join(format!("{}-{}", name, w))) {
                for ch in b.chunks_exact(8) {
                    sets[i].insert(u64::from_le_bytes(ch.try_into().unwrap()));
                }
            }
        }
    }
    crate::model::wipe(&base);
    samples.truncate(6);
    let wall = start.elapsed().as_secs_f64();
    // evidence
    let mut cov: Vec<String> = Vec::new();
    let nd = sets[0].len() as u64;
    match c.level {
        "model_checking" => {
            if nd > 0 {
                cov.push(format!("\"states\": {}", nd));
            }
        }
        _ => cov.push(format!("\"distinct_nontrivial\": {}", nd)),
    }
    if !sets[1].is_empty() {
        cov.push(format!("\"distinct_outcomes\": {}", sets[1].len()));
    }
    for (k, v) in counters.iter().chain(maxima.iter()) {
        cov.push(format!("{}: {}", esc(k), v));
    }
    let assumptions = text.remove("assumptions");
    for (k, v) in &text {
        cov.push(format!("{}: {}", esc(k), esc(v)));
    }
    cov.push(format!("\"samples\": [{}]", samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")));
    if diverged > 0 {
        cov.push(format!("\"replay_divergences\": {}", diverged));
    }
    cov.push(format!("\"exhaustive\": {}", !capped && diverged == 0 && complete && violations.is_empty()));
    let ass: Vec<String> = assumptions.map(|a| a.split(" | ").map(esc).collect()).unwrap_or_default();
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}}}\n",
        esc(c.id), esc(tname), seed, esc(c.level), cov.join(",\n  "), ass.join(", "), wall, violations.len()
    );
    let _ = fs::create_dir_all(evidence.parent().unwrap());
    fs::write(&evidence, ev).unwrap();
    for (k, t) in listed(c.id) {
        if let Some(n) = known.get(&k) {
            println!("KNOWN-FINDING: property={} {} [{} cases of this run]", c.id, t, n);
        }
    }
    if !violations.is_empty() {
        for (path, msg, desc, how) in &violations {
            println!("VIOLATION property={} replay={}", c.id, path);
            println!("  {}", crate::json::brief(msg.as_bytes()));
            println!("  case: {}", crate::json::brief(desc.as_bytes()));
            if !how.is_empty() {
                println!("  schedule: {}", how);
            }
        }
        exit(1);
    }
    if let Some(e) = error {
        eprintln!("mc: {}", e);
        exit(2);
    }
    if !complete {
        eprintln!("mc: a worker left no result");
        exit(2);
    }
    println!(
        "{} ({}): held on everything explored; {} in {:.1} s",
        c.id,
        tname,
        counters.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" "),
        wall
    );
    exit(0)
}
