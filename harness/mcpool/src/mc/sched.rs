//! Cooperative scheduler: real OS threads, of which exactly one (the holder
//! of the baton) runs at any time; at every scheduling point the explorer
//! decides who runs next.
//!
//! Logical threads are the main (scanning) thread and every started pool
//! task. A pool of size N runs at most N tasks at once and starts queued
//! tasks in FIFO order, as the channel of the real pool does.
use super::explore::choose;
use super::label;
use std::cell::{Cell, UnsafeCell};
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
use std::sync::Arc;

pub type Job = Box<dyn FnOnce() + Send>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Runnable,
    /// waits on a futex word; runnable again when the word changes or a wake
    /// arrives
    Blocked { addr: usize, val: u32, woken: bool, timed: bool },
    Done,
}

struct Th {
    st: St,
    os: Arc<Os>,
    pool: usize,
}

/// One OS thread with its private baton word.
struct Os {
    word: AtomicU32,
    job: UnsafeCell<Option<(Job, usize)>>,
}
unsafe impl Sync for Os {}
unsafe impl Send for Os {}

struct Pool {
    size: usize,
    running: usize,
    queue: VecDeque<Job>,
}

/// How the scheduler explores.
#[derive(Clone, Copy, Debug)]
pub struct Config {
    /// cost of taking the baton from a thread that could go on
    pub preempt: u8,
    /// scheduling points at intercepted system calls of pool tasks
    pub task_syscalls: bool,
    /// scheduling points at intercepted system calls of the main thread
    pub main_syscalls: bool,
    /// scheduling point at the start of a task is free
    pub free_start: bool,
    /// the first `stall` tasks run only when nothing else can (0 = none)
    pub stall: usize,
    /// cost of a choice other than the first when the running thread cannot
    /// go on (0: every such choice is explored)
    pub block_cost: u8,
    /// stalled tasks take turns when nothing else can run
    pub turns: bool,
}

impl Default for Config {
    fn default() -> Config {
        Config { preempt: 1, task_syscalls: true, main_syscalls: false, free_start: true, stall: 0, block_cost: 0, turns: false }
    }
}

struct S {
    active: bool,
    cfg: Config,
    threads: Vec<Th>,
    cur: usize,
    pools: Vec<Pool>,
    free_os: Vec<Arc<Os>>,
    spawned: u64,
    outstanding: u64,
    max_outstanding: u64,
    /// (task, has a result) for tasks whose result has not been taken
    pending: Vec<(u64, bool)>,
    ahead: Vec<(u64, u64)>,
    switches: u64,
    started: u64,
    max_running: u64,
    draining: bool,
    on_deadlock: Option<fn(&str) -> !>,
    order: Vec<u16>,
    /// points passed by each logical thread
    steps: Vec<u32>,
    /// hash of the scheduler state at every scheduling point
    states: Vec<u64>,
    points: u64,
    /// consecutive points of the running thread
    same: u32,
}

struct G(UnsafeCell<S>);
unsafe impl Sync for G {}
static G_: G = G(UnsafeCell::new(S {
    active: false,
    cfg: Config { preempt: 1, task_syscalls: true, main_syscalls: false, free_start: true, stall: 0, block_cost: 0, turns: false },
    threads: Vec::new(),
    cur: 0,
    pools: Vec::new(),
    free_os: Vec::new(),
    spawned: 0,
    outstanding: 0,
    max_outstanding: 0,
    pending: Vec::new(),
    ahead: Vec::new(),
    switches: 0,
    started: 0,
    max_running: 0,
    draining: false,
    on_deadlock: None,
    order: Vec::new(),
    steps: Vec::new(),
    states: Vec::new(),
    points: 0,
    same: 0,
}));

#[allow(clippy::mut_from_ref)]
fn g() -> &'static mut S {
    unsafe { &mut *G_.0.get() }
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

static INACTIVE_POOLS: AtomicUsize = AtomicUsize::new(0);

/// Logical id of the calling thread under the scheduler.
pub fn me() -> Option<usize> {
    let m = ME.with(|m| m.get());
    if m == usize::MAX { None } else { Some(m) }
}

fn controlled() -> bool {
    g().active && ME.with(|m| m.get()) != usize::MAX
}

/// Raw futex calls: they must not go through the interposed `syscall`.
#[cfg(target_arch = "x86_64")]
unsafe fn raw_futex(addr: *const u32, op: i32, val: u32) -> isize {
    let ret: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") 202isize => ret,
        in("rdi") addr,
        in("rsi") op as isize,
        in("rdx") val as isize,
        in("r10") 0usize,
        in("r8") 0usize,
        in("r9") 0usize,
        lateout("rcx") _,
        lateout("r11") _,
        options(nostack)
    );
    ret
}

fn wait_word(w: &AtomicU32) {
    loop {
        if w.compare_exchange(1, 0, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
            return;
        }
        unsafe { raw_futex(w as *const _ as *const u32, 128, 0) };
    }
}

fn wake_word(w: &AtomicU32) {
    w.store(1, Ordering::SeqCst);
    unsafe { raw_futex(w as *const _ as *const u32, 129, 1) };
}

fn os_main(os: Arc<Os>) {
    loop {
        wait_word(&os.word);
        let (job, id) = unsafe { (*os.job.get()).take().expect("baton without a job") };
        ME.with(|m| m.set(id));
        point_cost(label::START, if g().cfg.free_start { 0 } else { g().cfg.preempt });
        job();
        let s = g();
        s.threads[id].st = St::Done;
        let p = s.threads[id].pool;
        s.pools[p].running -= 1;
        ME.with(|m| m.set(usize::MAX));
        s.free_os.push(os.clone());
        // hand over without waiting for the baton
        let next = pick(None, 0, label::END);
        give(next);
    }
}

fn new_os() -> Arc<Os> {
    let os = Arc::new(Os { word: AtomicU32::new(0), job: UnsafeCell::new(None) });
    let o = os.clone();
    std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || os_main(o))
        .expect("cannot create a scheduler thread");
    os
}

#[derive(Clone, Copy)]
enum Next {
    Thread(usize),
    Start(usize),
}

fn runnable(t: &Th) -> bool {
    match t.st {
        St::Runnable => true,
        St::Blocked { addr, val, woken, .. } => {
            woken || unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) } != val
        }
        St::Done => false,
    }
}

/// Record the state: how far each thread is, what it waits for, what is queued.
fn note_state(lab: u32) {
    let s = g();
    s.points += 1;
    if s.draining {
        return;
    }
    let mut h: u64 = 0xcbf29ce484222325;
    let mut add = |x: u64| {
        h ^= x;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    };
    for (i, t) in s.threads.iter().enumerate() {
        add(match t.st {
            St::Runnable => 1,
            St::Blocked { woken, .. } => 2 + woken as u64,
            St::Done => 4,
        });
        add(s.steps.get(i).copied().unwrap_or(0) as u64);
    }
    for p in &s.pools {
        add(p.running as u64 + 1000);
        add(p.queue.len() as u64 + 2000);
    }
    add(s.outstanding + 5000);
    add(s.cur as u64 + 9000);
    add(lab as u64);
    s.states.push(h);
}

/// Decide who runs next. `cur` is the calling thread if it can go on.
fn pick(cur: Option<usize>, cost: u8, lab: u32) -> Next {
    let s = g();
    let c = s.cur;
    if s.steps.len() <= c {
        s.steps.resize(c + 1, 0);
    }
    s.steps[c] += 1;
    note_state(lab);
    let s = g();
    let mut cand: Vec<Next> = Vec::new();
    if let Some(c) = cur {
        cand.push(Next::Thread(c));
    }
    let stalled = |id: usize| id != 0 && id <= s.cfg.stall;
    for (i, t) in s.threads.iter().enumerate() {
        if Some(i) != cur && runnable(t) && !stalled(i) {
            cand.push(Next::Thread(i));
        }
    }
    for (i, p) in s.pools.iter().enumerate() {
        if p.running < p.size && !p.queue.is_empty() {
            cand.push(Next::Start(i));
        }
    }
    if cand.is_empty() {
        // stalled threads run only when nothing else can
        for (i, t) in s.threads.iter().enumerate() {
            if runnable(t) {
                cand.push(Next::Thread(i));
            }
        }
        if s.cfg.turns {
            let k = cand.iter().take_while(|n| matches!(n, Next::Thread(i) if *i <= s.cur)).count();
            cand.rotate_left(k);
        }
    }
    if cand.is_empty() {
        // a timed wait may expire
        for (i, t) in s.threads.iter_mut().enumerate() {
            if let St::Blocked { timed: true, ref mut woken, .. } = t.st {
                *woken = true;
                cand.push(Next::Thread(i));
            }
        }
    }
    if cand.is_empty() {
        let f = s.on_deadlock.expect("deadlock without handler");
        let msg = format!(
            "deadlock: no thread can run ({} logical threads, {} queued tasks)",
            s.threads.len(),
            s.pools.iter().map(|p| p.queue.len()).sum::<usize>()
        );
        f(&msg);
    }
    let cost = if cur.is_none() { s.cfg.block_cost } else { cost };
    let i = if s.draining { 0 } else { choose(cand.len(), cost, lab) };
    cand[i]
}

/// Hand the baton to `next` (the caller then waits or ends).
fn give(next: Next) {
    let s = g();
    s.switches += 1;
    s.same = 0;
    match next {
        Next::Thread(i) => {
            s.threads[i].st = St::Runnable;
            s.cur = i;
            s.order.push(i as u16);
            wake_word(&s.threads[i].os.word);
        }
        Next::Start(p) => {
            let job = s.pools[p].queue.pop_front().unwrap();
            s.pools[p].running += 1;
            s.started += 1;
            s.max_running = s.max_running.max(s.pools.iter().map(|p| p.running as u64).sum());
            let os = s.free_os.pop().unwrap_or_else(new_os);
            let id = s.threads.len();
            unsafe { *os.job.get() = Some((job, id)) };
            s.threads.push(Th { st: St::Runnable, os: os.clone(), pool: p });
            s.cur = id;
            s.order.push(id as u16);
            wake_word(&os.word);
        }
    }
}

fn switch(me: usize, next: Next) {
    if let Next::Thread(i) = next {
        if i == me {
            g().threads[me].st = St::Runnable;
            return;
        }
    }
    let os = g().threads[me].os.clone();
    give(next);
    wait_word(&os.word);
}

fn point_cost(lab: u32, cost: u8) {
    let m = match me() {
        Some(m) if g().active => m,
        _ => return,
    };
    let stalled = m != 0 && m <= g().cfg.stall;
    g().same += 1;
    if g().same > 5000 && !g().draining {
        // fairness: a thread that only spins lets the others go on
        g().same = 0;
        g().threads[m].st = St::Done;
        let others = g().threads.iter().any(runnable) || g().pools.iter().any(|p| p.running < p.size && !p.queue.is_empty());
        if others {
            let was = std::mem::replace(&mut g().draining, true);
            let next = pick(None, 0, lab);
            g().draining = was;
            g().threads[m].st = St::Runnable;
            switch(m, next);
            return;
        }
        g().threads[m].st = St::Runnable;
    }
    let next = if stalled { pick(None, 0, lab) } else { pick(Some(m), cost, lab) };
    switch(m, next);
}

/// A scheduling point of the calling thread.
pub fn point(lab: u32) {
    if controlled() {
        point_cost(lab, g().cfg.preempt);
    }
}

/// A scheduling point at an intercepted system call.
pub fn syscall_point() {
    if !controlled() {
        return;
    }
    let c = g().cfg;
    let on = if me() == Some(0) { c.main_syscalls } else { c.task_syscalls };
    if on {
        point_cost(label::SYSCALL, c.preempt);
    }
}

/// The calling thread waits until the futex word changes or is woken.
/// Returns false if the caller is not under the scheduler.
pub fn futex_wait(addr: usize, val: u32, timed: bool) -> bool {
    if !controlled() {
        return false;
    }
    let m = me().unwrap();
    let s = g();
    s.threads[m].st = St::Blocked { addr, val, woken: false, timed };
    if runnable(&s.threads[m]) {
        s.threads[m].st = St::Runnable;
        return true;
    }
    let next = pick(None, 0, label::BLOCK);
    switch(m, next);
    true
}

/// A wake on a futex word. Returns false if the caller is not controlled.
pub fn futex_wake(addr: usize) -> bool {
    if !controlled() {
        return false;
    }
    for t in g().threads.iter_mut() {
        if let St::Blocked { addr: a, ref mut woken, .. } = t.st {
            if a == addr {
                *woken = true;
            }
        }
    }
    true
}

pub fn new_pool(size: usize) -> usize {
    if !controlled() {
        return INACTIVE_POOLS.fetch_add(1, Ordering::Relaxed);
    }
    let s = g();
    s.pools.push(Pool { size, running: 0, queue: VecDeque::new() });
    s.pools.len() - 1
}

/// Queue a task (or run it at once when no exploration is running).
pub fn submit(pool: usize, job: Job) {
    if !controlled() {
        job();
        return;
    }
    let s = g();
    s.pools[pool].queue.push_back(job);
    point(label::SUBMIT);
}

/// A task is handed to a pool; returns its number.
pub fn note_spawned() -> u64 {
    let s = g();
    if !s.active {
        return 0;
    }
    let id = s.spawned;
    s.spawned += 1;
    s.outstanding += 1;
    s.max_outstanding = s.max_outstanding.max(s.outstanding);
    s.pending.push((id, false));
    if let Some(j) = unhashed() {
        if j != id {
            s.ahead.push((id, j));
        }
    }
    id
}

/// The result of a task is there.
pub fn note_completed(id: u64) {
    let s = g();
    if s.active {
        if let Some(p) = s.pending.iter_mut().find(|p| p.0 == id) {
            p.1 = true;
        }
    }
}

/// The result of a task was taken (or is not wanted any more).
pub fn note_consumed(id: u64) {
    let s = g();
    if s.active {
        s.outstanding = s.outstanding.saturating_sub(1);
        s.pending.retain(|p| p.0 != id);
    }
}

/// The oldest task whose result has not been taken, if it has no result yet.
pub fn unhashed() -> Option<u64> {
    match g().pending.iter().min_by_key(|p| p.0) {
        Some(&(id, false)) => Some(id),
        _ => None,
    }
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub tasks: u64,
    /// tasks begun and not ended at the same time
    pub max_running: u64,
    pub max_outstanding: u64,
    pub switches: u64,
    /// (k, j): task k was handed over while the oldest task whose result had
    /// not been taken was j, and j had no result yet
    pub ahead: Vec<(u64, u64)>,
    /// which logical thread got the baton at each hand-over
    pub order: Vec<u16>,
    /// hash of the scheduler state at each scheduling point
    pub states: Vec<u64>,
    pub points: u64,
}

/// Number of tasks handed to pools and not yet consumed by the main thread.
pub fn outstanding() -> u64 {
    g().outstanding
}
/// Number of tasks a worker has begun to run.
pub fn started() -> u64 {
    g().started
}
/// Number of tasks that have run to their end.
pub fn finished() -> u64 {
    g().threads.iter().skip(1).filter(|t| t.st == St::Done).count() as u64
}

/// Run `f` as the main logical thread; afterwards run all tasks that are
/// still queued or running to their end (in a fixed order).
pub fn run<T>(cfg: Config, on_deadlock: fn(&str) -> !, f: impl FnOnce() -> T) -> (T, Report) {
    {
        let s = g();
        assert!(!s.active, "nested scheduler");
        s.cfg = cfg;
        s.threads.clear();
        s.pools.clear();
        s.cur = 0;
        s.spawned = 0;
        s.outstanding = 0;
        s.max_outstanding = 0;
        s.pending.clear();
        s.ahead.clear();
        s.switches = 0;
        s.started = 0;
        s.max_running = 0;
        s.draining = false;
        s.on_deadlock = Some(on_deadlock);
        s.order.clear();
        s.steps.clear();
        s.states.clear();
        s.points = 0;
        s.same = 0;
        let os = Arc::new(Os { word: AtomicU32::new(0), job: UnsafeCell::new(None) });
        s.threads.push(Th { st: St::Runnable, os, pool: usize::MAX });
        s.active = true;
    }
    ME.with(|m| m.set(0));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    // drain
    g().draining = true;
    g().cfg.stall = 0;
    loop {
        let s = g();
        let rest = s.threads.iter().skip(1).any(|t| t.st != St::Done)
            || s.pools.iter().any(|p| !p.queue.is_empty());
        if !rest {
            break;
        }
        // main steps aside: somebody else must be able to run
        s.threads[0].st = St::Done;
        let next = pick(None, 0, label::END);
        s.threads[0].st = St::Runnable;
        let os = s.threads[0].os.clone();
        give(next);
        wait_word(&os.word);
    }
    let s = g();
    s.active = false;
    ME.with(|m| m.set(usize::MAX));
    let rep = Report {
        tasks: s.spawned,
        max_running: s.max_running,
        max_outstanding: s.max_outstanding,
        ahead: std::mem::take(&mut s.ahead),
        switches: s.switches,
        order: std::mem::take(&mut s.order),
        states: std::mem::take(&mut s.states),
        points: s.points,
    };
    match r {
        Ok(v) => (v, rep),
        Err(e) => std::panic::resume_unwind(e),
    }
}
