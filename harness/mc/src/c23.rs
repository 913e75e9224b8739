//! C23: failing and short writes.
use crate::c02::run_id;
use crate::c03::{many, tally_rep, trees};
use crate::cio::*;
use crate::common::*;
use crate::universe::{small_leaves, small_names};
use dir_signature::v1::{Emitter, Entry};
use kit::ctx::{cut, violation, Ctx};
use kit::hash::{fnv, Ht, ALL};
use kit::interpose::NoEnv;
use kit::json::brief;
use kit::mc::explore::{current_choices, Bounds};
use kit::mc::sched;
use kit::model::*;
use std::path::Path;

/// What the destination holds must be the whole index after a success, and a
/// proper prefix of it (all that was accepted before the failure) otherwise.
fn judge(w: &CWrite, res: &Result<(), (Kind, String)>, wants: &[Vec<u8>], write_kind: bool, what: &str) {
    let fail = |m: String| -> ! { violation(&format!("{}: failures {:?} of the destination: {}", what, w.errs, m)) };
    let close = || wants.iter().map(|x| diff(&w.got, x)).next().unwrap();
    match res {
        Ok(()) => {
            if !w.errs.is_empty() {
                fail(format!("success is reported after a failed write; the destination holds {}", brief(&w.got)));
            }
            if !wants.contains(&w.got) {
                fail(format!("success is reported, but the destination holds something else: {}", close()));
            }
        }
        Err((k, e)) => {
            if *k == Kind::Panic {
                fail(format!("panic: {}", e));
            }
            if w.errs.is_empty() {
                fail(format!("the destination accepted everything, but {:?} {} is returned", k, e));
            }
            if write_kind && *k != Kind::Write {
                fail(format!("{:?} ({}) is returned instead of a write error", k, e));
            }
            if w.errs[0] == Fail::Space && !e.contains(if w.kind.is_some() { "injected" } else { "os error 28" }) {
                fail(format!("the error returned is not that of the destination: {}", e));
            }
            if !wants.iter().any(|x| x.len() > w.got.len() && x.starts_with(&w.got)) {
                fail(format!("the destination does not hold a proper prefix of the index: {}", close()));
            }
        }
    }
}

fn scan_to(ctx: &mut Ctx, root: &Path, o: &Opts, w: &mut CWrite, sc: Option<sched::Config>, wants: &[Vec<u8>], what: &str) -> Result<(), (Kind, String)> {
    let (r, rep) = scan_env_to(&[(root, "/")], o, &mut NoEnv, sc, w);
    if let Some(rep) = &rep {
        tally_rep(ctx, rep);
    }
    judge(w, &r, wants, true, what);
    if let (Some(_), Ok(())) = (w.room.filter(|&r| r < wants[0].len()), &r) {
        violation(&format!("{}: success with a destination that holds {:?} bytes", what, w.room));
    }
    ctx.eval();
    ctx.add("write_failures_injected", w.errs.len() as u64);
    r
}

fn wants(t: &Node, o: &Opts) -> Vec<Vec<u8>> {
    let mut v = vec![index(t, o.ht)];
    if o.ht == Ht::B3 {
        v.push(index_h(t, Ht::B3, o.how()));
    }
    v
}

/// The destination is full after every number of bytes.
fn every_byte(ctx: &mut Ctx, root: &Path, t: &Node, o: &Opts, sc: Option<sched::Config>, from: usize, step: usize) {
    let ws = wants(t, o);
    let len = ws[0].len();
    let mut k = from;
    while k <= len {
        for variant in 0..4 + KINDS.len() {
            let mut w = CWrite::plain().room(k);
            w = match variant {
                0 => w,
                1 => w.once(),
                2 => w.chunk(3).intr(),
                3 => w.chunk(1).once(),
                // any kind of error counts (all kinds at each byte of small
                // indexes, one per byte of others)
                v => {
                    if len > 400 && (k + v) % KINDS.len() != 0 {
                        continue;
                    }
                    w.once().kind(Some(KINDS[v - 4]))
                }
            };
            let r = scan_to(ctx, root, o, &mut w, sc, &ws, "scan to a full destination");
            if k < len && (r.is_ok() || w.got.len() != k) {
                violation(&format!("a destination with room for {} of {} bytes holds {} after a scan that returns {:?}", k, len, w.got.len(), r));
            }
            ctx.distinct(fnv(&k.to_le_bytes()) ^ run_id(t, o) ^ variant as u64);
        }
        k += step;
    }
}

fn lib_entries(h: Ht) -> Vec<Entry> {
    let mk = |e: REnt| match e.kind {
        RKind::Dir => Entry::Dir(p(&e.path)),
        RKind::Link(t) => Entry::Link(p(&e.path), p(&t)),
        RKind::File { exe, size, hashes } => Entry::File { path: p(&e.path), exe, size, hashes: lib_hashes(h, 32768, size, &hashes) },
    };
    vec![mk(rdir(b"/")), mk(rfile(b"/a b", true, 32769, 32768)), mk(rlink(b"/l", b"\xfft")), mk(rdir(b"/d")), mk(rfile(b"/d/e", false, 0, 32768))]
}

fn emit(seq: &[&Entry], h: Ht, w: &mut CWrite) -> Result<(), (Kind, String)> {
    match cut(|| {
        let mut e = Emitter::new(ht(h), 32768, w)?;
        for x in seq {
            emit_call(&mut e, x)?;
        }
        e.finish()
    }) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err((Kind::Other, e.to_string())),
        Err(p) => Err((Kind::Panic, p)),
    }
}

fn emit_whole(seq: &[&Entry], h: Ht) -> Vec<u8> {
    let mut w = CWrite::plain();
    ok(emit(seq, h, &mut w).map_err(|e| format!("{:?}", e)), "emitter");
    w.got
}

fn menus() -> Vec<(&'static str, WMenu)> {
    let m = |lens, zero, sticky| WMenu { menu: Menu { lens, eintr: true, eio: true }, zero, sticky };
    vec![("transient failures", m(Lens::Few, true, false)), ("lasting failures", m(Lens::Few, true, true))]
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an execution is one scan or emitter run to a destination with one pattern of full, failing, interrupted, short and zero-length writes; if the destination failed, the (write) error must be returned and the destination must hold exactly a proper prefix of the index, otherwise the whole index and success");
    ctx.text("bounds", "a destination that is full, once or for good, after every number of bytes, with whole, chunked and interrupted writes and errors of 9 further kinds: all trees of up to 3 nodes and hand-made ones x hash types x threads {0,2} x progress; every single and pair (thorough: triple) of {ENOSPC, EINTR, Ok(0), 1, half, all but one byte} at every write call, transient and lasting; threaded: combined with all schedules of up to 1 preemption (thorough: 2); emitter: all call sequences of up to 3 calls over 5");
    ctx.text("assumptions", "the destination reports what it accepted truthfully");
    let th = ctx.thorough();
    let coarse = sched::Config { task_syscalls: false, free_start: false, block_cost: 1, ..sched::Config::default() };
    // full after every byte
    let mut ts: Vec<Node> = Vec::new();
    for n in 0..=ctx.pick(2, 3) {
        for f in forests(n, &small_names(), &small_leaves()) {
            ts.push(Node::Dir(f));
        }
    }
    let small = ts.len();
    for (_, t) in trees() {
        ts.push(t);
    }
    ts.push(many(34));
    ctx.chunk(4);
    for (i, t) in ts.iter().enumerate() {
        for &h in &ALL {
            if h != Ht::Sha && i < small && !th {
                continue;
            }
            for threads in [0usize, 2] {
                ctx.case(|| format!("full after every byte: {:?} {} threads {:?}", h, threads, t), |ctx| {
                    let root = ctx.fresh("t");
                    make(t, &root);
                    for progress in [false, true] {
                        let mut o = Opts::new(h).threads(threads);
                        o.progress = progress;
                        let sc = if threads > 0 { Some(coarse) } else { None };
                        every_byte(ctx, &root, t, &o, sc, 0, if i + 1 == ts.len() && !th { 13 } else { 1 });
                    }
                    kit::interpose::take_stderr();
                    wipe(&root);
                });
            }
        }
    }
    ctx.chunk(1);
    // every write call goes wrong
    for (i, t) in ts.iter().enumerate() {
        for (mname, m) in menus() {
            let big = i + 1 == ts.len();
            ctx.case(|| format!("{} at every write: {:?}", mname, t), |ctx| {
                let root = ctx.fresh("t");
                make(t, &root);
                for (o, bound) in [(Opts::new(Ht::Sha), 2), (Opts::new(Ht::B3), 1), (Opts::new(Ht::Sha).threads(2), 1)] {
                    let ws = wants(t, &o);
                    let bound = if big { 1 } else { bound + (th && bound == 2 && t.count() <= 3) as u32 };
                    ctx.explore(Bounds::new(bound), |ctx| {
                        let mut w = CWrite::new(m);
                        let r = scan_to(ctx, &root, &o, &mut w, None, &ws, mname);
                        let b: Vec<u8> = current_choices().iter().map(|&c| c as u8).collect();
                        ctx.distinct(fnv(&b) ^ run_id(t, &o));
                        ctx.outcome(fnv(format!("{:?}", r).as_bytes()));
                        ctx.sample(|| format!("{}: {:?} {:?} with failures {:?}: {:?}", mname, t, o, w.errs, r));
                    });
                }
                wipe(&root);
            });
        }
    }
    // together with schedules
    for (name, t) in trees() {
        for q in [None, Some(1)] {
            for shard in 0..4 {
                ctx.case(|| format!("schedules and failing writes: {} queue {:?}, shard {}", name, q, shard), |ctx| {
                    let root = ctx.fresh("t");
                    make(&t, &root);
                    let mut o = Opts::new(Ht::Sha).threads(2);
                    o.queue = q;
                    let ws = wants(&t, &o);
                    for (mname, m) in menus() {
                        ctx.explore(Bounds::new(2 + th as u32).shard(shard, 4), |ctx| {
                            let mut w = CWrite::new(WMenu { menu: Menu { lens: Lens::Whole, eintr: false, eio: true }, ..m });
                            scan_to(ctx, &root, &o, &mut w, Some(if th { coarse } else { sched::Config { task_syscalls: false, free_start: false, ..sched::Config::default() } }), &ws, mname).ok();
                        });
                    }
                    for stall in [1, 2, usize::MAX] {
                        every_byte(ctx, &root, &t, &o, Some(sched::Config { stall, ..coarse }), shard as usize, 4);
                    }
                    wipe(&root);
                });
            }
        }
    }
    // a buffered destination: what flush or drop would lose is not the scan's,
    // but errors while it runs are
    ctx.case(|| "small buffers".into(), |ctx| {
        for (_, t) in trees() {
            let root = ctx.fresh("t");
            make(&t, &root);
            for threads in [0usize, 2] {
                let o = Opts::new(Ht::Sha).threads(threads);
                let ws = wants(&t, &o);
                for cap in [1usize, 10, 64, 65, 100] {
                    for k in 0..ws[0].len() + 1 {
                        let mut b = std::io::BufWriter::with_capacity(cap, CWrite::plain().room(k));
                        let (r, _) = scan_env_to(&[(&root, "/")], &o, &mut NoEnv, None, &mut b);
                        let r = match r {
                            Ok(()) => std::io::Write::flush(&mut b).map_err(|e| (Kind::Write, e.to_string())),
                            e => e,
                        };
                        let (w, _) = b.into_parts();
                        judge(&w, &r, &ws, true, "scan and flush through a small buffer");
                        ctx.eval();
                    }
                    ctx.beat();
                }
            }
            wipe(&root);
        }
    });
    // emitter
    let mut sq: Vec<Vec<usize>> = vec![vec![]];
    let mut layer = sq.clone();
    for _ in 0..3 {
        layer = layer.into_iter().flat_map(|s| (0..5).map(move |i| { let mut t: Vec<usize> = s.clone(); t.push(i); t })).collect();
        sq.extend(layer.iter().cloned());
    }
    sq.push(vec![0, 1, 2, 3, 4]);
    ctx.chunk(4);
    for &h in &ALL {
        for s in &sq {
            ctx.case(|| format!("emitter {:?} {:?}", h, s), |ctx| {
                let ents = lib_entries(h);
                let seq: Vec<&Entry> = s.iter().map(|&i| &ents[i]).collect();
                let ws = vec![emit_whole(&seq, h)];
                if let Err(e) = footer_ok(&ws[0], h) {
                    violation(&e);
                }
                for k in 0..=ws[0].len() {
                    for variant in 0..4 + KINDS.len() {
                        let w = CWrite::plain().room(k);
                        let mut w = match variant {
                            0 => w,
                            1 => w.once(),
                            2 => w.chunk(3).intr(),
                            3 => w.chunk(1).once(),
                            v => w.once().kind(Some(KINDS[v - 4])),
                        };
                        let r = emit(&seq, h, &mut w);
                        judge(&w, &r, &ws, false, "emitter to a full destination");
                        if k < ws[0].len() && (r.is_ok() || w.got.len() != k) {
                            violation(&format!("emitter: a destination with room for {} of {} bytes holds {} after {:?}", k, ws[0].len(), w.got.len(), r));
                        }
                        ctx.eval();
                    }
                    ctx.distinct(fnv(&ws[0]) ^ k as u64);
                }
                for (mname, m) in menus() {
                    let bound = if s.len() <= 1 || th { 2 } else { 1 };
                    ctx.explore(Bounds::new(bound), |ctx| {
                        let mut w = CWrite::new(m);
                        let r = emit(&seq, h, &mut w);
                        judge(&w, &r, &ws, false, mname);
                        ctx.eval();
                    });
                }
            });
        }
    }
}
