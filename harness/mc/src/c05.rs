//! C05: the footer is the checksum of the index body.
use crate::c02::run_id;
use crate::c03::{many, trees};
use crate::cio::*;
use crate::common::*;
use crate::universe::{small_leaves, small_names};
use dir_signature::v1::{Emitter, Entry};
use kit::ctx::{cut, violation, Ctx};
use kit::hash::{fnv, Ht, ALL};
use kit::interpose::NoEnv;
use kit::json::brief;
use kit::mc::explore::{current_choices, Bounds};
use kit::mc::sched;
use kit::model::*;
use std::path::Path;

fn lib_entries(h: Ht, bs: u64) -> Vec<Entry> {
    let mk = |e: REnt| match e.kind {
        RKind::Dir => Entry::Dir(p(&e.path)),
        RKind::Link(t) => Entry::Link(p(&e.path), p(&t)),
        RKind::File { exe, size, hashes } => Entry::File { path: p(&e.path), exe, size, hashes: lib_hashes(h, bs, size, &hashes) },
    };
    vec![
        mk(rdir(b"/")),
        mk(rfile(b"/a", false, 0, bs)),
        mk(rfile(b"/b c", true, bs.saturating_mul(2).min(bs.saturating_add(5)), bs)),
        mk(rlink(b"/l", b"\xfft")),
        mk(rdir(b"/d\n")),
        mk(rfile(b"/zz", false, 1, bs)),
    ]
}

fn emit(seq: &[&Entry], h: Ht, bs: u64, w: &mut CWrite) {
    let r = cut(|| {
        let mut e = Emitter::new(ht(h), bs, w)?;
        for x in seq {
            emit_call(&mut e, x)?;
        }
        e.finish()
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => violation(&format!("emitting fails although the destination accepts everything in the end: {}", e)),
        Err(p) => violation(&format!("panic in the emitter: {}", p)),
    }
}

fn judge_footer(out: &[u8], h: Ht, what: &str) {
    if let Err(e) = footer_ok(out, h) {
        violation(&format!("{}: {}: {}", what, e, brief(out)));
    }
}

fn seqs(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..k {
        out = out.into_iter().flat_map(|s| (0..n).map(move |i| { let mut t: Vec<usize> = s.clone(); t.push(i); t })).collect();
    }
    out
}

fn scan_writer(root: &Path, o: &Opts, w: &mut CWrite, sc: Option<sched::Config>, what: &str) {
    let (r, _) = scan_env_to(&[(root, "/")], o, &mut NoEnv, sc, w);
    if let Err((k, e)) = r {
        violation(&format!("{}: the scan fails with {:?} {} although the destination accepts everything in the end", what, k, e));
    }
    judge_footer(&w.got, o.ht, what);
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation is one emitter call sequence or one scan written to a destination with one pattern of short and interrupted writes; the last line must be the digest of what the destination holds between header and last line");
    ctx.text("bounds", "emitter: all sequences of up to 4 (thorough: 5) calls over 6 calls x 3 hash types x block sizes {1, 32768, 2^64-1}; every single and pair of short writes of every length or interruptions for sequences of up to 2 calls (thorough: 3) and one long one; scans: all trees of up to 3 nodes and bigger ones x threads {0,2} x patterns {every single, pair (thorough: triple on small trees) of {1, half, all but one byte, EINTR}; constant chunks 1..8, 33, 64; EINTR before every write}");
    ctx.text("assumptions", "the digest crates are right (checked against an independent implementation by C29 for sha512/256)");
    // emitter, plain destination
    for &h in &ALL {
        for bs in [1u64, 32768, u64::MAX] {
            ctx.case(|| format!("emitter sequences {:?} {}", h, bs), |ctx| {
                let ents = lib_entries(h, bs);
                for k in 0..=ctx.pick(4, 5) {
                    for s in seqs(ents.len(), k) {
                        let seq: Vec<&Entry> = s.iter().map(|&i| &ents[i]).collect();
                        let mut w = CWrite::plain();
                        emit(&seq, h, bs, &mut w);
                        judge_footer(&w.got, h, "emitter");
                        ctx.eval();
                        ctx.distinct(fnv(&w.got));
                        if k <= 3 {
                            for chunk in [0, 1, 2, 3, 63, 64] {
                                for intr in [false, true] {
                                    let mut w = CWrite::plain().chunk(chunk);
                                    if intr {
                                        w = w.intr();
                                    }
                                    emit(&seq, h, bs, &mut w);
                                    judge_footer(&w.got, h, "emitter with chunked writes");
                                    ctx.eval();
                                }
                            }
                        }
                    }
                    ctx.beat();
                }
            });
        }
    }
    // emitter, choices
    let mut sq: Vec<Vec<usize>> = Vec::new();
    for k in 0..=ctx.pick(2, 3) {
        sq.extend(seqs(6, k));
    }
    sq.push(vec![0, 1, 2, 3, 4, 5]);
    for &h in &ALL {
        for s in &sq {
            let long = s.len() > 3;
            ctx.case(|| format!("emitter {:?} {:?} with short writes", h, s), |ctx| {
                let ents = lib_entries(h, 32768);
                let seq: Vec<&Entry> = s.iter().map(|&i| &ents[i]).collect();
                let lens = if s.len() <= 1 { Lens::All } else { Lens::Few };
                let bound = if long { ctx.pick(1, 2) } else { 2 };
                ctx.explore(Bounds::new(bound), |ctx| {
                    let mut w = CWrite::short(lens);
                    emit(&seq, h, 32768, &mut w);
                    judge_footer(&w.got, h, "emitter with short writes");
                    ctx.eval();
                    let b: Vec<u8> = current_choices().iter().map(|&c| c as u8).collect();
                    ctx.distinct(fnv(&b) ^ fnv(format!("{:?}{:?}", h, s).as_bytes()));
                });
                ctx.sample(|| format!("emitter {:?} calls {:?}", h, s));
            });
        }
    }
    // scans
    let mut ts: Vec<(Node, u32)> = Vec::new();
    for n in 0..=ctx.pick(2, 3) {
        for f in forests(n, &small_names()[..2], &small_leaves()) {
            ts.push((Node::Dir(f), ctx.pick(1, 2)));
        }
    }
    for (_, t) in trees() {
        ts.push((t, 2));
    }
    ts.push((many(30), 1));
    ts.push((Node::dir().with(b"big", Node::file(&content(5 * BS + 1, 1))), 2));
    for (t, bound) in &ts {
        for &h in &ALL {
            for threads in [0usize, 2] {
                let o = Opts::new(h).threads(threads);
                if h == Ht::B2 && *bound > 1 {
                    continue;
                }
                ctx.case(|| format!("scan {:?} {:?}", o, t), |ctx| {
                    let root = ctx.fresh("t");
                    make(t, &root);
                    ctx.explore(Bounds::new(*bound), |ctx| {
                        let mut w = CWrite::short(Lens::Few);
                        scan_writer(&root, &o, &mut w, None, "scan with short writes");
                        ctx.eval();
                        ctx.distinct(run_id(t, &o));
                    });
                    for chunk in [0usize, 1, 2, 3, 4, 5, 7, 8, 33, 64] {
                        for intr in [false, true] {
                            for progress in [false, true] {
                                let mut w = CWrite::plain().chunk(chunk);
                                if intr {
                                    w = w.intr();
                                }
                                let mut o = o;
                                o.progress = progress;
                                scan_writer(&root, &o, &mut w, None, "scan with chunked writes");
                                ctx.eval();
                                // a buffered writer on top
                                let w = CWrite::plain().chunk(chunk);
                                let mut b = std::io::BufWriter::with_capacity(17, w);
                                let (r, _) = scan_env_to(&[(&root, "/")], &o, &mut NoEnv, None, &mut b);
                                match b.into_inner() {
                                    Ok(w) if r.is_ok() => judge_footer(&w.got, h, "scan through a small buffer"),
                                    _ => violation("scan through a small buffer fails"),
                                }
                                ctx.eval();
                            }
                        }
                    }
                    kit::interpose::take_stderr();
                    wipe(&root);
                });
            }
        }
    }
}
