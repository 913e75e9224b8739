//! C15: a truncated index is never taken for a complete one.
use crate::c12::{key_of, merged};
use crate::common::*;
use crate::pgen::*;
use crate::universe::{small_leaves, small_names};
use dir_signature::v1::Parser;
use kit::ctx::{cut, cut_ok, violation, Ctx};
use kit::hash::{fnv, Ht, ALL};
use kit::json::brief;
use kit::model::*;
use std::io::Cursor;

struct Base {
    ents: Vec<REnt>,
    keys: Vec<Key>,
    text: Vec<u8>,
    head: usize,
    /// end offset of each entry line
    ends: Vec<usize>,
}

fn base(ents: Vec<REnt>, h: Ht, bs: u64) -> Base {
    let text = render(&ents, h, bs);
    let head = header(h, bs).len();
    let mut at = head;
    let ends = ents
        .iter()
        .map(|e| {
            at += line(e).len() + 1;
            at
        })
        .collect();
    Base { keys: keys(&ents), ents, text, head, ends }
}

/// Operations, then `next` until well past the end.
fn run_cut(b: &Base, cut_at: usize, ops: &[&Op]) {
    let data = &b.text[..cut_at];
    let full = b.ends.iter().filter(|&&e| e <= cut_at).count();
    let mut r = RefCursor::new(&b.ents[..full], &b.keys[..full]);
    let mut p = parser(data);
    let mut it = cut_ok(|| p.iter());
    let mut failed = false;
    let drain = full - 0 + 4;
    let nx = Op::Next;
    let total = ops.len() + drain;
    for i in 0..total {
        let op = if i < ops.len() { ops[i] } else { &nx };
        // may this call legitimately return nothing: a greater complete
        // entry has been seen
        let want = r.step(op);
        let more = r.pos < full;
        let got = step(&mut it, op);
        let okay = match (&got, want) {
            (Item::Ent(e), Some(w)) => e == w && !failed,
            (Item::Ent(_), None) => false,
            (Item::Err(_), None) => {
                failed = true;
                !(matches!(op, Op::Adv(..)) && more)
            }
            (Item::Err(_), Some(_)) => false,
            (Item::End, None) => matches!(op, Op::Adv(..)) && more,
            _ => false,
        };
        if !okay {
            violation(&format!(
                "index cut after {} of {} bytes ({} complete entries): {:?} then {:?} (call {}) gives {:?}, expected {:?}{}; cut line: {}",
                cut_at, b.text.len(), full, ops, op, i, got, want,
                if want.is_none() && !more { " or rather an error" } else { "" },
                brief(&data[data.iter().rposition(|&c| c == b'\n').map_or(0, |x| x + 1)..])
            ));
        }
    }
    if !failed {
        violation(&format!("index cut after {} bytes: no error after {:?} and {} calls of next", cut_at, ops, drain));
    }
}

fn header_cut(ctx: &mut Ctx, data: &[u8]) {
    match cut(|| Parser::new(Cursor::new(data)).map(|_| ()).map_err(|e| e.to_string())) {
        Ok(Err(_)) => {}
        Ok(Ok(())) => violation(&format!("a cut header opens: {}", brief(data))),
        Err(p) => violation(&format!("opening panics: {}", p)),
    }
    ctx.eval();
}

fn all_cuts(ctx: &mut Ctx, b: &Base, ops: &[Op], depth: usize) {
    for c in 0..b.head {
        header_cut(ctx, &b.text[..c]);
    }
    for k in 0..=depth {
        for w in words(ops.len(), k) {
            let o: Vec<&Op> = w.iter().map(|&i| &ops[i]).collect();
            for c in b.head..b.text.len() {
                run_cut(b, c, &o);
            }
            ctx.add("evaluations", (b.text.len() - b.head) as u64);
        }
        ctx.beat();
    }
    for c in 0..b.text.len() {
        ctx.distinct(fnv(&b.text[..c]));
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation opens one proper prefix of an index, runs one sequence of next/advance calls and then calls next past the end; every result is compared with the reference cursor over the complete lines; distinct by prefix");
    ctx.text("bounds", "every byte offset of: the 7 index shapes (all operation sequences up to length 2; thorough: 3), with next, advance to every entry, to absent kinds and past the end; indexes of all trees of up to 3 nodes x 3 hash types (sequences up to length 1, thorough 2); names made of separator-like bytes; block sizes 1 and 2^64-1; indexes with lines of up to some MiB, cut around the ends of lines and of power-of-two lengths; and merged with a complete index");
    let mk_ops = |ents: &[REnt], max: usize| {
        let mut ops = vec![Op::Next];
        ops.extend(ents.iter().map(Op::adv));
        ops.push(Op::Adv(true, b"/\xff\xff\xff".to_vec()));
        let mut ab = absent(ents);
        ab.truncate(max);
        ops.extend(ab);
        ops
    };
    for (n, s) in shapes() {
        ctx.case(|| format!("shape {}", n), |ctx| {
            let b = base(s, Ht::Sha, 32768);
            let mut ops = mk_ops(&b.ents, 6);
            // long words: with fewer operations
            all_cuts(ctx, &b, &ops, 1);
            ops.truncate(9);
            ops.push(Op::Adv(true, b"/\xff\xff\xff".to_vec()));
            all_cuts(ctx, &b, &ops, ctx.pick(2, 3));
        });
    }
    // lines whose prefixes look like something else
    let tricky: Vec<Vec<REnt>> = vec![
        vec![rdir(b"/"), rlink(b"/a", b"/b"), rdir(b"/ab"), rdir(b"/abc")],
        vec![rdir(b"/"), rfile(b"/f", false, 11, 1), rfile(b"/x", true, 3, 1)],
        vec![rdir(b"/"), rfile(b"/a", false, 3, 2), rlink(b"/s", b"s"), rlink(b"/t", b"a b")],
        vec![rdir(b"/"), rfile(b"/a", false, 0, 1), rfile(b"/b", false, 10, 1), rdir(b"/x y"), rdir(b"/x y/z")],
        vec![rdir(b"/"), rfile(b"/\\", false, 0, 1), rlink(b"/\\x4", b"\\x41"), rdir(b"/\xff")],
    ];
    for (i, t) in tricky.into_iter().enumerate() {
        for bs in [1u64, 2, u64::MAX] {
            ctx.case(|| format!("tricky {} block size {}", i, bs), |ctx| {
                let ents: Vec<REnt> = t
                    .iter()
                    .map(|e| match &e.kind {
                        RKind::File { exe, size, .. } => rfile(&e.path, *exe, *size, bs),
                        _ => e.clone(),
                    })
                    .collect();
                let b = base(ents, Ht::B2, bs);
                let ops = mk_ops(&b.ents, 3);
                all_cuts(ctx, &b, &ops, ctx.pick(1, 2));
            });
        }
    }
    ctx.chunk(4);
    for n in 0..=3 {
        for f in forests(n, &small_names(), &small_leaves()[..3]) {
            for &h in &ALL {
                if n == 3 && h != Ht::B3 {
                    continue;
                }
                ctx.case(|| format!("{:?} tree {:?}", h, f), |ctx| {
                    let b = base(entries(&Node::Dir(f.clone()), h, BS), h, BS as u64);
                    let ops = mk_ops(&b.ents, 2);
                    all_cuts(ctx, &b, &ops, if n < 3 { ctx.pick(2, 2) } else { ctx.pick(1, 2) });
                });
            }
        }
    }
    // long lines
    ctx.chunk(1);
    for (name, ents, bs) in large(ctx.thorough()) {
        if ents.len() > 100 || name.starts_with("a path of 3145728") {
            continue;
        }
        ctx.case(|| format!("large: {}", name), |ctx| {
            let b = base(ents, Ht::Sha, bs);
            let ops = mk_ops(&b.ents, 2);
            let mut cuts: Vec<usize> = Vec::new();
            let mut from = b.head;
            for &e in &b.ends {
                let len = e - from;
                cuts.extend([1, 2, 70, 71, 72, 134, 135, 136, 137, 200, 255, 256, 257, len / 2, len.saturating_sub(67), len.saturating_sub(66), len.saturating_sub(65), len.saturating_sub(2), len - 1, len].iter().filter(|&&x| x <= len).map(|x| from + x));
                let big = b.text.len() > 1 << 18;
                for k in (8..22).filter(|k| !big || [12, 13, 16, 20, 21].contains(k)) {
                    cuts.extend([(1 << k) - 1, 1 << k, (1 << k) + 1].iter().filter(|&&x| x < len).map(|x| from + x));
                }
                from = e;
            }
            cuts.sort();
            cuts.dedup();
            if b.text.len() > 3 << 20 {
                let ends: Vec<usize> = b.ends.iter().flat_map(|e| [e.saturating_sub(2), e - 1, e.saturating_sub(66)]).chain((12..24).map(|k| b.head + (1 << k))).collect();
                cuts.retain(|c| ends.contains(c));
            }
            for &c in &cuts {
                run_cut(&b, c, &[]);
                if b.text.len() < 1 << 18 {
                    for o in &ops {
                        run_cut(&b, c, &[o]);
                    }
                } else {
                    run_cut(&b, c, &[&ops[ops.len() - 1]]);
                }
                ctx.eval();
                ctx.beat();
            }
        });
    }
    // merged with a complete one
    ctx.chunk(1);
    let sh = shapes();
    for i in 0..sh.len() {
        for j in [1usize, 3, 4] {
            ctx.case(|| format!("merge of cut shape {} with {}", i, j), |ctx| {
                let b = base(sh[i].1.clone(), Ht::Sha, 32768);
                let g = base(sh[j].1.clone(), Ht::Sha, 32768);
                for which in 0..2 {
                    for c in b.head..b.text.len() {
                        for adv in 0..=g.ents.len() {
                            let texts: [&[u8]; 2] = if which == 0 { [&b.text[..c], &g.text] } else { [&g.text, &b.text[..c]] };
                            let mut m = merged(&texts);
                            let mut it = m.iter();
                            let full = b.ends.iter().filter(|&&e| e <= c).count();
                            let (mut at, mut failed) = (0, false);
                            for call in 0..b.ents.len() + g.ents.len() + 4 {
                                let g = cut_ok(|| {
                                    if call == 0 && adv < g.ents.len() {
                                        it.advance(&ek(&g.ents[adv]))
                                    } else {
                                        it.next().unwrap_or_default()
                                    }
                                });
                                for (k, r) in g {
                                    if *k != key_of(which) {
                                        continue;
                                    }
                                    match item(Some(r)) {
                                        Item::Err(_) => failed = true,
                                        Item::Ent(e) => match b.ents[at..full].iter().position(|x| *x == e) {
                                            Some(i) if !failed => at += i + 1,
                                            _ => violation(&format!("merged, cut after {} bytes: entry {:?} is not a complete line or comes late", c, e)),
                                        },
                                        x => violation(&format!("{:?}", x)),
                                    }
                                }
                            }
                            if !failed {
                                violation(&format!("merged, cut after {} bytes: no error is ever reported", c));
                            }
                            ctx.eval();
                        }
                    }
                    ctx.beat();
                }
            });
        }
    }
}
