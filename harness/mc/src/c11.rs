//! C11: advance finds exactly the requested entry and disturbs nothing.
use crate::cio::*;
use crate::common::*;
use crate::pgen::*;
use crate::universe::{small_leaves, small_names};
use kit::ctx::{cut_ok, Ctx};
use kit::hash::{fnv, Ht};
use kit::json::show;
use kit::model::*;
use std::collections::HashSet;

/// All sequences of exactly `depth` operations (shorter ones are prefixes).
fn explore(ctx: &mut Ctx, name: &str, ents: &[REnt], depth: usize, first: usize, every_op: &[Op], chunk: usize) {
    let ks = keys(ents);
    let text = render(ents, Ht::Sha, BS as u64);
    let n = every_op.len();
    let mut idx = vec![0usize; depth];
    idx[0] = first;
    let mut seen: HashSet<u64> = HashSet::new();
    loop {
        let ops: Vec<&Op> = idx.iter().map(|&i| &every_op[i]).collect();
        if chunk == 0 {
            run_ops(&text, ents, &ks, &ops, name);
        } else {
            let mut p = match cut_ok(|| dir_signature::v1::Parser::new(CRead::new(&text, Menu::PLAIN).chunk(chunk).intr())) {
                Ok(p) => p,
                Err(e) => kit::ctx::violation(&format!("cannot open: {}", e)),
            };
            let mut it = p.iter();
            compare(&mut it, ents, &ks, &ops, name);
        }
        ctx.add("executions", 1);
        ctx.add("transitions", depth as u64);
        ctx.eval();
        // states: cursor position and whether the row read ahead is kept
        let mut r = RefCursor::new(ents, &ks);
        let mut miss = false;
        for o in &ops {
            seen.insert(fnv(format!("{} {} {}", name, r.pos, miss).as_bytes()));
            miss = r.step(o).is_none();
        }
        seen.insert(fnv(format!("{} {} {}", name, r.pos, miss).as_bytes()));
        let mut i = depth;
        loop {
            i -= 1;
            if i == 0 {
                for s in seen {
                    ctx.distinct(s);
                }
                return;
            }
            idx[i] += 1;
            if idx[i] < n {
                break;
            }
            idx[i] = 0;
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an execution runs one sequence of next/advance operations from a fresh cursor of the real parser, comparing every result with the reference cursor, and then drains it; states are (index, position, row kept after a miss); every transition of the model is executed by the implementation");
    ctx.text("bounds", "7 index shapes, large ones (as in C08, sequences up to length 2) and the indexes of all trees of up to 3 nodes over {a,a-b,b}; operations: next and advance to every present and many absent kinds (before, between, behind, other kind at the same path, below files); all sequences of up to 4 (thorough: 5) operations for the shapes, 3 (thorough: 4) for the trees; also through readers that deliver 1, 2 or 7 bytes with interruptions");
    for (name, ents) in shapes() {
        let mut ops = vec![Op::Next];
        ops.extend(ents.iter().map(Op::adv));
        let mut few = absent(&ents);
        // enough of them to fall into every gap
        let mut gaps = HashSet::new();
        let ks = keys(&ents);
        let gap = |o: &Op| ks.iter().filter(|k| **k < o.key().unwrap()).count();
        let mut more: Vec<Op> = Vec::new();
        few.retain(|o| {
            let fresh = gaps.insert((gap(o), matches!(o, Op::Adv(true, _))));
            if !fresh {
                more.push(o.clone());
            }
            fresh
        });
        let mut dense = ops.clone();
        dense.extend(few.iter().cloned());
        for first in 0..dense.len() {
            let depth = if dense.len() <= 20 { ctx.pick(4, 5) } else { ctx.pick(3, 4) };
            ctx.case(|| format!("{}: {} operations to depth {}, first {:?}", name, dense.len(), depth, dense[first]), |ctx| {
                explore(ctx, name, &ents, depth, first, &dense, 0);
            });
        }
        let mut wide = dense.clone();
        wide.extend(more);
        for first in 0..wide.len() {
            ctx.case(|| format!("{}: {} operations to depth 2, first {:?}", name, wide.len(), wide[first]), |ctx| {
                explore(ctx, name, &ents, 2, first, &wide, 0);
                for chunk in [1, 2, 7] {
                    explore(ctx, name, &ents, 2, first, &wide, chunk);
                }
            });
        }
    }
    ctx.chunk(4);
    for n in 1..=ctx.pick(3, 3) {
        for f in forests(n, &small_names(), &small_leaves()[1..3]) {
            let t = Node::Dir(f);
            ctx.case(|| format!("tree {:?}", t), |ctx| {
                let ents = entries(&t, Ht::Sha, BS);
                let mut ops = vec![Op::Next];
                ops.extend(ents.iter().map(Op::adv));
                let mut ab = absent(&ents);
                ab.truncate(8);
                ops.extend(ab);
                let name = format!("{:?}", t);
                for first in 0..ops.len() {
                    explore(ctx, &name, &ents, ctx.pick(3, 4), first, &ops, 0);
                    ctx.beat();
                }
                ctx.sample(|| format!("{} with {:?}", name, ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>()));
            });
        }
    }
    // a long index: far jumps
    ctx.chunk(1);
    for (name, ents, bs) in large(ctx.thorough()) {
        ctx.case(|| format!("large: {}", name), |ctx| {
            let ks = keys(&ents);
            let text = render(&ents, Ht::Sha, bs);
            let n = ents.len();
            let mut ops = vec![Op::Next];
            for i in [0, 1, 2, n / 2, n - 2, n - 1] {
                ops.push(Op::adv(&ents[i]));
                if ents[i].path != b"/" {
                    ops.push(Op::Adv(!ents[i].is_dir(), ents[i].path.clone()));
                }
            }
            ops.push(Op::Adv(true, b"/\xff\xff\xff".to_vec()));
            if text.len() < 1 << 19 {
                for a in &ops {
                    for b in &ops {
                        run_ops(&text, &ents, &ks, &[a, b], &name);
                        ctx.add("executions", 1);
                        ctx.eval();
                    }
                    ctx.beat();
                }
            } else {
                for a in &ops {
                    run_ops(&text, &ents, &ks, &[a, &ops[0], a], &name);
                    ctx.add("executions", 1);
                    ctx.eval();
                    ctx.beat();
                }
            }
        });
    }
    ctx.case(|| "long index".into(), |ctx| {
        let mut ents = vec![rdir(b"/")];
        for d in 0..12u32 {
            let dir = format!("/d{:02}", d).into_bytes();
            ents.push(rdir(&dir));
            for i in 0..8u32 {
                ents.push(rfile(&join(&dir, format!("f{}", i).as_bytes()), i % 2 == 0, 40000 * i as u64, BS as u64));
            }
        }
        let ks = keys(&ents);
        let text = render(&ents, Ht::Sha, BS as u64);
        for a in 0..ents.len() {
            for b in 0..ents.len() {
                let (oa, ob) = (Op::adv(&ents[a]), Op::adv(&ents[b]));
                run_ops(&text, &ents, &ks, &[&oa, &ob], &show(&ents[a].path));
                ctx.add("executions", 1);
                ctx.add("transitions", 2);
                ctx.eval();
            }
            ctx.beat();
        }
    });
}
