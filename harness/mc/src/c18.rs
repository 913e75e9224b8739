//! C18: parsing does not depend on how the reader delivers the data.
use crate::cio::*;
use crate::common::*;
use crate::pgen::*;
use crate::universe::{small_leaves, small_names};
use dir_signature::v1::Parser;
use kit::ctx::{cut, violation, Ctx};
use kit::hash::{fnv, Ht, ALL};
use kit::json::brief;
use kit::mc::explore::{current_choices, describe_choices, Bounds};
use kit::model::*;
use std::io::BufRead;

#[derive(Debug, PartialEq, Clone)]
enum Seen {
    Open(String),
    Items(Vec<Item>),
}

/// Header and items for a sequence of operations followed by next calls.
fn read<R: BufRead>(r: R, ops: &[&Op], limit: usize) -> (Seen, Option<R>) {
    let mut p = match cut(|| Parser::new(r)) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return (Seen::Open(e.to_string()), None),
        Err(p) => violation(&format!("panic when opening: {}", p)),
    };
    let mut v = Vec::new();
    {
        let mut it = p.iter();
        for i in 0..ops.len() + limit {
            let op = ops.get(i).copied().unwrap_or(&Op::Next);
            let x = step(&mut it, op);
            let end = i >= ops.len() && x == Item::End;
            v.push(x);
            if end {
                break;
            }
        }
    }
    (Seen::Items(v), Some(p.into_reader()))
}

/// No failures: everything must be as with the whole data at once.
fn same(ctx: &mut Ctx, data: &[u8], ops: &[&Op], limit: usize, r: CRead, want: &Seen, what: &str) {
    let (got, _) = read(r, ops, limit);
    ctx.eval();
    if got != *want {
        let d = match (&got, want) {
            (Seen::Items(a), Seen::Items(b)) => {
                let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
                format!("item {} is {:?} instead of {:?}", i, a.get(i), b.get(i))
            }
            _ => format!("{:?} instead of {:?}", got, want),
        };
        violation(&format!("{} ({}) operations {:?}: {}; data {}", what, describe_choices(), ops, d, brief(data)));
    }
}

/// A failing read: reported, and no entry is made up, changed or repeated.
fn failing(ctx: &mut Ctx, data: &[u8], truth: &[REnt], ops: &[&Op], r: CRead, what: &str) {
    let (got, rd) = read(r, ops, truth.len() + 8);
    ctx.eval();
    let items = match got {
        Seen::Open(_) => return,
        Seen::Items(i) => i,
    };
    let failures = rd.map_or(0, |r| r.failures) as usize;
    let errors = items.iter().filter(|i| matches!(i, Item::Err(_))).count();
    let mut at = 0;
    for (i, x) in items.iter().enumerate() {
        match x {
            Item::Ent(e) => match truth[at..].iter().position(|t| t == e) {
                Some(k) => at += k + 1,
                None => violation(&format!("{} ({}) operations {:?}: item {} is {:?}, which the index does not have there; data {}", what, describe_choices(), ops, i, e, brief(data))),
            },
            _ => {}
        }
    }
    if failures > errors {
        violation(&format!("{} ({}) operations {:?}: {} read errors but only {} reported", what, describe_choices(), ops, failures, errors));
    }
}

/// Persistent failure from an offset on: never an end.
fn dead(ctx: &mut Ctx, data: &[u8], truth: &[REnt], at: usize, ops: &[&Op], kind: Option<std::io::ErrorKind>) {
    let r = CRead::new(data, Menu::PLAIN).fail_at(at).kind(kind);
    let (got, _) = read(r, ops, truth.len() + 6);
    ctx.eval();
    match got {
        Seen::Open(_) => {
            if at > data.iter().position(|&b| b == b'\n').unwrap_or(data.len()) {
                violation("reading fails behind the header, but the index cannot be opened");
            }
        }
        Seen::Items(v) => {
            let tail = &v[ops.len().min(v.len())..];
            if tail.contains(&Item::End) {
                violation(&format!("reads fail from byte {} on, but operations {:?} and next reach the end", at, ops));
            }
            let mut k = 0;
            for x in &v {
                if let Item::Ent(e) = x {
                    match truth[k..].iter().position(|t| t == e) {
                        Some(i) => k += i + 1,
                        None => violation(&format!("reads fail from byte {} on: entry {:?} is made up", at, e)),
                    }
                }
            }
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation reads one byte string through one reader behaviour with one sequence of operations; without failures the result must equal that of an undivided reader, with failures each is reported and the entries returned are a subsequence of the true ones; distinct by data, behaviours counted as executions");
    ctx.text("bounds", "data: 7 shapes, trees of up to 2 nodes, tricky lines, large ones (as in C08), malformed and truncated ones; reader: every split of any one or two (thorough on small data: three) reads at every byte, interruptions at any one or two reads, constant chunks of 1..70 bytes with and without interruptions; one or two failing reads at any place, of ten kinds, under every operation mix of length up to 2; permanent failure from every offset");
    let mut datas: Vec<(String, Vec<u8>, Vec<REnt>)> = Vec::new();
    for (n, s) in shapes() {
        datas.push((n.to_string(), render(&s, Ht::Sha, 32768), s));
    }
    let tricky: Vec<Vec<REnt>> = vec![
        vec![rdir(b"/"), rlink(b"/a", b"/b"), rdir(b"/ab"), rdir(b"/abc")],
        vec![rdir(b"/"), rlink(b"/a", b"/"), rlink(b"/b", b"//b/  c"), rlink(b"/c", b"x  /d s e")],
        vec![rdir(b"/"), rfile(b"/f f 0", false, 0, 1), rfile(b"/x", true, 3, 1)],
        vec![rdir(b"/"), rdir(b"/d"), rdir(b"/d/d"), rdir(b"/d/d/d"), rlink(b"/d/d/d/l", b"/d/d")],
    ];
    for (i, t) in tricky.into_iter().enumerate() {
        datas.push((format!("tricky {}", i), render(&t, Ht::B2, 1), t));
    }
    for n in 0..=2 {
        for f in forests(n, &small_names()[..2], &small_leaves()[..3]) {
            for h in ALL {
                let e = entries(&Node::Dir(f.clone()), h, BS);
                datas.push((format!("{:?} {:?}", h, f), render(&e, h, BS as u64), e));
            }
        }
    }
    for (name, data, truth) in &datas {
        let small = truth.len() <= 4;
        let mut ops = vec![Op::Next];
        ops.extend(truth.iter().map(Op::adv));
        ops.push(Op::Adv(true, b"/\xff\xff".to_vec()));
        let mut ab = absent(truth);
        ab.truncate(3);
        ops.extend(ab);
        ctx.case(|| format!("splits of {}", name), |ctx| {
            let n = truth.len() + 4;
            let mut opss: Vec<Vec<&Op>> = vec![vec![]];
            opss.extend(ops.iter().map(|o| vec![o]));
            for o in &opss {
                let (want, _) = read(CRead::new(data, Menu::PLAIN), o, n);
                for chunk in 1..=70 {
                    same(ctx, data, o, n, CRead::new(data, Menu::PLAIN).chunk(chunk), &want, "constant chunks");
                    same(ctx, data, o, n, CRead::new(data, Menu::PLAIN).chunk(chunk).intr(), &want, "constant chunks, interrupted");
                    for d in [0, 1, 7] {
                        let mut r = std::io::BufReader::with_capacity(chunk, CRead::new(data, Menu::PLAIN).chunk(d));
                        r.fill_buf().unwrap();
                        let (got, _) = read(r, o, n);
                        if got != want {
                            violation(&format!("through a buffer of {}: {:?} instead of {:?}", chunk, got, want));
                        }
                        ctx.eval();
                    }
                }
                ctx.distinct(fnv(data) ^ fnv(format!("{:?}", o).as_bytes()));
                ctx.beat();
            }
        });
        ctx.case(|| format!("all splits and interruptions of {}", name), |ctx| {
            let n = truth.len() + 4;
            let (want, _) = read(CRead::new(data, Menu::PLAIN), &[], n);
            let b = if small { ctx.pick(2, 3) } else { 2 };
            ctx.explore(Bounds::new(b), |ctx| same(ctx, data, &[], n, CRead::new(data, Menu::SPLIT), &want, "split reads"));
            for o in &ops {
                let (want, _) = read(CRead::new(data, Menu::PLAIN), &[o], n);
                ctx.explore(Bounds::new(ctx.pick(1, 2)), |ctx| same(ctx, data, &[o], n, CRead::new(data, Menu::SPLIT), &want, "split reads"));
            }
        });
        ctx.case(|| format!("failing reads of {}", name), |ctx| {
            let menu = Menu { lens: Lens::Whole, eintr: true, eio: true };
            for d in 0..=2usize {
                if d == 2 && !small && !ctx.thorough() {
                    continue;
                }
                for w in words(ops.len(), d) {
                    let o: Vec<&Op> = w.iter().map(|&i| &ops[i]).collect();
                    for chunk in [1usize, 3, 10, 64] {
                        let b = if d == 0 && small { 2 } else { 1 };
                        ctx.explore(Bounds::new(b), |ctx| {
                            failing(ctx, data, truth, &o, CRead::new(data, menu).chunk(chunk), "failing reads");
                            ctx.outcome(current_choices().len() as u64);
                        });
                    }
                    if d <= 1 {
                        for k in KINDS {
                            ctx.explore(Bounds::new(1), |ctx| failing(ctx, data, truth, &o, CRead::new(data, menu).chunk(10).kind(Some(k)), &format!("failing reads ({:?})", k)));
                        }
                    }
                }
            }
        });
        ctx.case(|| format!("permanent failure in {}", name), |ctx| {
            for at in 0..=data.len() {
                dead(ctx, data, truth, at, &[], None);
                for o in &ops {
                    dead(ctx, data, truth, at, &[o], None);
                    dead(ctx, data, truth, at, &[o, o], None);
                }
                for k in KINDS {
                    dead(ctx, data, truth, at, &[], Some(k));
                    for o in ops.iter().skip(1).step_by(2) {
                        dead(ctx, data, truth, at, &[o], Some(k));
                    }
                }
            }
        });
    }
    // long lines
    for (name, ents, bs) in large(ctx.thorough()) {
        ctx.case(|| format!("large: {}", name), |ctx| {
            let data = render(&ents, Ht::Sha, bs);
            let n = ents.len() + 4;
            let want = Seen::Items(ents.iter().map(|e| Item::Ent(e.clone())).chain([Item::End]).collect());
            for chunk in [0usize, 61, 4096, 8191, 8192, 65536] {
                same(ctx, &data, &[], n, CRead::new(&data, Menu::PLAIN).chunk(chunk), &want, "constant chunks");
                if chunk != 0 {
                    same(ctx, &data, &[], n, CRead::new(&data, Menu::PLAIN).chunk(chunk).intr(), &want, "constant chunks, interrupted");
                }
                ctx.beat();
            }
            let r = std::io::BufReader::with_capacity(8192, CRead::new(&data, Menu::PLAIN));
            if read(r, &[], n).0 != want {
                violation(&format!("{}: parsed through a BufReader, something else is read", name));
            }
            ctx.distinct(fnv(&data));
        });
    }
    // malformed, truncated and arbitrary data: the same errors
    let (_, s) = shapes().swap_remove(3);
    let text = render(&s, Ht::Sha, 32768);
    let mut odd: Vec<Vec<u8>> = Vec::new();
    for c in (0..text.len()).step_by(7) {
        odd.push(text[..c].to_vec());
        let mut d = text.clone();
        d[c] = b' ';
        odd.push(d.clone());
        d[c] = b'\n';
        odd.push(d.clone());
        d.insert(c, b'/');
        odd.push(d);
    }
    odd.push([&text[..], b"/\n"].concat());
    odd.push([&text[..], b" /phantom\n"].concat());
    ctx.chunk(4);
    for (i, d) in odd.iter().enumerate() {
        ctx.case(|| format!("odd data {}", i), |ctx| {
            let n = 16;
            let (want, _) = read(CRead::new(d, Menu::PLAIN), &[], n);
            for chunk in 1..=70 {
                same(ctx, d, &[], n, CRead::new(d, Menu::PLAIN).chunk(chunk), &want, "constant chunks");
                same(ctx, d, &[], n, CRead::new(d, Menu::PLAIN).chunk(chunk).intr(), &want, "constant chunks, interrupted");
            }
            ctx.explore(Bounds::new(1), |ctx| same(ctx, d, &[], n, CRead::new(d, Menu::SPLIT), &want, "split reads"));
            ctx.distinct(fnv(d));
        });
    }
}
