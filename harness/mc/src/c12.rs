//! C12, C13, C14: merged indexes.
use crate::common::*;
use crate::pgen::*;
use dir_signature::v1::merge::{FileMergeBuilder, MergeError, MergedEntriesIterator, MergedSignatures};
use dir_signature::v1::Parser;
use kit::ctx::{cut, cut_ok, violation, Ctx};
use kit::hash::{fnv, Ht, ALL};
use kit::interpose::{with_env, Act, Call, Env, Op as Sys};
use kit::json::brief;
use kit::mc::explore::{choose, Bounds};
use kit::mc::label::USER;
use kit::model::*;
use std::collections::HashSet;
use std::io::{BufRead, Cursor};

pub const BSZ: u64 = 32768;

type Group = Vec<(u32, Item)>;

fn group(v: Vec<(&u32, Result<dir_signature::v1::Entry, dir_signature::v1::ParseError>)>) -> Group {
    v.into_iter().map(|(k, r)| (*k, item(Some(r)))).collect()
}

/// Keys are not their positions.
pub fn key_of(i: usize) -> u32 {
    match i {
        0..=7 => [31, 7, 19, 2, 5, 3, 41, 1][i],
        _ => 1000 + (i as u32 * 7919) % 4093,
    }
}

pub fn merged<'a>(texts: &[&'a [u8]]) -> MergedSignatures<u32, Cursor<&'a [u8]>> {
    let ps: Vec<(u32, Parser<Cursor<&[u8]>>)> = texts.iter().enumerate().map(|(i, t)| (key_of(i), parser(t))).collect();
    match cut(|| MergedSignatures::new(ps)) {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => violation(&format!("compatible indexes cannot be merged: {}", e)),
        Err(p) => violation(&format!("merging panics: {}", p)),
    }
}

fn mnext<R: BufRead>(it: &mut MergedEntriesIterator<u32, R>) -> Option<Group> {
    match cut(|| it.next().map(group)) {
        Ok(g) => g,
        Err(p) => violation(&format!("merged next panics: {}", p)),
    }
}
fn madv<R: BufRead>(it: &mut MergedEntriesIterator<u32, R>, op: &Op) -> Group {
    match cut(|| group(it.advance(&op.kind()))) {
        Ok(g) => g,
        Err(p) => violation(&format!("merged {:?} panics: {}", op, p)),
    }
}

/// Entries of index `i`: same kinds and paths, but other contents.
pub fn tag(ents: &[REnt], i: usize) -> Vec<REnt> {
    ents.iter()
        .map(|e| match &e.kind {
            RKind::Dir => e.clone(),
            RKind::File { exe, size, .. } => rfile(&e.path, *exe ^ (i == 1), *size + i as u64, BSZ),
            RKind::Link(t) => rlink(&e.path, &join(t, &[b'0'.wrapping_add(i as u8)])),
        })
        .collect()
}

struct RefMerge<'a> {
    c: Vec<RefCursor<'a>>,
}
impl<'a> RefMerge<'a> {
    fn next(&mut self) -> Option<Group> {
        let min = self.c.iter().filter_map(|c| c.keys.get(c.pos)).min()?.clone();
        let mut g = Vec::new();
        for (i, c) in self.c.iter_mut().enumerate() {
            if c.keys.get(c.pos) == Some(&min) {
                g.push((key_of(i), Item::Ent(c.step(&Op::Next).unwrap().clone())));
            }
        }
        Some(g)
    }
    fn adv(&mut self, op: &Op) -> Group {
        let mut g = Vec::new();
        for (i, c) in self.c.iter_mut().enumerate() {
            if let Some(e) = c.step(op) {
                g.push((key_of(i), Item::Ent(e.clone())));
            }
        }
        g
    }
    fn state(&self) -> Vec<u8> {
        self.c.iter().map(|c| c.pos as u8).collect() 
    }
}

pub struct Idx {
    pub ents: Vec<REnt>,
    pub keys: Vec<Key>,
    pub text: Vec<u8>,
}
impl Idx {
    pub fn new(ents: Vec<REnt>) -> Idx {
        Idx { keys: keys(&ents), text: render(&ents, Ht::Sha, BSZ), ents }
    }
}

/// One merged history against the reference.
fn history(ix: &[&Idx], ops: &[&Op], what: &dyn Fn() -> String) -> Vec<Vec<u8>> {
    let texts: Vec<&[u8]> = ix.iter().map(|i| &i.text[..]).collect();
    let mut m = merged(&texts);
    let mut it = cut_ok(|| m.iter());
    let mut r = RefMerge { c: ix.iter().map(|i| RefCursor::new(&i.ents, &i.keys)).collect() };
    let mut states = vec![r.state()];
    let fail = |i: usize, o: &dyn std::fmt::Debug, got: &dyn std::fmt::Debug, want: &dyn std::fmt::Debug| -> ! {
        violation(&format!("{}: after {:?}, {:?} gives {:?} instead of {:?}", what(), &ops[..i], o, got, want))
    };
    for (i, op) in ops.iter().enumerate() {
        if let Op::Next = op {
            let (want, got) = (r.next(), mnext(&mut it));
            if want != got {
                fail(i, op, &got, &want);
            }
        } else {
            let (want, got) = (r.adv(op), madv(&mut it, op));
            if want != got {
                fail(i, op, &got, &want);
            }
        }
        states.push(r.state());
    }
    loop {
        let (want, got) = (r.next(), mnext(&mut it));
        if want != got {
            fail(ops.len(), &"next while draining", &got, &want);
        }
        if want.is_none() {
            break;
        }
    }
    states
}

/// Indexes over a pool of entries: every sub-tree of the pool.
fn pool(n: usize) -> Vec<Idx> {
    let full: Vec<REnt> = match n {
        0 => vec![rdir(b"/"), rfile(b"/b", false, 3, BSZ), rdir(b"/a"), rfile(b"/a/x", true, 40000, BSZ), rdir(b"/a-b")],
        1 => vec![rdir(b"/"), rfile(b"/a", false, 3, BSZ), rlink(b"/c", b"t"), rdir(b"/a"), rfile(b"/a/x", true, 0, BSZ), rdir(b"/a/y"), rdir(b"/b")],
        2 => vec![rdir(b"/"), rdir(b"/a"), rdir(b"/a/b"), rfile(b"/a/b/x", false, 1, BSZ), rdir(b"/a-b"), rfile(b"/a-b/x", true, 2, BSZ), rdir(b"/a.b")],
        _ => vec![rdir(b"/"), rlink(b"/m", b"l"), rdir(b"/a"), rfile(b"/a/p", false, 1, BSZ), rfile(b"/a/q", false, 2, BSZ), rdir(b"/b"), rfile(b"/b/p", true, 1, BSZ)],
    };
    let mut out = Vec::new();
    for mask in 0..1u32 << (full.len() - 1) {
        let mut e = vec![full[0].clone()];
        for i in 1..full.len() {
            if mask >> (i - 1) & 1 == 1 {
                e.push(full[i].clone());
            }
        }
        // an entry needs its directory
        let ok = e.iter().all(|x| {
            let cut = x.path.iter().rposition(|&b| b == b'/').unwrap();
            let parent = if cut == 0 { &b"/"[..] } else { &x.path[..cut] };
            e.iter().any(|d| d.is_dir() && d.path == parent)
        });
        if ok {
            out.push(Idx::new(e));
        }
    }
    out.push(Idx::new(vec![]));
    out
}

fn retag(ix: &Idx, i: usize) -> Idx {
    Idx::new(tag(&ix.ents, i))
}

pub fn run12(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation merges 1 to 6 indexes, iterates to the end and compares every group with the reference; with malformed lines, the results under each key must be what that index alone gives; distinct by combination");
    ctx.text("bounds", "all ordered pairs and triples (4-tuples: thorough) of the indexes over every sub-tree of four entry pools (files, links, directories, a file and a directory at the same path, siblings whose names continue each other with '-' and '.', nested directories); all 4- and 5-tuples (thorough: 6-tuples) of indexes of up to 4 entries; up to 600 (thorough: 4000) indexes; large ones as in C08; every index carrying its own contents; malformed and truncated lines at every position of every member of all pairs of five indexes, and of every non-empty set of members of 3 to 5 (some sets of up to 40) indexes");
    for pn in 0..4 {
        let ps = pool(pn);
        let tagged: Vec<Vec<Idx>> = (0..4).map(|i| ps.iter().map(|x| retag(x, i)).collect()).collect();
        let n = ps.len();
        ctx.chunk(4);
        for a in 0..n {
            ctx.case(|| format!("pool {} first index {}", pn, a), |ctx| {
                let mut one = |ix: &[(usize, usize)]| {
                    let v: Vec<&Idx> = ix.iter().map(|&(i, j)| &tagged[i][j]).collect();
                    history(&v, &[], &|| format!("indexes {:?} of pool {}: {:?}", ix, pn, v.iter().map(|x| x.ents.iter().map(|e| kit::json::show(&line(e))).collect::<Vec<_>>()).collect::<Vec<_>>()));
                    ctx.eval();
                    ctx.distinct(fnv(format!("{} {:?}", pn, ix).as_bytes()));
                };
                one(&[(0, a)]);
                for b in 0..n {
                    one(&[(0, a), (1, b)]);
                    for c in 0..n {
                        one(&[(0, a), (1, b), (2, c)]);
                    }
                }
                ctx.beat();
            });
        }
        if ctx.thorough() && pn == 0 {
            ctx.chunk(1);
            for a in 0..n {
                for b in 0..n {
                    ctx.case(|| format!("4-tuples of pool {} from {} {}", pn, a, b), |ctx| {
                        for c in 0..n {
                            for d in 0..n {
                                let v = [&tagged[0][a], &tagged[1][b], &tagged[2][c], &tagged[3][d]];
                                history(&v, &[], &|| format!("4 indexes {} {} {} {}", a, b, c, d));
                                ctx.eval();
                            }
                        }
                    });
                }
            }
        }
    }
    // many small ones
    let full = [rdir(b"/"), rfile(b"/f", false, 3, BSZ), rdir(b"/d"), rlink(b"/d/l", b"t")];
    let subsets: Vec<Vec<REnt>> = (0..16usize).map(|m| (0..4).filter(|i| m >> i & 1 == 1).map(|i| full[i].clone()).collect::<Vec<_>>()).filter(|v| v.iter().all(|e| e.is_dir() || v.iter().any(|d| d.is_dir() && e.path.starts_with(&d.path) && (d.path.len() == 2) == (e.path.len() == 4)))).collect();
    let tagged: Vec<Vec<Idx>> = (0..8).map(|i| subsets.iter().map(|x| Idx::new(tag(x, i))).collect()).collect();
    for k in 4..=ctx.pick(5usize, 6) {
        for a in 0..subsets.len() {
            for b in 0..subsets.len() {
                ctx.case(|| format!("{} small indexes from {} {}", k, a, b), |ctx| {
                    for w in words(subsets.len(), k - 2) {
                        let mut id = vec![a, b];
                        id.extend(w);
                        let v: Vec<&Idx> = id.iter().enumerate().map(|(i, &j)| &tagged[i][j]).collect();
                        history(&v, &[], &|| format!("{} small indexes {:?}", k, id));
                        ctx.eval();
                        ctx.distinct(fnv(format!("small {:?}", id).as_bytes()));
                    }
                    ctx.beat();
                });
            }
        }
    }
    many_merged(ctx, &subsets, &[]);
    for (name, ents, bs) in large(ctx.thorough()) {
        if bs == BSZ {
            ctx.case(|| format!("large: {}", name), |ctx| {
                let a = Idx::new(ents.clone());
                let b = Idx::new(tag(&ents, 1));
                let mut c = ents.clone();
                c.remove(ents.len() / 2);
                let c = Idx::new(tag(&c, 2));
                let d = Idx::new(vec![rdir(b"/"), rdir(b"/zz")]);
                for v in [[&a, &b, &c], [&d, &c, &b], [&a, &d, &a]] {
                    history(&v, &[], &|| name.clone());
                    ctx.eval();
                    ctx.beat();
                }
            });
        }
    }
    // none at all
    ctx.case(|| "no index".into(), |ctx| {
        let mut m = merged(&[]);
        let mut it = m.iter();
        if mnext(&mut it).is_some() || !madv(&mut it, &Op::Adv(true, b"/".to_vec())).is_empty() || mnext(&mut it).is_some() {
            violation("merging no index yields entries");
        }
        ctx.eval();
    });
    // errors are reported under the right key, and lose nothing
    let ps: Vec<Idx> = shapes().into_iter().map(|(_, e)| Idx::new(e)).collect();
    ctx.chunk(1);
    for i in 0..ps.len() {
        for j in 0..ps.len() {
            ctx.case(|| format!("malformed line in one of shapes {} {}", i, j), |ctx| {
                for which in 0..2 {
                    let good = &ps[if which == 0 { j } else { i }].text;
                    let src = &ps[if which == 0 { i } else { j }].text;
                    let lines: Vec<&[u8]> = src.split_inclusive(|&b| b == b'\n').collect();
                    for pos in 1..lines.len() {
                        for bad in [&b"  a q 1\n"[..], b"\n", b"  a f 1\n", b"  a f x\n", b" zz\n"] {
                            for replace in [false, true] {
                                if replace && pos + 1 == lines.len() {
                                    continue;
                                }
                                let mut t = Vec::new();
                                for (k, l) in lines.iter().enumerate() {
                                    if k == pos {
                                        t.extend_from_slice(bad);
                                        if replace {
                                            continue;
                                        }
                                    }
                                    t.extend_from_slice(l);
                                }
                                errors(ctx, &t, good, which);
                            }
                        }
                    }
                }
            });
            ctx.case(|| format!("malformed lines in many of shapes {} {}", i, j), |ctx| {
                let lines: Vec<&[u8]> = ps[i].text.split_inclusive(|&b| b == b'\n').collect();
                for pos in 1..lines.len() {
                    let mut t = lines[..pos].concat();
                    t.extend_from_slice(b"  a q 1\n");
                    t.extend(lines[pos..].concat());
                    for n in 3..=5usize {
                        for w in 1..1u32 << n {
                            let which: Vec<bool> = (0..n).map(|k| w >> k & 1 == 1).collect();
                            errors_in(ctx, &t, &which, &ps[j].text);
                            errors_in(ctx, &lines[..pos].concat(), &which, &ps[j].text);
                        }
                    }
                    for n in [8usize, 17, 40] {
                        errors_in(ctx, &t, &vec![true; n], &ps[j].text);
                        errors_in(ctx, &t, &(0..n).map(|k| k % 3 == 1).collect::<Vec<_>>(), &ps[j].text);
                    }
                }
            });
            ctx.case(|| format!("truncation of one of shapes {} {}", i, j), |ctx| {
                for which in 0..2 {
                    let good = &ps[if which == 0 { j } else { i }].text;
                    let src = &ps[if which == 0 { i } else { j }].text;
                    let head = src.iter().position(|&b| b == b'\n').unwrap() + 1;
                    for cutat in head..src.len() {
                        errors(ctx, &src[..cutat], good, which);
                    }
                }
            });
        }
    }
}

fn errors(ctx: &mut Ctx, bad: &[u8], good: &[u8], which: usize) {
    errors_in(ctx, bad, if which == 0 { &[true, false] } else { &[false, true] }, good);
}

/// One index per flag: a bad one where it is set.
fn errors_in(ctx: &mut Ctx, bad: &[u8], which: &[bool], good: &[u8]) {
    let texts: Vec<&[u8]> = which.iter().map(|&b| if b { bad } else { good }).collect();
    let n = texts.len();
    let limit = bad.iter().filter(|&&b| b == b'\n').count() + 2;
    // what each index gives alone; a truncated one ends in errors for ever
    let mut want: Vec<Vec<Item>> = texts
        .iter()
        .map(|t| {
            let mut v = parse_all(t, if *t == bad { limit } else { usize::MAX >> 1 }).unwrap_or_else(|e| violation(&format!("cannot open: {}", e)));
            if v.last() == Some(&Item::End) {
                v.pop();
            }
            v
        })
        .collect();
    let mut m = merged(&texts);
    let mut it = m.iter();
    let mut got: Vec<Vec<Item>> = vec![vec![]; n];
    let calls = want.iter().map(|w| w.len()).sum::<usize>() + 1;
    for _ in 0..calls {
        let g = match mnext(&mut it) {
            None => break,
            Some(g) => g,
        };
        let mut seen = HashSet::new();
        let mut kind: Option<Key> = None;
        for (k, x) in g {
            if !seen.insert(k) {
                violation(&format!("key {} twice in one group", k));
            }
            if let Item::Ent(e) = &x {
                if kind.get_or_insert(e.key()) != &e.key() {
                    violation(&format!("different entries in one group: {:?}", x));
                }
            }
            match (0..n).find(|&i| key_of(i) == k) {
                Some(i) => got[i].push(x),
                None => violation(&format!("unknown key {}", k)),
            }
        }
    }
    for i in 0..n {
        let n = want[i].len().min(got[i].len());
        // an endless tail of errors may be cut anywhere
        let endless = |v: &[Item]| v.len() >= limit - 1 && matches!(v.last(), Some(Item::Err(_)));
        if want[i].len() != got[i].len() && endless(&want[i]) {
            want[i].truncate(n);
            got[i].truncate(n);
        }
        if want[i] != got[i] {
            violation(&format!("merged under key {}: {:?} instead of {:?}; of {:?}, indexes {} and {}", key_of(i), got[i], want[i], which, brief(bad), brief(good)));
        }
        if texts[i] == bad && !got[i].iter().any(|x| matches!(x, Item::Err(_))) {
            violation(&format!("no error from {}", brief(bad)));
        }
    }
    ctx.eval();
    ctx.distinct(fnv(bad) ^ fnv(good).rotate_left(1) ^ fnv(format!("{:?}", which).as_bytes()));
}

pub fn run13(ctx: &mut Ctx) {
    ctx.text("rule", "an execution runs one sequence of merged next/advance operations on fresh parsers, comparing each result with the reference (one reference cursor per index) and then drains; states are the vectors of cursor positions per combination; every model transition is executed by the implementation");
    ctx.text("bounds", "all ordered pairs of indexes over the sub-trees of the entry pools with all sequences of up to 2 operations (next, advance to every entry of the pool and to kinds before, between and behind), up to 3 (thorough: 4) for pool 0; up to 600 (thorough: 4000) indexes with up to 2 operations; all triples of pool 0 with up to 2 operations (thorough: 3); one malformed line of 3 kinds at every position of one of up to two indexes with all sequences of up to 3 (thorough: 4) advances (and next, for a single index)");
    bad_lines(ctx);
    {
        let full = [rdir(b"/"), rfile(b"/f", false, 3, BSZ), rdir(b"/d"), rlink(b"/d/l", b"t")];
        let sub: Vec<Vec<REnt>> = [&[0usize, 1, 2, 3][..], &[0, 2], &[0, 1], &[0, 2, 3], &[]].iter().map(|s| s.iter().map(|&i| full[i].clone()).collect()).collect();
        let mut ops = vec![Op::Next, Op::Adv(true, b"/\xff".to_vec()), Op::Adv(false, b"/e".to_vec()), Op::Adv(false, b"/g".to_vec())];
        ops.extend(full.iter().map(Op::adv));
        many_merged(ctx, &sub, &ops);
    }
    for pn in 0..4 {
        let ps = pool(pn);
        let tagged: Vec<Vec<Idx>> = (0..3).map(|i| ps.iter().map(|x| retag(x, i)).collect()).collect();
        let full = ps.iter().max_by_key(|i| i.ents.len()).unwrap();
        let mut ops = vec![Op::Next];
        ops.extend(full.ents.iter().map(Op::adv));
        let mut ab = absent(&full.ents);
        ab.truncate(7);
        ab.push(Op::Adv(true, b"/\xff".to_vec()));
        ops.extend(ab);
        let n = ps.len();
        let depth = if pn == 0 { ctx.pick(3, 4) } else { ctx.pick(2, 3) };
        let go = |ctx: &mut Ctx, v: &[&Idx], id: &[usize], depth: usize| {
            let mut seen = HashSet::new();
            for w in words(ops.len(), depth) {
                let o: Vec<&Op> = w.iter().map(|&i| &ops[i]).collect();
                for s in history(v, &o, &|| format!("indexes {:?} of pool {}", id, pn)) {
                    seen.insert(fnv(format!("{} {:?} {:?}", pn, id, s).as_bytes()));
                }
                ctx.eval();
                ctx.add("executions", 1);
                ctx.add("transitions", depth as u64);
            }
            for s in seen {
                ctx.distinct(s);
            }
        };
        ctx.chunk(1);
        for a in 0..n {
            for b in 0..n {
                ctx.case(|| format!("pool {} pair {} {} depth {}", pn, a, b, depth), |ctx| go(ctx, &[&tagged[0][a], &tagged[1][b]], &[a, b], depth));
            }
        }
        if pn == 0 {
            for a in 0..n {
                for b in 0..n {
                    ctx.case(|| format!("pool {} triples {} {}", pn, a, b), |ctx| {
                        for c in 0..n {
                            go(ctx, &[&tagged[0][a], &tagged[1][b], &tagged[2][c]], &[a, b, c], ctx.pick(2, 3));
                            ctx.beat();
                        }
                    });
                }
            }
        }
    }
}

/// Very many indexes.
fn many_merged(ctx: &mut Ctx, subsets: &[Vec<REnt>], ops: &[Op]) {
    ctx.chunk(1);
    for n in ctx.pick(vec![9usize, 16, 33, 64, 65, 255, 256, 257, 600], vec![9, 16, 33, 64, 65, 127, 128, 129, 255, 256, 257, 600, 1023, 1025, 4000]) {
        for step in 0..subsets.len().min(ctx.pick(4, 8)) {
            ctx.case(|| format!("{} indexes, step {}", n, step), |ctx| {
                let all: Vec<Idx> = (0..n).map(|i| Idx::new(tag(&subsets[(i * step + step / 2) % subsets.len()], i))).collect();
                let v: Vec<&Idx> = all.iter().collect();
                history(&v, &[], &|| format!("{} indexes, step {}", n, step));
                for o in ops {
                    history(&v, &[o], &|| format!("{} indexes, step {}", n, step));
                    for o2 in ops {
                        if n < 100 {
                            history(&v, &[o, o2], &|| format!("{} indexes, step {}", n, step));
                            ctx.eval();
                        }
                    }
                }
                ctx.eval();
                ctx.distinct(fnv(format!("many {} {}", n, step).as_bytes()));
            });
        }
    }
}

/// What a single cursor over lines, some of them malformed, gives.
struct LineCursor {
    items: Vec<Item>,
    pos: usize,
}
impl LineCursor {
    fn adv(&mut self, op: &Op) -> Option<Item> {
        let k = op.key().unwrap();
        loop {
            let x = match self.items.get(self.pos) {
                None => return None,
                Some(x) => x.clone(),
            };
            if let Item::Ent(e) = &x {
                if e.key() > k {
                    return None;
                }
                if e.key() < k {
                    self.pos += 1;
                    continue;
                }
            }
            self.pos += 1;
            return Some(x);
        }
    }
}

/// Advances over indexes with malformed lines: a malformed line that is met
/// is the result of its index, once; afterwards everything else is there.
fn bad_lines(ctx: &mut Ctx) {
    let ents = vec![rdir(b"/"), rfile(b"/b", false, 3, BSZ), rdir(b"/a"), rfile(b"/a/x", true, 40000, BSZ)];
    let good = Idx::new(ents.clone());
    let mut ops: Vec<Op> = ents.iter().map(Op::adv).collect();
    ops.extend([Op::Adv(true, b"/0".to_vec()), Op::Adv(true, b"/\xff".to_vec()), Op::Next]);
    let depth = ctx.pick(3, 4);
    let lines: Vec<Vec<u8>> = good.text.split_inclusive(|&b| b == b'\n').map(|l| l.to_vec()).collect();
    for pos in 1..lines.len() {
        for (bi, bad) in [&b"  a q 1\n"[..], b"\n", b"  m f x\n"].into_iter().enumerate() {
            for n in 1..=2usize {
                for at in 0..n {
                    ctx.case(|| format!("malformed line {} at {} in index {} of {}", bi, pos, at, n), |ctx| {
                        let mut ls = lines.clone();
                        ls.insert(pos, bad.to_vec());
                        let text = ls.concat();
                        let texts: Vec<&[u8]> = (0..n).map(|i| if i == at { &text[..] } else { &good.text[..] }).collect();
                        let alone: Vec<Vec<Item>> = texts
                            .iter()
                            .map(|t| {
                                let mut v = parse_all(t, 100).unwrap_or_else(|e| violation(&format!("cannot open: {}", e)));
                                v.retain(|x| *x != Item::End);
                                v
                            })
                            .collect();
                        if alone[at].iter().filter(|x| matches!(x, Item::Err(_))).count() != 1 {
                            violation(&format!("one malformed line gives {:?}", alone[at]));
                        }
                        for w in words(ops.len(), depth) {
                            // with several indexes, next may group an error with anything
                            if n > 1 && w.iter().any(|&i| matches!(ops[i], Op::Next)) {
                                continue;
                            }
                            let fail = |m: String| -> ! { violation(&format!("indexes {:?}, {:?}: {}", texts.iter().map(|t| brief(t)).collect::<Vec<_>>(), w.iter().map(|&i| &ops[i]).collect::<Vec<_>>(), m)) };
                            let mut m = merged(&texts);
                            let mut it = cut_ok(|| m.iter());
                            let mut r: Vec<LineCursor> = alone.iter().map(|a| LineCursor { items: a.clone(), pos: 0 }).collect();
                            for &i in &w {
                                if let Op::Next = ops[i] {
                                    let want = r[0].items.get(r[0].pos).cloned().map(|x| vec![(key_of(0), x)]);
                                    r[0].pos = (r[0].pos + 1).min(r[0].items.len());
                                    let got = mnext(&mut it);
                                    if got != want {
                                        fail(format!("next gives {:?} instead of {:?}", got, want));
                                    }
                                } else {
                                    let want: Group = r.iter_mut().enumerate().filter_map(|(k, c)| c.adv(&ops[i]).map(|x| (key_of(k), x))).collect();
                                    let got = madv(&mut it, &ops[i]);
                                    if got != want {
                                        fail(format!("{:?} gives {:?} instead of {:?}", ops[i], got, want));
                                    }
                                }
                            }
                            let mut rest: Vec<Vec<Item>> = vec![vec![]; n];
                            for _ in 0..30 {
                                match mnext(&mut it) {
                                    None => break,
                                    Some(g) => {
                                        for (k, x) in g {
                                            rest[(0..n).find(|&i| key_of(i) == k).unwrap()].push(x);
                                        }
                                    }
                                }
                            }
                            for k in 0..n {
                                if rest[k] != r[k].items[r[k].pos..] {
                                    fail(format!("afterwards index {} gives {:?} instead of {:?}", k, rest[k], &r[k].items[r[k].pos..]));
                                }
                            }
                            ctx.eval();
                            ctx.add("executions", 1);
                        }
                        ctx.distinct(fnv(format!("bad {} {} {} {}", pos, bi, at, n).as_bytes()));
                    });
                }
            }
        }
    }
}

/// Fail one call on the index files.
struct FailCall;
impl Env for FailCall {
    fn call(&mut self, c: &Call) -> Act {
        let menu: &[i32] = match c.op {
            Sys::Open => &[libc::EACCES, libc::EMFILE],
            Sys::Read => &[libc::EIO, libc::EISDIR],
            _ => return Act::Pass,
        };
        match choose(menu.len() + 1, 1, USER + 30) {
            0 => Act::Pass,
            k => Act::Fail(menu[k - 1]),
        }
    }
}

fn combine(ctx: &mut Ctx, w: &[usize], heads: &[(Ht, u64)], texts: &[Vec<u8>]) {
    let ps: Vec<(usize, Parser<Cursor<&[u8]>>)> = w.iter().enumerate().map(|(i, &x)| (i, parser(&texts[x]))).collect();
    let hs: Vec<_> = w.iter().map(|&x| ht(heads[x].0)).collect();
    let bs: Vec<u64> = w.iter().map(|&x| heads[x].1).collect();
    let same_h = hs.windows(2).all(|p| p[0] == p[1]);
    let same_b = bs.windows(2).all(|p| p[0] == p[1]);
    let r = match cut(|| MergedSignatures::new(ps)) {
        Ok(r) => r,
        Err(p) => violation(&format!("merging panics: {}", p)),
    };
    let good = match &r {
        Ok(_) => same_h && same_b,
        Err(MergeError::HashTypesMismatch(v)) => !same_h && *v == hs,
        Err(MergeError::BlockSizesMismatch(v)) => !same_b && *v == bs,
        Err(_) => false,
    };
    if !good {
        violation(&format!("merging headers {:?} gives {:?}", w.iter().map(|&x| heads[x]).collect::<Vec<_>>(), r.map(|_| ())));
    }
    ctx.eval();
    ctx.distinct(fnv(format!("{:?}", w).as_bytes()));
}

pub fn run14(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation combines indexes and checks that merging succeeds exactly if hash types and block sizes agree, with the right error and list otherwise; or lets the file-based builder meet a missing, unreadable or malformed file, or one failing system call");
    ctx.text("bounds", "all tuples of up to 3 (thorough: 4) headers over 3 hash types x block sizes {1,32768,2^64-1}; 4 to 8 (thorough: 12) headers of which any one or two differ from the rest in hash type, block size or both; files: all positions of one bad file among up to 9, added in another order than that of their names, up to 40 good files with entries of their own; each open/read of the builder failing with 2 errors");
    let bss = [1u64, 32768, u64::MAX];
    let heads: Vec<(Ht, u64)> = ALL.iter().flat_map(|&h| bss.iter().map(move |&b| (h, b))).collect();
    let texts: Vec<Vec<u8>> = heads.iter().map(|&(h, b)| render(&[rdir(b"/"), rfile(b"/a", false, 0, b)], h, b)).collect();
    ctx.chunk(1);
    for k in 0..=ctx.pick(3, 4) {
        for w in words(heads.len(), k) {
            ctx.fast(|ctx| {
                combine(ctx, &w, &heads, &texts);
            });
        }
    }
    // many, of which one or two differ
    for n in (4..=ctx.pick(8, 12)).chain([20, 65, 257]) {
        for (x, y) in [(0usize, 1usize), (0, 3), (0, 4), (4, 3), (1, 5)] {
            for i in 0..n {
                for j in i..n {
                    ctx.fast(|ctx| {
                        let w: Vec<usize> = (0..n).map(|k| if k == i || k == j { y } else { x }).collect();
                        combine(ctx, &w, &heads, &texts);
                    });
                }
            }
        }
    }
    let good_text = render(&[rdir(b"/"), rfile(b"/a", false, 0, 32768)], Ht::Sha, 32768);
    let other = render(&[rdir(b"/")], Ht::B2, 32768);
    let other_bs = render(&[rdir(b"/")], Ht::Sha, 4096);
    enum Want {
        Io,
        Parse,
        Hash,
        Bs,
    }
    let bads: Vec<(&str, Option<Vec<u8>>, Want)> = vec![
        ("missing", None, Want::Io),
        ("empty", Some(vec![]), Want::Parse),
        ("no newline", Some(b"DIRSIGNATURE.v1 sha512/256 block_size=32768".to_vec()), Want::Parse),
        ("other magic", Some(b"DIRSIGNATURES.v1 sha512/256 block_size=32768\n".to_vec()), Want::Parse),
        ("other version", Some(b"DIRSIGNATURE.v2 sha512/256 block_size=32768\n".to_vec()), Want::Parse),
        ("other hash", Some(b"DIRSIGNATURE.v1 md5 block_size=32768\n".to_vec()), Want::Parse),
        ("no block size", Some(b"DIRSIGNATURE.v1 sha512/256\n".to_vec()), Want::Parse),
        ("hash differs", Some(other), Want::Hash),
        ("block size differs", Some(other_bs), Want::Bs),
    ];
    for n in [1usize, 2, 3, 5, 9] {
        for pos in 0..n {
            for (name, text, want) in &bads {
                if n == 1 && matches!(want, Want::Hash | Want::Bs) {
                    continue;
                }
                ctx.case(|| format!("file {} of {}: {}", pos, n, name), |ctx| {
                    let dir = ctx.fresh("t");
                    std::fs::create_dir(&dir).unwrap();
                    let mut b = FileMergeBuilder::new();
                    for i in 0..n {
                        // the order in which files are added is not that of their names
                        let f = dir.join(format!("index{}", i * 7 % 10));
                        if i != pos {
                            std::fs::write(&f, &good_text).unwrap();
                        } else if let Some(t) = text {
                            std::fs::write(&f, t).unwrap();
                        }
                        b.add(format!("/base{}", i * 3 % 10), &f);
                    }
                    let r = match cut(|| b.finalize().map(|_| ())) {
                        Ok(r) => r,
                        Err(p) => violation(&format!("finalize panics: {}", p)),
                    };
                    let file = dir.join(format!("index{}", pos * 7 % 10));
                    let okay = match (&r, want) {
                        (Err(MergeError::Io(m, _)), Want::Io) => m.contains(&*file.to_string_lossy()),
                        (Err(MergeError::Parse(_)), Want::Parse) => true,
                        (Err(MergeError::HashTypesMismatch(v)), Want::Hash) => v.len() == n && v[pos] == ht(Ht::B2) && v.iter().filter(|h| **h == ht(Ht::Sha)).count() == n - 1,
                        (Err(MergeError::BlockSizesMismatch(v)), Want::Bs) => v.len() == n && v[pos] == 4096 && v.iter().filter(|b| **b == 32768).count() == n - 1,
                        _ => false,
                    };
                    if !okay {
                        violation(&format!("a bad index file ({}) gives {:?}", name, r));
                    }
                    ctx.eval();
                    ctx.distinct(fnv(format!("{} {} {}", n, pos, name).as_bytes()));
                    wipe(&dir);
                });
            }
        }
    }
    ctx.case(|| "good files, each call failing".into(), |ctx| {
        let dir = ctx.fresh("t");
        std::fs::create_dir(&dir).unwrap();
        for i in 0..3 {
            std::fs::write(dir.join(format!("index{}", i)), &good_text).unwrap();
        }
        ctx.explore(Bounds::new(1), |ctx| {
            let mut b = FileMergeBuilder::new();
            for i in 0..3 {
                b.add(format!("/base{}", i), dir.join(format!("index{}", i)));
            }
            let r = with_env(&mut FailCall, || cut(|| b.finalize().map(|_| ()).map_err(|e| e.to_string())));
            let failed = kit::mc::explore::current_choices().iter().any(|&c| c != 0);
            match r {
                Ok(Ok(())) if !failed => {}
                Ok(Err(_)) if failed => {}
                x => violation(&format!("with {} the builder gives {:?}", if failed { "a failing call" } else { "good files" }, x)),
            }
            ctx.eval();
        });
        // and what it builds: each file has an entry of its own, too
        for n in [1usize, 2, 3, 5, 10, 40] {
            let mut b = FileMergeBuilder::new();
            for i in 0..n {
                let f = dir.join(format!("own{}", i * 7 % n.max(10)));
                std::fs::write(&f, render(&[rdir(b"/"), rfile(b"/a", false, i as u64, BSZ), rlink(format!("/own{:03}", i).as_bytes(), b"t")], Ht::Sha, BSZ)).unwrap();
                b.add(format!("/base{}", i * 3 % n.max(10)), &f);
            }
            let mut m = ok(b.finalize(), "finalize");
            let groups: Vec<Vec<(String, Item)>> = m.iter().map(|g| g.into_iter().map(|(k, e)| (k.to_string_lossy().into_owned(), item(Some(e)))).collect()).collect();
            let base = |i: usize| format!("/base{}", i * 3 % n.max(10));
            let mut want: Vec<Vec<(String, Item)>> = vec![
                (0..n).map(|i| (base(i), Item::Ent(rdir(b"/")))).collect(),
                (0..n).map(|i| (base(i), Item::Ent(rfile(b"/a", false, i as u64, BSZ)))).collect(),
            ];
            for i in 0..n {
                want.push(vec![(base(i), Item::Ent(rlink(format!("/own{:03}", i).as_bytes(), b"t")))]);
            }
            if groups != want {
                violation(&format!("{} files merged by the builder give {:?}", n, groups));
            }
            ctx.eval();
        }
        // each addition counts, also of the same file or for the same base
        for n in [2usize, 3, 4] {
            for w in words(9, n) {
                let mut b = FileMergeBuilder::new();
                for &x in &w {
                    b.add(format!("/base{}", x / 3), dir.join(format!("own{}", x % 3)));
                }
                let mut m = ok(b.finalize(), "finalize");
                let got: Vec<Vec<(String, Item)>> = m.iter().map(|g| g.into_iter().map(|(k, e)| (k.to_string_lossy().into_owned(), item(Some(e)))).collect()).collect();
                // file k has been written last for the number i with i*7 % 40 = k
                let own = |f: usize| (0..40).find(|i| i * 7 % 40 == f).unwrap();
                let mut want: std::collections::BTreeMap<Vec<u8>, Vec<(String, Item)>> = Default::default();
                for &x in &w {
                    let i = own(x % 3);
                    for e in [rdir(b"/"), rfile(b"/a", false, i as u64, BSZ), rlink(format!("/own{:03}", i).as_bytes(), b"t")] {
                        want.entry(e.path.clone()).or_default().push((format!("/base{}", x / 3), Item::Ent(e)));
                    }
                }
                let want: Vec<_> = want.into_values().collect();
                if got != want {
                    violation(&format!("additions {:?} (base / 3, file % 3) give {:?}, expected {:?}", w, got, want));
                }
                ctx.eval();
                ctx.distinct(fnv(format!("additions {:?}", w).as_bytes()));
            }
        }
        wipe(&dir);
    });
}
