//! C27: several source directories; C30: different trees, different checksums.
use crate::common::*;
use crate::universe::{small_leaves, small_names};
use kit::ctx::{cut_ok, violation, Ctx};
use kit::hash::{fnv, Ht, ALL};
use kit::interpose::NoEnv;
use kit::mc::explore::Bounds;
use kit::mc::sched;
use kit::model::*;
use std::collections::{BTreeMap, HashMap};
use std::io::Cursor;
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// Union of trees, if no name other than a directory's occurs twice.
pub fn union(ts: &[&Node]) -> Option<Node> {
    let mut m: BTreeMap<Vec<u8>, Node> = BTreeMap::new();
    for t in ts {
        for (k, v) in t.children() {
            let new = match m.remove(k) {
                None => v.clone(),
                Some(old) if old.is_dir() && v.is_dir() => union(&[&old, v])?,
                Some(_) => return None,
            };
            m.insert(k.clone(), new);
        }
    }
    Some(Node::Dir(m))
}

fn scan_union(ctx: &mut Ctx, ts: &[&Node], want: &Node, orders: &[Vec<usize>], opts: &[(Opts, Option<sched::Config>)]) {
    let base = ctx.fresh("t");
    std::fs::create_dir(&base).unwrap();
    let roots: Vec<PathBuf> = ts.iter().enumerate().map(|(i, t)| { let p = base.join(format!("r{}", i)); make(t, &p); p }).collect();
    for ord in orders {
        let dirs: Vec<(&Path, &str)> = ord.iter().map(|&i| (roots[i].as_path(), "/")).collect();
        for (o, sc) in opts {
            ctx.explore(Bounds::new(if sc.is_some() { 1 } else { 0 }), |ctx| {
                let s = scan_env(&dirs, o, &mut NoEnv, *sc);
                judge(ctx, &s, want, o, &format!("scan of {:?} in the order {:?}", ts, ord));
                ctx.eval();
                ctx.outcome(fnv(&s.out));
            });
            ctx.distinct(fnv(format!("{:?} {:?} {:?}", ts, ord, o).as_bytes()));
        }
    }
    ctx.sample(|| format!("{:?} in {} orders gives {:?}", ts, orders.len(), want));
    wipe(&base);
}

pub fn run27(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation is one scan of several directories; its output must be the reference index of the union of their trees, for every order in which they are added");
    ctx.text("bounds", "all pairs of trees of up to 2 nodes (thorough: 3 and 2) over names {a,a-b,b} and leaves {empty file, executable, link, fifo} without name clashes, in both orders; all triples of trees of up to 1 node, and hand-made deep ones with up to 4 roots, in all orders; threads {0,2} (with schedules of up to 1 preemption for hand-made ones); configurations without a root; prefixes");
    ctx.text("assumptions", "a name that is a directory in one tree and something else in another counts as a clash");
    let th = ctx.thorough();
    let names = small_names();
    let mut small: Vec<Node> = Vec::new();
    for n in 0..=2 {
        small.extend(forests(n, &names, &small_leaves()).into_iter().map(Node::Dir));
    }
    let mut first = small.clone();
    if th {
        first.extend(forests(3, &names, &small_leaves()).into_iter().map(Node::Dir));
    }
    let plain: Vec<(Opts, Option<sched::Config>)> = vec![(Opts::new(Ht::Sha), None), (Opts::new(Ht::Sha).threads(2), None)];
    ctx.chunk(2);
    for a in &first {
        ctx.case(|| format!("{:?} with every tree of up to 2 nodes", a), |ctx| {
            for b in &small {
                if let Some(u) = union(&[a, b]) {
                    scan_union(ctx, &[a, b], &u, &perms(2), &plain);
                } else {
                    ctx.add("clashing_pairs_left_out", 1);
                }
            }
        });
    }
    // triples
    let tiny: Vec<Node> = small.iter().filter(|t| t.count() <= 1 || (t.count() == 2 && t.children().len() == 1 && th)).cloned().collect();
    for a in &tiny {
        ctx.case(|| format!("{:?} with every two trees of up to 1 node", a), |ctx| {
            for b in &tiny {
                for c in &tiny {
                    if let Some(u) = union(&[a, b, c]) {
                        scan_union(ctx, &[a, b, c], &u, &perms(3), &plain[..1]);
                    }
                }
            }
        });
    }
    ctx.chunk(1);
    let f = |s: &str| Node::file(s.as_bytes());
    let d = Node::dir;
    let hand: Vec<Vec<Node>> = vec![
        vec![d().with(b"d", d().with(b"e", d().with(b"1", f("1")))), d().with(b"d", d().with(b"e", d().with(b"2", f("2"))).with(b"3", f("3"))), d().with(b"d", d().with(b"f", d().with(b"4", Node::link(b"1"))))],
        vec![d().with(b"a", f("a")).with(b"c", d().with(b"x", f("1"))), d().with(b"b", f("b")).with(b"c", d().with(b"y", f("2"))), d().with(b"c", d().with(b"z", f("3")).with(b"w", d()))],
        vec![d().with(b"a", d().with(b"z", f("1"))), d().with(b"a-b", d().with(b"y", f("2"))), d().with(b"a.b", d()).with(b"a", d().with(b"y", d())), d().with(b"a", d().with(b"a", Node::exe(b"4")))],
        vec![d(), d(), d(), d()],
        vec![d().with(b"lib", d().with(b"one", f("1"))).with(b"usr", d().with(b"two", f("2"))), d().with(b"bin", d().with(b"three", f("3"))).with(b"lib", d().with(b"four", f("4"))).with(b"usr", d().with(b"five", f("5")))],
        vec![d().with(b"\x80", d().with(b"1", f("1"))).with(b"\x81", d().with(b"2", f("2"))), d().with(b"\x81", d().with(b"3", f("3"))).with(b"\x82", d()).with(b"\x80", d().with(b"4", f("4")))],
        vec![d(), d().with(b"x", f("only")), d()],
        vec![d().with(b"d", Node::dir().with(b"big", Node::file(&content(BS + 1, 1)))), d().with(b"d", d().with(b"big2", Node::file(&content(2 * BS, 3))).with(b"s", d()))],
    ];
    for ts in &hand {
        let r: Vec<&Node> = ts.iter().collect();
        let u = match union(&r) {
            Some(u) => u,
            None => panic!("clash in {:?}", ts),
        };
        for h in ALL {
            ctx.case(|| format!("{:?} {:?}", h, ts), |ctx| {
                let sc = sched::Config { task_syscalls: false, ..sched::Config::default() };
                let mut opts = vec![(Opts::new(h), None), (Opts::new(h).threads(3), None)];
                if h != Ht::B3 {
                    opts.push((Opts::new(h).threads(2).queue(1), Some(sc)));
                    opts.push((Opts::new(h).progress(), None));
                }
                scan_union(ctx, &r, &u, &perms(ts.len()), &opts);
                kit::interpose::take_stderr();
            });
        }
    }
    // the same empty directories several times; other ways to say /
    ctx.case(|| "one directory added several times".into(), |ctx| {
        let base = ctx.fresh("t");
        let t = d().with(b"e", d().with(b"g", d())).with(b"e-", d());
        make(&t, &base);
        for n in 1..4 {
            for threads in [0usize, 2] {
                let dirs: Vec<(&Path, &str)> = (0..n).map(|i| (base.as_path(), if i % 2 == 0 { "/" } else { "//" })).collect();
                let o = Opts::new(Ht::Sha).threads(threads);
                let s = scan_dirs(&dirs, &o);
                judge(ctx, &s, &t, &o, "scan of one directory added several times");
                ctx.eval();
            }
        }
        wipe(&base);
    });
    // many roots
    ctx.case(|| "twelve roots".into(), |ctx| {
        let ts: Vec<Node> = (0..12).map(|i| { let n = format!("f{}", (i * 7) % 12).into_bytes(); d().with(&n, f(&format!("{}", i))).with(b"s", d().with(&n, Node::link(&n))) }).collect();
        let r: Vec<&Node> = ts.iter().collect();
        let u = union(&r).unwrap();
        let orders: Vec<Vec<usize>> = (0..12).map(|k| (0..12).map(|i| (i + k) % 12).collect()).chain((0..12).map(|k| (0..12).rev().map(|i| (i + k) % 12).collect())).collect();
        scan_union(ctx, &r, &u, &orders, &plain);
    });
    // no root
    ctx.case(|| "configurations without a root".into(), |ctx| {
        let base = ctx.fresh("t");
        make(&d().with(b"x", f("1")), &base);
        for dirs in [vec![], vec![(base.as_path(), "/sub")], vec![(base.as_path(), "/sub"), (base.as_path(), "/a/b")]] {
            for threads in [0usize, 2] {
                for progress in [false, true] {
                    let mut o = Opts::new(Ht::Sha).threads(threads);
                    o.progress = progress;
                    let s = scan_env(&dirs, &o, &mut NoEnv, None);
                    kit::interpose::take_stderr();
                    match &s.res {
                        Err((Kind::NoRoot, _)) => {}
                        r => violation(&format!("a scan without a root directory ({} others) gives {:?}", dirs.len(), r)),
                    }
                    if !header(Ht::Sha, BS as u64).starts_with(&s.out) {
                        violation("a scan without a root directory writes an index");
                    }
                    ctx.eval();
                }
            }
        }
        wipe(&base);
    });
    // prefixes
    for prefix in ["/sub", "/sub/", "/a/b", "/d"] {
        ctx.case(|| format!("prefix {}", prefix), |ctx| {
            let base = ctx.fresh("t");
            std::fs::create_dir(&base).unwrap();
            let main = d().with(b"d", d().with(b"y", f("y"))).with(b"f", f("f"));
            let other = d().with(b"x", f("x")).with(b"z", d().with(b"l", Node::link(b"q")));
            make(&main, &base.join("m"));
            make(&other, &base.join("o"));
            let mut below = other.clone();
            for c in prefix.split('/').filter(|c| !c.is_empty()).rev() {
                below = d().with(c.as_bytes(), below);
            }
            let want = union(&[&main, &below]).unwrap();
            let (m, n) = (base.join("m"), base.join("o"));
            for dirs in [[(m.as_path(), "/"), (n.as_path(), prefix)], [(n.as_path(), prefix), (m.as_path(), "/")]] {
                for threads in [0usize, 2] {
                    let o = Opts::new(Ht::Sha).threads(threads);
                    let s = scan_dirs(&dirs, &o);
                    if s.res.is_ok() && s.out == index(&main, Ht::Sha) {
                        ctx.known("prefix-ignored", || format!("a directory added with prefix {} does not appear in the index", prefix));
                    } else {
                        judge(ctx, &s, &want, &o, &format!("scan with prefix {}", prefix));
                    }
                    ctx.eval();
                }
            }
            wipe(&base);
        });
    }
}

// ---------------------------------------------------------------- C30

fn checksum(root: &Path, o: &Opts) -> [u8; 32] {
    let s = scan(root, o);
    if let Err((k, e)) = &s.res {
        violation(&format!("scan fails: {:?} {}", k, e));
    }
    let c = match cut_ok(|| dir_signature::get_hash(&mut Cursor::new(&s.out[..]))) {
        Ok(c) => c,
        Err(e) => violation(&format!("get_hash of a scan fails: {}", e)),
    };
    c[..].try_into().unwrap_or_else(|_| violation("the checksum does not have 32 bytes"))
}

/// Every tree must have a checksum of its own.
fn distinct(ctx: &mut Ctx, ts: impl Iterator<Item = Node>, o: &Opts) {
    let mut seen: HashMap<[u8; 32], Node> = HashMap::new();
    for t in ts {
        let root = ctx.fresh("t");
        make(&t, &root);
        let c = checksum(&root, o);
        wipe(&root);
        ctx.eval();
        ctx.distinct(tree_id(&t));
        ctx.outcome(fnv(&c));
        ctx.beat();
        if let Some(other) = seen.get(&c) {
            if *other != t {
                violation(&format!("these trees have the same checksum ({:?}): {:?} and {:?}", o, t, other));
            }
        }
        seen.insert(c, t);
    }
    ctx.max("trees_compared_with_each_other", seen.len() as u64);
}

/// All trees that differ from `t` in one place.
fn edits(t: &Node) -> Vec<Node> {
    let mut out = Vec::new();
    match t {
        Node::Dir(m) => {
            for (k, v) in m {
                // change below
                for e in edits(v) {
                    let mut x = m.clone();
                    x.insert(k.clone(), e);
                    out.push(Node::Dir(x));
                }
                // an empty directory becomes something else
                if v.is_dir() && v.children().is_empty() {
                    for e in [Node::file(b""), Node::link(b"x")] {
                        let mut x = m.clone();
                        x.insert(k.clone(), e);
                        out.push(Node::Dir(x));
                    }
                }
                // remove
                let mut x = m.clone();
                x.remove(k);
                out.push(Node::Dir(x.clone()));
                // rename
                for name in [[&k[..], b"-"].concat(), [&k[..], b" "].concat(), k[..k.len() - 1].to_vec(), [b" ", &k[..]].concat(), k.iter().map(|b| b ^ 0x20).collect(), [&k[..], b"\\x41"].concat(), k.iter().map(|b| b | 0x80).collect()] {
                    if !name.is_empty() && name.len() < 256 && !m.contains_key(&name) && !name.contains(&b'/') && !name.contains(&0) && name != b"." && name != b".." {
                        let mut x = x.clone();
                        x.insert(name, v.clone());
                        out.push(Node::Dir(x));
                    }
                }
                // exchange with, and move into, a sibling
                for (k2, v2) in m {
                    if k2 > k && v2 != v {
                        let mut y = m.clone();
                        y.insert(k.clone(), v2.clone());
                        y.insert(k2.clone(), v.clone());
                        out.push(Node::Dir(y));
                    }
                    if k2 != k {
                        if let Node::Dir(inner) = v2 {
                            if !inner.contains_key(k) {
                                let mut i = inner.clone();
                                i.insert(k.clone(), v.clone());
                                let mut y = x.clone();
                                y.insert(k2.clone(), Node::Dir(i));
                                out.push(Node::Dir(y));
                            }
                        }
                    }
                }
                // move up a level
                if let Node::Dir(inner) = v {
                    for (k2, v2) in inner {
                        if !m.contains_key(k2) {
                            let mut i = inner.clone();
                            i.remove(k2);
                            let mut y = m.clone();
                            y.insert(k.clone(), Node::Dir(i));
                            y.insert(k2.clone(), v2.clone());
                            out.push(Node::Dir(y));
                        }
                    }
                }
            }
            for (i, n) in [Node::file(b""), Node::exe(b""), Node::link(b"x"), Node::dir()].into_iter().enumerate() {
                let mut x = m.clone();
                if x.insert(format!("new{}", i).into_bytes(), n).is_none() {
                    out.push(Node::Dir(x));
                }
            }
        }
        Node::File { data, mode } => {
            let file = |d: Vec<u8>| Node::File { data: Rc::new(d), mode: *mode };
            out.push(Node::File { data: data.clone(), mode: mode ^ 0o100 });
            let target: Vec<u8> = data[..data.len().min(50)].iter().map(|b| b | 1).collect();
            out.push(if target.is_empty() { Node::link(b"x") } else { Node::link(&target) });
            out.push(Node::dir());
            let n = data.len();
            let mut at: Vec<usize> = vec![0, 1, n / 2, n.saturating_sub(1), BS - 1, BS, BS + 1, 2 * BS - 1, 2 * BS, 8191, 8192, 4096];
            at.retain(|&i| i < n);
            at.sort();
            at.dedup();
            for &i in &at {
                let mut d = data.to_vec();
                d[i] ^= 1;
                out.push(file(d));
                let mut d = data.to_vec();
                d.remove(i);
                out.push(file(d));
                let mut d = data.to_vec();
                d.insert(i, data[i].wrapping_add(1));
                out.push(file(d));
                if i > 0 {
                    out.push(file(data[..i].to_vec()));
                }
            }
            for k in [1usize, 5, BS] {
                let mut d = data.to_vec();
                d.extend(vec![0; k]);
                out.push(file(d));
            }
            if n > 0 {
                out.push(file(vec![]));
            }
            let bl: Vec<&[u8]> = data.chunks(BS).collect();
            for i in 0..bl.len() {
                for j in 0..i {
                    if bl[i] != bl[j] {
                        let mut b = bl.clone();
                        b.swap(i, j);
                        out.push(file(b.concat()));
                    }
                }
                let mut b = bl.clone();
                b.remove(i);
                if !b.is_empty() && i + 1 < bl.len() {
                    out.push(file(b.concat()));
                }
            }
        }
        Node::Link(l) => {
            // each byte of its own
            for i in (0..l.len()).filter(|i| l.len() < 70 || i % 97 == 0 || [63, 64, 127, 128, 254, 255, 256, 511, 512, 1023, 1024, 4088, 4089].contains(i)) {
                let mut x = l.clone();
                x[i] ^= 4;
                if x[i] != 0 {
                    out.push(Node::Link(x));
                }
                out.push(Node::Link(if i == 0 { b"/".to_vec() } else { l[..i].to_vec() }));
            }
            for x in [[&l[..], b"x"].concat(), [&l[..], b" "].concat(), [b"./", &l[..]].concat(), [&l[..], b"/"].concat(), l.iter().map(|b| b ^ 0x20 | 1).collect()] {
                if x != *l && !x.contains(&0) {
                    out.push(Node::Link(x));
                }
            }
            out.push(Node::file(l));
            out.push(Node::dir());
        }
        _ => {}
    }
    out
}

pub fn run30(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation is one scan; within each set of trees the checksums (read with get_hash) must be pairwise distinct");
    ctx.text("bounds", "all trees of up to 3 nodes (thorough: 4) over names {a,a-b,b} and leaves {file, executable x empty, x, xy; links a, b}; for hand-made trees the tree and all trees that differ from it by one edit (rename, move, exchange, remove, add, re-type, retarget, flip, insert, delete or append bytes, cut, exchange or drop blocks, executable bit), thorough: by two edits; hash types x threads {0,2}");
    ctx.text("assumptions", "the three hash functions are collision free");
    let th = ctx.thorough();
    let leaves = || vec![Node::file(b""), Node::file(b"x"), Node::file(b"xy"), Node::exe(b""), Node::exe(b"x"), Node::link(b"a"), Node::link(b"b")];
    for h in ALL {
        for threads in [0usize, 2] {
            ctx.case(|| format!("all trees of up to 3 nodes, {:?}, {} threads", h, threads), |ctx| {
                let names = small_names();
                let nm = if h == Ht::Sha && threads == 0 || th { &names[..] } else { &names[..2] };
                let ts = (0..=3).flat_map(|n| forests(n, nm, &leaves())).map(Node::Dir);
                distinct(ctx, ts, &Opts::new(h).threads(threads));
            });
        }
    }
    if th {
        ctx.case(|| "all trees of up to 4 nodes".into(), |ctx| {
            let ts = (0..=4).flat_map(|n| forests(n, &small_names()[..2], &leaves())).map(Node::Dir);
            distinct(ctx, ts, &Opts::new(Ht::Sha));
        });
    }
    let f = |s: &str| Node::file(s.as_bytes());
    let mut bases = vec![
        Node::dir().with(b"a", Node::dir().with(b"b", f("1")).with(b"c", Node::link(b"b"))).with(b"d", Node::dir().with(b"b", f("2")).with(b"e", Node::dir().with(b"f", Node::exe(b"3")))).with(b"g", f("4")).with(b"h", Node::link(b"../g")),
        Node::dir().with(b"one", Node::file(&content(2 * BS + 7, 1))).with(b"two", Node::file(&content(BS, 3))).with(b"three", Node::exe(&content(BS + 1, 4))),
        Node::dir().with(b"z", Node::file(&content(3 * BS, 3))),
        Node::dir().with(b"a b", f("x")).with(b"a\\x20b", f("x")).with(b"c", Node::link(b"d e")).with(b"\xff", Node::dir().with(b"\n", f("y")).with(b"f 1", f(""))),
        Node::dir().with(b"x", Node::dir().with(b"f", f("1"))).with(b"x-y", Node::dir().with(b"f", f("2"))).with(b"x.y", Node::dir().with(b"f", Node::link(b"3"))),
    ];
    let long = |n: usize, c: u8| -> Vec<u8> { (0..n).map(|i| if i % 17 == 16 { b'/' } else { c }).collect() };
    bases.push(Node::dir().with(b"l", Node::link(&long(300, b'a'))).with(b"m", Node::link(&long(1025, 0xff))).with(b"d", Node::dir().with(b"n", Node::link(&long(4090, b' ')))));
    bases.push(Node::dir().with(&[b'n'; 254], f("1")).with(&[0xfe; 250], Node::dir().with(&[b' '; 250], Node::dir().with(&[b'\\'; 250], f("2")).with(b"x", Node::link(b"y")))));
    let mut many = Node::dir();
    for i in 0..16 {
        many = many.with(format!("f{}", i).as_bytes(), Node::file(&content(i * 1000, 1))).with(format!("d{}", i).as_bytes(), if i % 2 == 0 { Node::dir() } else { Node::dir().with(b"s", f(&i.to_string())) });
    }
    bases.push(many);
    bases.push(Node::dir().with(b"big", Node::file(&content(20 * BS + 9, 1))).with(b"same", Node::file(&content(4 * BS, 0))));
    let mut deep = Node::dir().with(b"f", f("x"));
    for i in 0..60 {
        deep = Node::dir().with(format!("{}", i).as_bytes(), deep);
    }
    bases.push(deep);
    for (i, b) in bases.iter().enumerate() {
        for h in ALL {
            for threads in [0usize, 2] {
                ctx.case(|| format!("edits of {:?}, {:?}, {} threads", b, h, threads), |ctx| {
                    let mut ts = vec![b.clone()];
                    ts.extend(edits(b));
                    ts.dedup();
                    distinct(ctx, ts.into_iter(), &Opts::new(h).threads(threads));
                });
            }
        }
        if th && [0, 3, 4].contains(&i) {
            ctx.case(|| format!("two edits of {:?}", b), |ctx| {
                let ts = edits(b).into_iter().flat_map(|x| { let mut v = edits(&x); v.push(x); v });
                distinct(ctx, ts, &Opts::new(Ht::Sha));
            });
        }
    }
}
