//! C24: links that appear during a scan; C25: other changes during a scan.
use crate::c02::run_id;
use crate::c03::tally;
use crate::common::*;
use crate::race::*;
use crate::universe::small_names;
use kit::ctx::{violation, Ctx};
use kit::hash::{fnv, Ht};
use kit::json::{brief, show};
use kit::mc::explore::Bounds;
use kit::mc::sched;
use kit::model::*;
use std::os::unix::ffi::OsStrExt;

const NO_SWITCH: sched::Config = sched::Config { preempt: 9, task_syscalls: false, main_syscalls: false, free_start: false, turns: false, stall: 0, block_cost: 9 };

fn f(s: &str) -> Node {
    Node::file(s.as_bytes())
}

fn race_trees() -> Vec<(&'static str, Node)> {
    vec![
        ("kinds", Node::dir().with(b"a", f("1")).with(b"d", Node::dir().with(b"e", Node::dir().with(b"g", f("22"))).with(b"h", Node::exe(b"3"))).with(b"l", Node::link(b"a")).with(b"p", Node::Fifo)),
        ("big file", Node::dir().with(b"big", Node::file(&content(2 * BS + 9, 1))).with(b"z", f("z"))),
        ("two directories", Node::dir().with(b"c", Node::dir().with(b"x", f("xx")).with(b"y", Node::link(b"x"))).with(b"d", Node::dir().with(b"x", f("q"))).with(b"f", f(""))),
    ]
}

fn small(n: usize) -> Vec<Node> {
    forests(n, &small_names()[..2], &[f("1"), Node::exe(b"2"), Node::link(b"x")]).into_iter().map(Node::Dir).collect()
}

struct Place {
    root: std::path::PathBuf,
    attic: std::path::PathBuf,
    outside: std::path::PathBuf,
    hold: i32,
}

fn place(ctx: &mut Ctx, t: &Node, outside: &Node) -> Place {
    let root = ctx.fresh("t");
    let attic = ctx.fresh("attic");
    let out = ctx.fresh("outside");
    make(t, &root);
    make(&Node::dir(), &attic);
    make(outside, &out);
    // opening the outside fifo must not block a scan that does so
    let hold = match outside {
        Node::Dir(m) if m.contains_key(&b"fifo"[..]) => {
            let c = std::ffi::CString::new(out.join("fifo").as_os_str().as_bytes()).unwrap();
            unsafe { libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CLOEXEC, 0) }
        }
        _ => -1,
    };
    Place { root, attic, outside: out, hold }
}

fn reset(pl: &Place, t: &Node) {
    wipe(&pl.root);
    wipe(&pl.attic);
    make(&Node::dir(), &pl.attic);
    make(t, &pl.root);
}

fn clean(pl: Place) {
    wipe(&pl.root);
    wipe(&pl.attic);
    wipe(&pl.outside);
    if pl.hold >= 0 {
        unsafe { libc::close(pl.hold) };
    }
}

fn confs(stalls: bool) -> Vec<(usize, Option<sched::Config>)> {
    let mut v = vec![(0usize, None)];
    v.push((2, Some(NO_SWITCH)));
    if stalls {
        for stall in [1usize, usize::MAX] {
            v.push((2, Some(sched::Config { stall, ..NO_SWITCH })));
        }
    }
    v
}

// ---------------------------------------------------------------- C24

fn outside_tree() -> Node {
    Node::dir()
        .with(b"file", Node::exe(b"SECRET contents"))
        .with(b"dir", Node::dir().with(b"OUTSIDE-NAME", f("SECRET")).with(b"a", f("SECRET a")).with(b"g", f("SECRET g")).with(b"OUTSIDE-DIR", Node::dir().with(b"SECRET", f(""))).with(b"OUTSIDE-LINK", Node::link(b"SECRET-TARGET")))
        .with(b"fifo", Node::Fifo)
}

fn link_muts(t: &Node, pl: &Place, few: bool) -> Vec<Mut> {
    let mut v = Vec::new();
    let target = |n: &str| pl.outside.join(n).as_os_str().as_bytes().to_vec();
    for (p, n) in nodes(t) {
        v.push(Mut::Away(p.clone(), target("file")));
        v.push(Mut::Away(p.clone(), target("dir")));
        if !few {
            v.push(Mut::Away(p.clone(), target("fifo")));
            v.push(Mut::Away(p.clone(), target("missing")));
            let ups = p.iter().filter(|&&b| b == b'/').count() + 1;
            v.push(Mut::Away(p.clone(), [&b"../".repeat(ups)[..], b"outside/dir"].concat()));
            if n.is_dir() {
                v.push(Mut::Away(p.clone(), pl.root.as_os_str().as_bytes().to_vec()));
            }
        }
        v.push(Mut::Back(p));
    }
    v.push(Mut::Away(vec![], target("dir")));
    v.push(Mut::Back(vec![]));
    v
}

fn judge24(ctx: &mut Ctx, t: &Node, o: &Opts, s: &ScanOut, env: &Races) {
    let fail = |m: String| -> ! { violation(&format!("while scanning {:?}, {:?}: {}", t, env.what(), m)) };
    if !env.leaks.is_empty() {
        fail(format!("opened outside of the tree: {:?}", env.leaks));
    }
    if s.out.windows(6).any(|w| w == b"SECRET") || s.out.windows(8).any(|w| w == b"OUTSIDE-") {
        fail(format!("the index contains what is outside: {}", brief(&s.out)));
    }
    match &s.res {
        Err((Kind::Panic, e)) => fail(format!("panic: {}", e)),
        Err((k, e)) => {
            if env.done.is_empty() {
                fail(format!("the scan fails with {:?} {}", k, e));
            }
            ctx.outcome(fnv(format!("{:?}", k).as_bytes()));
        }
        Ok(()) => {
            // every subset of the replacements may have been seen
            let n = env.done.len();
            let mut any = false;
            for set in 0..1u32 << n {
                let mut x = t.clone();
                for (i, &m) in env.done.iter().enumerate() {
                    if set >> i & 1 == 1 {
                        env.muts[m].model(&mut x);
                    }
                }
                if index(&x, o.ht) == s.out {
                    any = true;
                    ctx.outcome(set as u64 + n as u64 * 16);
                    break;
                }
            }
            if !any {
                fail(format!("the index shows neither the original entries nor the links: {}", diff(&s.out, &index(t, o.ht))));
            }
        }
    }
}

fn explore24(ctx: &mut Ctx, t: &Node, bound: u32, few: bool, threads: usize, sc: Option<sched::Config>, shard: (u64, u64), unknown: bool, live: bool) {
    let pl = place(ctx, t, &outside_tree());
    let muts = link_muts(t, &pl, few);
    let o = Opts::new(Ht::Sha).threads(threads);
    let out = pl.outside.as_os_str().as_bytes().to_vec();
    ctx.explore(Bounds::new(bound).shard(shard.0, shard.1), |ctx| {
        let mut env = Races::new(&pl.root, &pl.attic, &muts);
        env.outside = Some(out.clone());
        env.unknown = unknown;
        env.live = live;
        let s = scan_env(&[(&pl.root, "/")], &o, &mut env, sc);
        judge24(ctx, t, &o, &s, &env);
        if s.report.is_some() {
            tally(ctx, &s);
        }
        ctx.eval();
        ctx.distinct(run_id(t, &o) ^ unknown as u64);
        ctx.add("links_put_in_place", env.done.len() as u64);
        ctx.sample(|| format!("{:?}, {} threads, {:?}: {:?}", t, threads, env.what(), s.res));
        if !env.done.is_empty() {
            reset(&pl, t);
        }
    });
    clean(pl);
}

pub fn run24(ctx: &mut Ctx) {
    ctx.text("rule", "an execution is one scan during which, before chosen system calls, entries of the tree (or the root after it was opened) are moved away and replaced by symbolic links, or moved back; no file descriptor other than a bare path handle may be opened on anything outside, and the result must be an error or the index of the tree with some subset of the replacements");
    ctx.text("bounds", "every system call x every entry x link targets {outside file, directory, fifo, missing; relative; the root itself}; pairs (thorough: triples on trees of up to 2 nodes) of replacements and restorations; all trees of up to 2 nodes (thorough: 3) and hand-made ones; entry types known and unknown; changes visible in a listing already begun or not; threads {0,2} with tasks running at once, delayed, or last");
    ctx.text("assumptions", "a replacement is atomic with respect to the scan's system calls | the root path itself is resolved by the user's choice, links in it are followed before the scan begins");
    let th = ctx.thorough();
    ctx.chunk(2);
    for n in 1..=ctx.pick(2, 3) {
        for t in small(n) {
            ctx.case(|| format!("{:?}", t), |ctx| {
                for unknown in [false, true] {
                    for (threads, sc) in confs(true) {
                        for live in [false, true] {
                            explore24(ctx, &t, 1, false, threads, sc, (0, 1), unknown, live);
                            if !th && (live && unknown || n == 2 && threads == 2 && (unknown || live)) {
                                continue;
                            }
                            let b = if n <= 2 && th { 3 } else { 2 };
                            explore24(ctx, &t, b, true, threads, sc, (0, 1), unknown, live);
                        }
                    }
                }
            });
        }
    }
    ctx.chunk(1);
    for (name, t) in race_trees() {
        for (ci, (threads, sc)) in confs(true).into_iter().enumerate() {
            for unknown in [false, true] {
                if !th && unknown && ci != 0 {
                    continue;
                }
                ctx.case(|| format!("{} {} threads ({}), unknown types: {}", name, threads, ci, unknown), |ctx| {
                    explore24(ctx, &t, 1, false, threads, sc, (0, 1), unknown, false);
                    explore24(ctx, &t, 1, false, threads, sc, (0, 1), unknown, true);
                });
                let shards = if th { 32 } else { 8 };
                if !th && (ci == 1 || ci == 2) {
                    continue;
                }
                for sh in 0..shards {
                    ctx.case(|| format!("{} {} threads ({}), pairs, unknown types: {}, shard {}", name, threads, ci, unknown, sh), |ctx| {
                        explore24(ctx, &t, 2, !th, threads, sc, (sh, shards), unknown, false);
                        if th {
                            explore24(ctx, &t, 2, true, threads, sc, (sh, shards), unknown, true);
                        }
                    });
                }
            }
        }
        // hashing threads interleaved
        if !th && name != "big file" {
            continue;
        }
        for sh in 0..8 {
            ctx.case(|| format!("{} with one preemption, shard {}", name, sh), |ctx| {
                let sc = sched::Config { task_syscalls: true, free_start: false, block_cost: 1, ..sched::Config::default() };
                explore24(ctx, &t, 2, true, 2, Some(sc), (sh, 8), false, false);
            });
        }
    }
}

// ---------------------------------------------------------------- C25

fn change_muts(t: &Node, rich: bool) -> Vec<Mut> {
    let mut v = Vec::new();
    let all = nodes(t);
    let at = |d: &[u8], n: &[u8]| if d.is_empty() { n.to_vec() } else { [d, b"/", n].concat() };
    let mut dirs: Vec<Vec<u8>> = vec![vec![]];
    dirs.extend(all.iter().filter(|x| x.1.is_dir()).map(|x| x.0.clone()));
    for d in &dirs {
        v.push(Mut::Put(at(d, b"!"), f("new")));
        v.push(Mut::Put(at(d, b"~"), Node::dir().with(b"n", Node::exe(b"new"))));
        if rich {
            v.push(Mut::Put(at(d, b"aa"), Node::link(b"new")));
            v.push(Mut::Put(at(d, b"b"), Node::exe(b"new b")));
            v.push(Mut::Put(at(d, b"mm"), Node::Fifo));
        }
    }
    for (p, n) in &all {
        let d = match p.iter().rposition(|&b| b == b'/') {
            Some(i) => &p[..i],
            None => &b""[..],
        };
        v.push(Mut::Remove(p.clone()));
        v.push(Mut::Rename(p.clone(), at(d, b"~r")));
        if rich {
            v.push(Mut::Rename(p.clone(), at(d, b"!r")));
            if !d.is_empty() {
                v.push(Mut::Rename(p.clone(), at(b"", b"zz")));
            }
        }
        v.push(Mut::Put(p.clone(), f("other content")));
        v.push(Mut::Put(p.clone(), Node::dir().with(b"in", f("i"))));
        v.push(Mut::Put(p.clone(), Node::link(b"elsewhere")));
        if rich {
            v.push(Mut::Put(p.clone(), Node::dir()));
            v.push(Mut::Put(p.clone(), Node::exe(b"")));
            v.push(Mut::Put(p.clone(), Node::file(&content(BS + 3, 4))));
            v.push(Mut::Put(p.clone(), Node::Fifo));
        }
        if let Node::File { data, mode } = n {
            v.push(Mut::Data(p.clone(), vec![]));
            let mut longer = data.to_vec();
            longer.push(b'+');
            v.push(Mut::Data(p.clone(), longer.clone()));
            if rich {
                longer.extend(content(BS, 5));
                v.push(Mut::Data(p.clone(), longer));
                v.push(Mut::Data(p.clone(), data[..data.len() / 2].to_vec()));
                v.push(Mut::Data(p.clone(), data[..data.len().min(BS)].to_vec()));
                v.push(Mut::Data(p.clone(), data[..data.len().min(BS + 1)].to_vec()));
                v.push(Mut::Data(p.clone(), data.iter().map(|b| b ^ 1).collect()));
                v.push(Mut::Chmod(p.clone(), mode ^ 0o100));
            }
        }
    }
    if rich {
        for (i, (a, _)) in all.iter().enumerate() {
            for (b, _) in &all[i + 1..] {
                if !b.starts_with(&[&a[..], b"/"].concat()) {
                    v.push(Mut::Swap(a.clone(), b.clone()));
                    v.push(Mut::Rename(a.clone(), b.clone()));
                    v.push(Mut::Rename(b.clone(), a.clone()));
                }
            }
        }
    }
    v
}

fn abs(p: &[u8]) -> Vec<u8> {
    [b"/", p].concat()
}

fn under(path: &[u8], pre: &[u8]) -> bool {
    path == pre || (path.starts_with(pre) && path.get(pre.len()) == Some(&b'/'))
}

fn judge25(ctx: &mut Ctx, t: &Node, o: &Opts, s: &ScanOut, env: &Races) {
    let fail = |m: String| -> ! { violation(&format!("while scanning {:?}, {:?}: {}", t, env.what(), m)) };
    if let Some(path) = &env.blocked {
        // only what was something else at first, or at some time in between
        let rel = path.strip_prefix(&[env.root.as_os_str().as_bytes(), b"/"].concat()[..]).unwrap_or(b"");
        let was = nodes(t).into_iter().find(|x| x.0 == rel).map(|x| x.1);
        if !(env.done.len() >= 2 || env.done.len() == 1 && matches!(was, Some(Node::File { .. }))) {
            fail(format!("{} is opened, which is a fifo", show(path)));
        }
        ctx.known("fifo-blocks", || format!("while scanning {:?}, {:?}: the scan opens a fifo and waits for a writer", t, env.what()));
    }
    match &s.res {
        Err((Kind::Panic, e)) => fail(format!("panic: {}", e)),
        Err((k, e)) => {
            if env.done.is_empty() {
                fail(format!("the scan fails with {:?} {}", k, e));
            }
            ctx.outcome(fnv(format!("{:?}", k).as_bytes()));
            ctx.add("scans_that_reported_an_error", 1);
        }
        Ok(()) => {
            let d = match decode(&s.out, o.ht, BS as u64) {
                Ok(d) => d,
                Err(e) => fail(format!("the index is not well formed: {}: {}", e, brief(&s.out))),
            };
            let parsed = parse_ok(&s.out);
            if parsed != d.ents {
                fail(format!("the index does not parse to what it says: {}", brief(&s.out)));
            }
            let touched: Vec<Vec<u8>> = env.done.iter().flat_map(|&m| env.muts[m].paths()).map(abs).collect();
            let free = |e: &&REnt| !touched.iter().any(|p| under(&e.path, p));
            let orig = entries(t, o.ht, BS);
            let want: Vec<&REnt> = orig.iter().filter(free).collect();
            let got: Vec<&REnt> = d.ents.iter().filter(free).collect();
            if want != got {
                let x = want.iter().find(|e| !got.contains(e)).or_else(|| got.iter().find(|e| !want.contains(e)));
                fail(format!("the unchanged part of the tree is recorded wrongly, for example {:?}", x.map(|e| (show(&e.path), &e.kind))));
            }
            if env.done.len() == 1 {
                // every entry must be one that the tree had before or after
                let m = &env.muts[env.done[0]];
                let mut t2 = t.clone();
                m.model(&mut t2);
                let mut had: Vec<REnt> = orig.clone();
                had.extend(entries(&t2, o.ht, BS));
                let loose = matches!(m, Mut::Data(..));
                for e in &d.ents {
                    let hit = had.iter().any(|x| match (&e.kind, &x.kind) {
                        (RKind::File { exe, size, .. }, RKind::File { exe: e2, size: s2, .. }) if loose => e.path == x.path && exe == e2 && size == s2,
                        _ => e == x,
                    });
                    if !hit {
                        fail(format!("the index has an entry that the tree had neither before nor after the change: {} {:?}", show(&e.path), e.kind));
                    }
                }
            }
            ctx.outcome(fnv(&s.out) ^ env.done.len() as u64);
        }
    }
}

fn explore25(ctx: &mut Ctx, t: &Node, bound: u32, rich: bool, threads: usize, sc: Option<sched::Config>, shard: (u64, u64), live: bool, h: Ht) {
    let pl = place(ctx, t, &Node::dir());
    let muts = change_muts(t, rich);
    let o = Opts::new(h).threads(threads);
    ctx.explore(Bounds::new(bound).shard(shard.0, shard.1), |ctx| {
        let mut env = Races::new(&pl.root, &pl.attic, &muts);
        env.live = live;
        let s = scan_env(&[(&pl.root, "/")], &o, &mut env, sc);
        judge25(ctx, t, &o, &s, &env);
        if s.report.is_some() {
            tally(ctx, &s);
        }
        ctx.eval();
        ctx.distinct(run_id(t, &o) ^ live as u64);
        ctx.add("changes_made", env.done.len() as u64);
        ctx.sample(|| format!("{:?}, {} threads, {:?}: {:?}", t, threads, env.what(), s.res));
        if !env.done.is_empty() {
            reset(&pl, t);
        }
    });
    clean(pl);
}

pub fn run25(ctx: &mut Ctx) {
    ctx.text("rule", "an execution is one scan during which, before chosen system calls, the tree is changed; it must end with an error, or with an index that a strict independent decoder accepts (order, number of hashes, footer), that the library parses to the same entries, whose entries outside the changed paths are exactly those of the reference index, and (for one change) all of whose entries existed before or after the change");
    ctx.text("bounds", "every system call x {create file/directory/link/fifo, remove, rename within and across directories and onto others, exchange, replace by another file/directory/link, truncate, extend, overwrite, change mode} of every entry of all trees of up to 2 nodes (thorough: 3) and hand-made ones; pairs of changes on trees of up to 2 nodes and, with a smaller menu, hand-made ones (thorough: whole menu); visible in a listing already begun or not; threads {0,2} with tasks running at once, delayed, or last, and interleaved with up to 1 preemption");
    ctx.text("assumptions", "a change is atomic with respect to the scan's system calls | a listing never names an entry twice");
    let th = ctx.thorough();
    ctx.chunk(2);
    for n in 0..=ctx.pick(2, 3) {
        for t in small(n) {
            ctx.case(|| format!("{:?}", t), |ctx| {
                for (ci, (threads, sc)) in confs(true).into_iter().enumerate() {
                    for live in [false, true] {
                        explore25(ctx, &t, 1, true, threads, sc, (0, 1), live, Ht::Sha);
                        if n <= 1 || (n == 2 && th) {
                            explore25(ctx, &t, 2, true, threads, sc, (0, 1), live, Ht::Sha);
                        } else if n == 2 && !live && (ci == 0 || ci == 3) {
                            explore25(ctx, &t, 2, false, threads, sc, (0, 1), live, Ht::Sha);
                        }
                    }
                }
            });
        }
    }
    ctx.chunk(1);
    for (name, t) in race_trees() {
        for (ci, (threads, sc)) in confs(true).into_iter().enumerate() {
            ctx.case(|| format!("{} {} threads ({})", name, threads, ci), |ctx| {
                for live in [false, true] {
                    for h in [Ht::Sha, Ht::B2] {
                        explore25(ctx, &t, 1, true, threads, sc, (0, 1), live, h);
                    }
                }
            });
            let shards = if th { 64 } else { 16 };
            if (ci != 0 || name == "big file") && !th {
                continue;
            }
            for sh in 0..shards {
                ctx.case(|| format!("{} {} threads ({}), pairs, shard {}", name, threads, ci, sh), |ctx| {
                    explore25(ctx, &t, 2, false, threads, sc, (sh, shards), false, Ht::Sha);
                    if th {
                        explore25(ctx, &t, 2, false, threads, sc, (sh, shards), true, Ht::Sha);
                    }
                });
            }
        }
        if !th && name != "big file" {
            continue;
        }
        for sh in 0..8 {
            ctx.case(|| format!("{} with one preemption, shard {}", name, sh), |ctx| {
                let sc = sched::Config { task_syscalls: true, free_start: false, block_cost: 1, ..sched::Config::default() };
                explore25(ctx, &t, 2, false, 2, Some(sc), (sh, 8), false, Ht::Sha);
            });
        }
    }
}
