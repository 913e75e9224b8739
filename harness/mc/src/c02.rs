//! C02: the index is a function of tree content only.
use crate::common::*;
use crate::cio::{short_lens, Lens};
use crate::universe::{small_leaves, small_names};
use kit::mc::explore::{choose, Bounds};
use kit::mc::label::USER;
use kit::ctx::Ctx;
use kit::hash::{Ht, ALL};
use kit::interpose::{Act, Call, DirEnt, Env, Op};
use kit::model::*;
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;

/// Listing order and entry types are free choices.
struct Listing {
    perms: bool,
    types: bool,
    /// every type unknown
    unknown: bool,
    reverse: bool,
    dots_last: bool,
}

impl Env for Listing {
    fn arrange(&mut self, _dir: &[u8], ents: &mut Vec<DirEnt>) {
        let dots: Vec<DirEnt> = ents.iter().filter(|e| e.name == b"." || e.name == b"..").cloned().collect();
        let mut rest: Vec<DirEnt> = ents.iter().filter(|e| e.name != b"." && e.name != b"..").cloned().collect();
        rest.sort_by(|a, b| a.name.cmp(&b.name));
        if self.reverse {
            rest.reverse();
        }
        if self.dots_last && !self.reverse {
            // a third order
            rest.sort_by_key(|e| kit::hash::fnv(&e.name));
        }
        if self.perms {
            let mut out = Vec::new();
            while !rest.is_empty() {
                let i = choose(rest.len(), 0, USER + 10);
                out.push(rest.remove(i));
            }
            rest = out;
        }
        let mut all: Vec<DirEnt> = if self.dots_last {
            rest.into_iter().chain(dots).collect()
        } else {
            dots.into_iter().chain(rest).collect()
        };
        for e in all.iter_mut() {
            let dot = e.name == b"." || e.name == b"..";
            if self.unknown || (self.types && !dot && choose(2, 0, USER + 11) == 1) {
                e.dtype = libc::DT_UNKNOWN;
            }
        }
        *ents = all;
    }
}

/// Short and interrupted reads of regular files.
struct Reads {
    lens: Lens,
    chunk: usize,
    intr_always: bool,
    toggle: bool,
}

impl Env for Reads {
    fn call(&mut self, c: &Call) -> Act {
        if c.op != Op::Read || c.size == 0 {
            return Act::Pass;
        }
        if self.intr_always {
            self.toggle = !self.toggle;
            if self.toggle {
                return Act::Fail(libc::EINTR);
            }
        }
        let max = if self.chunk > 0 { c.size.min(self.chunk) } else { c.size };
        let lens = short_lens(self.lens, max);
        match choose(2 + lens.len(), 1, USER + 12) {
            0 if max == c.size => Act::Pass,
            0 => Act::Limit(max),
            1 => Act::Fail(libc::EINTR),
            k => Act::Limit(lens[k - 2]),
        }
    }
}

fn listing(ctx: &mut Ctx, t: &Node, o: &Opts, perms: bool, types: bool) {
    let root = ctx.fresh("t");
    make(t, &root);
    ctx.explore(Bounds::new(0), |ctx| {
        let mut env = Listing { perms, types, unknown: false, reverse: false, dots_last: false };
        let s = scan_env(&[(&root, "/")], o, &mut env, None);
        judge(ctx, &s, t, o, "scan with another listing");
        ctx.eval();
        ctx.distinct(run_id(t, o));
        ctx.sample(|| format!("{:?} with choices {:?}", t, kit::mc::explore::current_choices()));
    });
    for (unknown, reverse, dots_last) in [(true, false, false), (true, true, true), (false, true, true), (false, true, false), (false, false, true)] {
        let mut env = Listing { perms: false, types: false, unknown, reverse, dots_last };
        let s = scan_env(&[(&root, "/")], o, &mut env, None);
        judge(ctx, &s, t, o, "scan with another listing");
        ctx.eval();
    }
    wipe(&root);
}

/// Identity of (tree, options, choices) for counting distinct cases.
pub fn run_id(t: &Node, o: &Opts) -> u64 {
    let ch = kit::mc::explore::current_choices();
    let mut b: Vec<u8> = ch.iter().map(|&c| c as u8).collect();
    b.extend(tree_id(t).to_le_bytes());
    b.extend(format!("{:?}", o).bytes());
    kit::hash::fnv(&b)
}

fn mtime(path: &std::path::Path, sec: i64) {
    let c = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
    let ts = libc::timespec { tv_sec: sec, tv_nsec: 5 };
    unsafe {
        libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [ts, ts].as_ptr(), libc::AT_SYMLINK_NOFOLLOW);
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation is one scan of a tree under one choice of listing order, entry-type availability, read splitting or metadata; distinct by tree, options and choice sequence; all must equal the reference index");
    ctx.text("bounds", "all permutations of every listing x all subsets of unknown entry types for all trees of up to 3 nodes (thorough: 4) plus hand-made ones (directories of up to 5 entries, thorough: 6, permuted); reads: every single and pair (thorough: triple) of deviations {1, half, all but one byte, EINTR} at any read, plus constant chunk sizes and EINTR before every read; creation orders, times, extended permission bits");
    ctx.text("assumptions", "a listing is a permutation of the entries; DT_UNKNOWN is the only false type a file system reports");
    // listings: all small trees
    ctx.chunk(8);
    for n in 1..=ctx.pick(3, 4) {
        for f in forests(n, &small_names(), &small_leaves()) {
            let t = Node::Dir(f);
            ctx.case(|| format!("listing {:?}", t), |ctx| {
                listing(ctx, &t, &Opts::new(Ht::Sha), true, true);
            });
        }
    }
    ctx.chunk(1);
    // bigger directories
    let f = |s: &str| Node::file(s.as_bytes());
    let mut big: Vec<(Node, bool, bool)> = vec![
        (Node::dir().with(b"a", f("1")).with(b"b", Node::link(b"a")).with(b"c", Node::dir().with(b"a", f("")).with(b"b", Node::Fifo)).with(b"d", Node::Sock), true, true),
        (Node::dir().with(b"a", Node::dir().with(b"x", f("1"))).with(b"a-b", Node::dir()).with(b"a.b", Node::dir().with(b"y", f("2"))).with(b"ab", Node::dir().with(b"z", f("3"))), true, true),
        (Node::dir().with(b"a", Node::dir().with(b"1", f("1")).with(b"2", f("2")).with(b"3", f("3"))).with(b"b", Node::dir().with(b"1", Node::dir()).with(b"2", Node::dir()).with(b"3", f("3"))), true, false),
        (Node::dir().with(b"\xff", f("1")).with(b"\x01", Node::dir().with(b"\n", f(""))).with(b" ", Node::link(b" ")).with(b"\\", f("2")), true, true),
    ];
    // names that look alike in some reading
    for w in [[&b"\x80"[..], b"\x81", b"\xc3("], [b"A", b"a", b"\xe4"], [b"a", b"a ", b"a\xff"], [b"\xc3\xa4", b"a\xcc\x88", b"\xe4"], [b"1", b"01", b"1.0"]] {
        let mut d = Node::dir();
        let mut e = Node::dir();
        for (i, n) in w.iter().enumerate() {
            d = d.with(n, if i == 1 { Node::link(n) } else { f(&i.to_string()) });
            e = e.with(n, Node::dir().with(b"k", f(&i.to_string())));
        }
        big.push((d, true, false));
        big.push((e, true, false));
    }
    let mut five = BTreeMap::new();
    for (i, nm) in [&b"B"[..], b"a", b"A", b"b", b"_", b"10"][..ctx.pick(5, 6)].iter().enumerate() {
        five.insert(nm.to_vec(), match i % 3 {
            0 => Node::dir().with(b"k", f("k")),
            1 => f("x"),
            _ => Node::link(b"B"),
        });
    }
    big.push((Node::Dir(five), true, false));
    for (t, p, ty) in &big {
        for &h in &ALL {
            for threads in [0, 3] {
                let o = Opts::new(h).threads(threads);
                // blake3's known finding depends on nothing listed here
                ctx.case(|| format!("listing {:?} {:?}", o, t), |ctx| listing(ctx, t, &o, *p, *ty));
            }
        }
    }
    // reads
    let few = [1usize, 100, BS - 1, BS, BS + 1, 2 * BS, 2 * BS + 3];
    for &a in &few {
        for &h in &ALL {
            for threads in [0, 2] {
                let o = Opts::new(h).threads(threads);
                let t = Node::dir().with(b"1", Node::exe(&content(a, 1))).with(b"2", Node::file(&content(BS + 7, 3)));
                ctx.case(|| format!("reads {:?} of {} bytes", o, a), |ctx| {
                    let root = ctx.fresh("t");
                    make(&t, &root);
                    let bound = ctx.pick(2, if a > BS { 2 } else { 3 });
                    ctx.explore(Bounds::new(bound), |ctx| {
                        let mut env = Reads { lens: Lens::Few, chunk: 0, intr_always: false, toggle: false };
                        let s = scan_env(&[(&root, "/")], &o, &mut env, None);
                        judge(ctx, &s, &t, &o, "scan with split reads");
                        ctx.eval();
                        ctx.distinct(run_id(&t, &o));
                    });
                    for chunk in [0usize, 1, 2, 7, 100, 1000, 4095, 4096, 8191, 8192, 32767] {
                        if chunk == 1 && a > 1000 && !ctx.thorough() {
                            continue;
                        }
                        for intr_always in [false, true] {
                            let mut env = Reads { lens: Lens::Whole, chunk, intr_always, toggle: false };
                            let s = scan_env(&[(&root, "/")], &o, &mut env, None);
                            judge(ctx, &s, &t, &o, "scan with chunked reads");
                            ctx.eval();
                        }
                    }
                    wipe(&root);
                });
            }
        }
    }
    // creation order, times, modes, hard links
    let names: Vec<&[u8]> = vec![b"b", b"a", b"c", b"a0"];
    for pm in perms(names.len()) {
        ctx.case(|| format!("creation order {:?}", pm), |ctx| {
            let mut t = Node::dir();
            for (i, n) in names.iter().enumerate() {
                t = t.with(n, if i == 2 { Node::dir().with(b"x", Node::exe(b"x")).with(b"w", Node::file(b"w")) } else { Node::file(n) });
            }
            let root = ctx.fresh("t");
            for variant in 0..6 {
                std::fs::create_dir(&root).unwrap();
                for (k, &i) in pm.iter().enumerate() {
                    let p = root.join(os(names[i]));
                    make(&t.children()[names[i]], &p);
                    match variant {
                        1 => mtime(&p, k as i64),
                        2 => mtime(&p, 2_000_000_000 + k as i64 * 1000),
                        3 => {
                            use std::os::unix::fs::PermissionsExt;
                            let base = std::fs::metadata(&p).unwrap().permissions().mode();
                            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(base | 0o2066)).unwrap();
                        }
                        4 => {
                            // group and other execute bits, sticky directory
                            use std::os::unix::fs::PermissionsExt;
                            let base = std::fs::metadata(&p).unwrap().permissions().mode();
                            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(base | 0o5011)).unwrap();
                        }
                        5 => {
                            // the same inode under another name outside
                            if !t.children()[names[i]].is_dir() {
                                let other = root.with_file_name(format!("hl{}", k));
                                wipe(&other);
                                std::fs::hard_link(&p, &other).unwrap();
                            }
                        }
                        _ => {}
                    }
                }
                for threads in [0, 2] {
                    let o = Opts::new(Ht::Sha).threads(threads);
                    let s = scan(&root, &o);
                    judge(ctx, &s, &t, &o, "scan after another history");
                    ctx.eval();
                }
                wipe(&root);
            }
            for k in 0..4 {
                wipe(&root.with_file_name(format!("hl{}", k)));
            }
        });
    }
    // fewer entries in a listing than the directory reports at once: wide directories
    for n in ctx.pick(vec![100usize, 1000, 5000], vec![100, 1000, 5000, 40000]) {
        ctx.case(|| format!("wide directory of {} in five orders", n), |ctx| {
            let mut m = BTreeMap::new();
            for i in 0..n {
                m.insert(format!("{}", i * 7919 % 100003).into_bytes(), if i % 5 == 0 { Node::dir() } else { Node::file(b"") });
            }
            listing(ctx, &Node::Dir(m), &Opts::new(Ht::B2), false, false);
        });
    }
}
