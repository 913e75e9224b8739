//! C10: entry comparison is the order of indexes.
use crate::common::*;
use crate::pgen::*;
use crate::universe::{small_leaves, small_names};
use dir_signature::v1::EntryKind;
use kit::ctx::{cut, violation, Ctx};
use kit::hash::Ht;
use kit::model::*;
use std::cmp::Ordering;
use std::path::{Path, PathBuf};

fn kinds(comps: &[&[u8]], depth: usize) -> Vec<(EntryKind<PathBuf>, Key)> {
    let mut dirs: Vec<Vec<u8>> = vec![b"/".to_vec()];
    let mut level = dirs.clone();
    let mut out = Vec::new();
    for _ in 0..depth {
        let mut next = Vec::new();
        for d in &level {
            for c in comps {
                next.push(join(d, c));
            }
        }
        for f in &next {
            out.push((EntryKind::File(p(f)), Key::new(false, f)));
        }
        dirs.extend(next.iter().cloned());
        level = next;
    }
    for d in &dirs {
        out.push((EntryKind::Dir(p(d)), Key::new(true, d)));
    }
    out
}

fn pair(a: &(EntryKind<PathBuf>, Key), b: &(EntryKind<PathBuf>, Key)) {
    let want = a.1.cmp(&b.1);
    let r = cut(|| {
        let c = a.0.cmp(&b.0);
        let rf = a.0.as_ref().cmp(&b.0.as_ref());
        let pc = a.0.partial_cmp(&b.0);
        let eq = a.0 == b.0;
        let lt = a.0 < b.0;
        (c, rf, pc, eq, lt)
    });
    match r {
        Ok((c, rf, pc, eq, lt)) => {
            if c != want || rf != want || pc != Some(want) || eq != (want == Ordering::Equal) || lt != (want == Ordering::Less) {
                violation(&format!("{:?} compared with {:?}: cmp {:?}, by reference {:?}, partial_cmp {:?}, == {}, < {}; expected {:?}", a.0, b.0, c, rf, pc, eq, lt, want));
            }
        }
        Err(p) => violation(&format!("comparing {:?} with {:?} panics: {}", a.0, b.0, p)),
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation compares one ordered pair of entry kinds in all ways and with the key order of the model (a total order by construction); or scans one tree and checks that its entries strictly increase under the library's comparison");
    ctx.text("bounds", "all ordered pairs of directories and files over 9 components up to depth 3 (1 639 kinds), and over 5 components up to depth 4 (1 561 kinds; thorough: 6 components, depth 4); all trees of up to 4 nodes, every two-byte order of 40 names");
    let c9: Vec<&[u8]> = vec![b"a", b"a-b", b"a.b", b"b", b"A", b"\x01", b"\xff", b"aa", b" "];
    let c5: Vec<&[u8]> = vec![b"a", b"a-", b"a.", b"a0", b"b"];
    let c6: Vec<&[u8]> = vec![b"a", b"a-", b"a.", b"a0", b"b", b"\xff"];
    let sets = if ctx.thorough() { vec![(c9, 3), (c5, 4), (c6, 4)] } else { vec![(c9, 3), (c5, 4)] };
    for (comps, depth) in sets {
        let ks = kinds(&comps, depth);
        ctx.chunk(8);
        for (i, a) in ks.iter().enumerate() {
            ctx.case(|| format!("pairs with {:?}", a.0), |ctx| {
                if a.0.path() != Path::new(a.0.cloned().path()) || a.0.cloned() != a.0 || a.0.as_ref().cloned() != a.0 {
                    violation(&format!("path/as_ref/cloned of {:?} disagree", a.0));
                }
                for b in &ks {
                    pair(a, b);
                }
                ctx.add("evaluations", ks.len() as u64);
                for (j, _) in ks.iter().enumerate() {
                    ctx.distinct((depth as u64) << 40 | (i as u64) << 20 | j as u64);
                }
            });
        }
    }
    ctx.chunk(16);
    let scan_order = |ctx: &mut Ctx, t: &Node| {
        let root = ctx.fresh("t");
        make(t, &root);
        for threads in [0usize, 2] {
            let s = scan(&root, &Opts::new(Ht::Sha).threads(threads));
            if s.res.is_err() {
                violation("scan fails");
            }
            let es = lib(&s.out);
            for w in es.windows(2) {
                let r = cut(|| w[0].kind() < w[1].kind() && w[1].kind() > w[0].kind());
                if r != Ok(true) {
                    violation(&format!("the scan lists {:?} before {:?}, but comparing says otherwise ({:?})", w[0].kind(), w[1].kind(), r));
                }
            }
            ctx.eval();
        }
        wipe(&root);
    };
    for n in 0..=ctx.pick(4, 5) {
        for f in forests(n, &small_names(), &small_leaves()[..1]) {
            let t = Node::Dir(f);
            ctx.case(|| format!("scan order of {:?}", t), |ctx| scan_order(ctx, &t));
        }
    }
    ctx.chunk(1);
    ctx.case(|| "scan order of many names".into(), |ctx| {
        let al = [1u8, 32, 43, 45, 46, 48, 65, 92, 97, 128, 255];
        let mut t = Node::dir();
        for &a in &al {
            for &b in &al {
                if [a, b] != *b".." {
                    t = t.with(&[a, b], Node::dir().with(&[b'g', b], Node::file(b"")).with(&[b, a, b], Node::dir().with(&[b'h', a], Node::link(b"x"))));
                }
            }
            if a != b'.' {
                t = t.with(&[a], Node::dir().with(b"f", Node::file(b"")));
            }
            t = t.with(&[b'f', a], Node::file(b""));
        }
        scan_order(ctx, &t)
    });
}
