//! C07: arbitrary bytes in names, paths and link targets survive.
use crate::common::*;
use dir_signature::v1::Emitter;
use kit::ctx::{cut_ok, violation, Ctx};
use kit::hash::{fnv, Ht};
use kit::json::{brief, show};
use kit::model::*;
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;

fn bad_name(n: &[u8]) -> bool {
    n.is_empty() || n == b"." || n == b".." || n.contains(&b'/')
}
fn bad_path(x: &[u8]) -> bool {
    x.split(|&b| b == b'/').any(|c| bad_name(c))
}

/// Emit an index that uses `w` wherever it can stand; compare the text with
/// the model and what the parser makes of it with the original.
fn one(ctx: &mut Ctx, w: &[u8], h: Ht) {
    let mut ents = vec![rdir(b"/")];
    let none = lib_hashes_empty(h);
    if !bad_name(w) {
        ents.push(rfile(&join(b"/", w), true, 0, BS as u64));
    }
    if !w.is_empty() {
        ents.push(rlink(b"/l", w));
    }
    if !bad_path(w) {
        ents.push(rdir(&join(b"/", w)));
        if !bad_name(w) {
            ents.push(rlink(&join(&join(b"/", w), w), &join(w, w)));
            ents.push(rdir(&join(&join(b"/", w), w)));
        }
        ents.push(rfile(&join(&ents[ents.len() - 1].path.clone(), b"q"), false, 0, BS as u64));
    }
    let mut out = Vec::new();
    cut_ok(|| {
        let mut em = ok(Emitter::new(ht(h), BS as u64, &mut out), "emitter");
        for e in &ents {
            let name = || OsStr::from_bytes(&e.path[e.path.iter().rposition(|&b| b == b'/').unwrap() + 1..]);
            match &e.kind {
                RKind::Dir => ok(em.start_dir(&p(&e.path)), "start_dir"),
                RKind::File { exe, size, .. } => ok(em.add_file(name(), *exe, *size, &none), "add_file"),
                RKind::Link(t) => ok(em.add_symlink(name(), &p(t)), "add_symlink"),
            }
        }
        ok(em.finish(), "finish")
    });
    let want = render(&ents, h, BS as u64);
    if out != want {
        violation(&format!("index with {}: {}", show(w), diff(&out, &want)));
    }
    if let Some(b) = out.iter().find(|&&b| b != b'\n' && !(0x20..0x7f).contains(&b)) {
        violation(&format!("byte {} in the text of an index with {}", b, show(w)));
    }
    let got = parse_ok(&out);
    if got != ents {
        let i = got.iter().zip(&ents).take_while(|(a, b)| a == b).count();
        violation(&format!("{}: entry {} parses as {:?} instead of {:?} from {}", show(w), i, got.get(i), ents.get(i), brief(&out)));
    }
    ctx.eval();
    ctx.distinct(fnv(w));
}

fn lib_hashes_empty(h: Ht) -> dir_signature::v1::Hashes {
    lib_hashes(h, BS as u64, 0, &[])
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation emits an index in which one byte string stands as file name, directory name, nested path and link target, compares the text with an independent encoder, parses it and compares the entries byte for byte");
    ctx.text("bounds", "all byte strings of length 1 and 2 (thorough: and 3 over a 40-byte alphabet); all strings of up to 6 (thorough: 7) symbols over the escape alphabet {\\ x 0 4 1 f F}; and of up to 5 (6) symbols over {. a - ~ space #}; each escape-like string with every byte before and after; long names; on the file system: every link target of up to 5 symbols of {/ . .. a}, targets of 1..300 bytes and more up to 4095; every 2-byte name as a link (thorough: also file and directory), scanned and parsed");
    ctx.chunk(64);
    for a in 0..=255u8 {
        ctx.fast(|ctx| one(ctx, &[a], Ht::Sha));
        for b in 0..=255u8 {
            ctx.fast(|ctx| one(ctx, &[a, b], Ht::Sha));
        }
    }
    let esc = b"\\x041fF";
    for k in 3..=ctx.pick(6, 7) {
        let n = esc.len().pow(k as u32);
        for i in 0..n {
            ctx.fast(|ctx| {
                let mut j = i;
                let w: Vec<u8> = (0..k)
                    .map(|_| {
                        let c = esc[j % esc.len()];
                        j /= esc.len();
                        c
                    })
                    .collect();
                one(ctx, &w, Ht::Sha)
            });
        }
    }
    let odd = b".a-~ #";
    for k in 3..=ctx.pick(5, 6) {
        for i in 0..odd.len().pow(k as u32) {
            ctx.fast(|ctx| {
                let mut j = i;
                let w: Vec<u8> = (0..k)
                    .map(|_| {
                        let c = odd[j % odd.len()];
                        j /= odd.len();
                        c
                    })
                    .collect();
                one(ctx, &w, Ht::Sha)
            });
        }
    }
    for s in [&b"\\x41"[..], b"\\x5c", b"\\xFF", b"\\x0", b"\\", b"\\x", b" f 0", b" s ", b"\n/", b"\n  a f 0", b"x\\x2f", b"\\x2e", b"\\x00"] {
        for b in 0..=255u8 {
            ctx.fast(|ctx| {
                let mut w = vec![b];
                w.extend_from_slice(s);
                one(ctx, &w, Ht::Sha);
                w.push(b);
                one(ctx, &w, Ht::B2);
                one(ctx, &w[1..], Ht::B3);
            });
        }
    }
    if ctx.thorough() {
        let al: Vec<u8> = (0..=255u8).step_by(7).chain([9, 10, 32, 33, 46, 47, 92, 120, 126, 127, 128, 255]).collect();
        for &a in &al {
            for &b in &al {
                for &c in &al {
                    ctx.fast(|ctx| one(ctx, &[a, b, c], Ht::Sha));
                }
            }
        }
    }
    for len in [3usize, 63, 64, 65, 127, 128, 200, 255, 256, 1000, 4095] {
        for b in [b'a', b'\\', b' ', 0xff, b'\n', 1] {
            ctx.fast(|ctx| one(ctx, &vec![b; len], Ht::Sha));
        }
    }
    ctx.chunk(1);
    // through the file system
    ctx.case(|| "link targets like paths".into(), |ctx| {
        let mut t = Node::dir();
        for (i, w) in crate::c09::paths().iter().enumerate() {
            t = t.with(format!("{}", i).as_bytes(), Node::link(w));
        }
        for n in (1..=300).chain((300..4095).step_by(101)).chain([511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4094, 4095]) {
            for (k, b) in [b'a', 0xff, b'/', b'\\'].into_iter().enumerate() {
                t = t.with(format!("n{}-{}", n, k).as_bytes(), Node::link(&vec![b; n]));
            }
        }
        let root = ctx.fresh("t");
        make(&t, &root);
        for threads in [0usize, 2] {
            let o = Opts::new(Ht::Sha).threads(threads);
            let s = scan(&root, &o);
            judge(ctx, &s, &t, &o, "scan");
            if parse_ok(&s.out) != entries(&t, Ht::Sha, BS) {
                violation("an index of links parses differently");
            }
            ctx.add("evaluations", t.count() as u64);
        }
        wipe(&root);
    });
    for a in 1..=255u8 {
        if a == b'/' {
            continue;
        }
        for kind in 0..ctx.pick(1, 3) {
            ctx.case(|| format!("names starting with byte {} kind {}", a, kind), |ctx| {
                let mut m = BTreeMap::new();
                for b in 1..=255u8 {
                    if b == b'/' || [a, b] == *b".." {
                        continue;
                    }
                    let n = vec![a, b];
                    m.insert(n.clone(), match kind {
                        0 => Node::link(&[b, a, b]),
                        1 => Node::file(&[]),
                        _ => Node::dir(),
                    });
                }
                let t = Node::Dir(m);
                let root = ctx.fresh("t");
                make(&t, &root);
                let s = scan(&root, &Opts::new(Ht::Sha));
                judge(ctx, &s, &t, &Opts::new(Ht::Sha), "scan");
                let got = parse_ok(&s.out);
                if got != entries(&t, Ht::Sha, BS) {
                    violation(&format!("the index of {:?} parses differently", t));
                }
                wipe(&root);
                ctx.add("evaluations", t.count() as u64);
            });
        }
    }
}
