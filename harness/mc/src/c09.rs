//! C09: emitting the entries parsed from an index reproduces it.
use crate::common::*;
use crate::pgen::*;
use crate::universe::{self, Size};
use dir_signature::v1::Emitter;
use kit::ctx::{cut, cut_ok, violation, Ctx};
use kit::hash::{digest, fnv, Ht, ALL};
use kit::json::brief;
use kit::model::*;
use std::io::Cursor;

fn round(ctx: &mut Ctx, text: &[u8], h: Ht, bs: u64) {
    let ents = lib(text);
    let mut out = Vec::new();
    let r = cut(|| {
        let mut e = Emitter::new(ht(h), bs, &mut out)?;
        for x in &ents {
            emit_call(&mut e, x)?;
        }
        e.finish()
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => violation(&format!("emitting to memory fails: {}", e)),
        Err(p) => violation(&format!("emitter panics: {} for {}", p, brief(text))),
    }
    ctx.eval();
    if out != text {
        violation(&format!("emitting the parsed entries: {}", diff(&out, text)));
    }
    if lib(&out) != ents {
        violation("the emitted index parses differently");
    }
    let head = header(h, bs).len();
    let want = digest(h, &text[head..text.len() - 65]);
    match cut_ok(|| dir_signature::get_hash(&mut Cursor::new(&out[..]))) {
        Ok(g) if g == want => {}
        x => violation(&format!("checksum of the emitted index reads as {:?}", x)),
    }
    ctx.distinct(fnv(text));
}

fn sizes(bs: u64) -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, 1, 2, bs / 2, bs - 1, bs];
    if bs < 1 << 40 {
        v.extend([bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1, 5 * bs + 3]);
    } else {
        v.extend([bs.saturating_add(1), bs.saturating_mul(2), u64::MAX - 1, u64::MAX]);
    }
    v.retain(|&s| s / bs < 1 << 10);
    v.sort();
    v.dedup();
    v
}

/// Strings of path-like symbols.
pub fn paths() -> Vec<Vec<u8>> {
    let sy = [&b"/"[..], b".", b"a", b".."];
    (1..=5).flat_map(|k| words(4, k)).map(|w| w.iter().flat_map(|&i| sy[i].iter().cloned()).collect()).collect()
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation parses one index, emits its entries again and compares the bytes; distinct by index text");
    ctx.text("bounds", "indexes of all trees of up to 4 nodes (synthetic) x all assignments of sizes around block boundaries for trees of up to 2 nodes, block sizes {1,7,64,4096,32768,65536,2^40,2^63,2^64-1} x 3 hash types; every single digest byte value; large ones as in C08; link targets of up to 5 symbols of {/ . .. a}; indexes of the scanned universe (small)");
    let bss = [1u64, 7, 64, 4096, 32768, 65536, 1 << 40, 1 << 63, u64::MAX];
    for &h in &ALL {
        for &bs in &bss {
            ctx.case(|| format!("synthetic {:?} {}", h, bs), |ctx| {
                round(ctx, &render(&[], h, bs), h, bs);
                for &s in &sizes(bs) {
                    for exe in [false, true] {
                        for name in [&b"a"[..], b" ", b"\\x41", b"\xff\x01", b"f"] {
                            let mut v = vec![rdir(b"/"), rfile(&join(b"/", name), exe, s, bs)];
                            round(ctx, &render(&v, h, bs), h, bs);
                            v.push(rlink(b"/zz", name));
                            v.push(rdir(&join(b"/", name)));
                            round(ctx, &render(&v, h, bs), h, bs);
                        }
                    }
                    for &s2 in &sizes(bs) {
                        let v = [rdir(b"/"), rfile(b"/a", false, s, bs), rfile(b"/b", true, s2, bs), rlink(b"/c", b"x y"), rdir(b"/d"), rfile(b"/d/e", true, s, bs)];
                        round(ctx, &render(&v, h, bs), h, bs);
                    }
                    ctx.beat();
                }
            });
        }
        ctx.case(|| format!("digest bytes {:?}", h), |ctx| {
            for pos in 0..32 {
                for b in 0..=255u8 {
                    let mut d = fake(7);
                    d[pos] = b;
                    let e = REnt { path: b"/a".to_vec(), kind: RKind::File { exe: false, size: 40000, hashes: vec![fake(1), d] } };
                    round(ctx, &render(&[rdir(b"/"), e], h, 32768), h, 32768);
                }
            }
        });
        for (n, s) in shapes() {
            ctx.case(|| format!("shape {} {:?}", n, h), |ctx| {
                round(ctx, &render(&s, h, 32768), h, 32768);
            });
        }
    }
    for (name, ents, bs) in large(ctx.thorough()) {
        ctx.case(|| format!("large: {}", name), |ctx| {
            for &h in &ALL {
                round(ctx, &render(&ents, h, bs), h, bs);
            }
        });
    }
    // link targets that a path type could normalise
    for w in paths() {
        ctx.fast(|ctx| {
            let v = [rdir(b"/"), rlink(b"/l", &w), rdir(b"/a"), rlink(b"/a/m", &w)];
            for &h in &ALL {
                round(ctx, &render(&v, h, 32768), h, 32768);
            }
        });
    }
    // trees with the real digests, without the file system
    ctx.chunk(32);
    for n in 0..=ctx.pick(4, 5) {
        for f in forests(n, &universe::small_names(), &universe::small_leaves()) {
            ctx.fast(|ctx| {
                let t = Node::Dir(f);
                for &h in &ALL {
                    if n < 4 || h == Ht::B3 {
                        round(ctx, &index(&t, h), h, BS as u64);
                    }
                }
            });
        }
    }
    ctx.chunk(1);
    universe::all(ctx, Size::Small, &mut |ctx, t, hs| {
        if t.count() >= 3 && t.count() <= 5 && ctx.case_no() % 7 != 0 {
            return; // covered above
        }
        let root = ctx.fresh("t");
        make(t, &root);
        for &h in hs {
            let s = scan(&root, &Opts::new(h));
            if s.res.is_err() {
                violation("scan fails");
            }
            round(ctx, &s.out, h, BS as u64);
        }
        wipe(&root);
    });
}
