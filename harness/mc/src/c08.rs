//! C08: parsing the index of a tree gives back the tree.
use crate::common::*;
use crate::pgen::*;
use crate::universe::{self, Size};
use kit::ctx::{cut_ok, violation, Ctx};
use kit::hash::{fnv, Ht, ALL};
use kit::json::show;
use kit::model::*;
use std::os::unix::ffi::OsStrExt;

fn check_one(ctx: &mut Ctx, t: &Node, o: &Opts, root: &std::path::Path) {
    let s = scan(root, o);
    if let Err(e) = &s.res {
        violation(&format!("scan fails: {:?}", e));
    }
    ctx.eval();
    let mut pr = parser(&s.out);
    let hd = pr.get_header();
    if hd.get_version() != "v1" || hd.get_hash_type() != ht(o.ht) || hd.get_block_size() != BS as u64 {
        violation(&format!("header of an index with {:?} reads as {:?}", o, hd));
    }
    let want = entries(t, o.ht, BS);
    let mut got: Vec<REnt> = Vec::new();
    cut_ok(|| {
        let mut it = pr.iter();
        loop {
            match it.next() {
                Some(Ok(e)) => {
                    let r = rent(&e);
                    if e.path().as_os_str().as_bytes() != &r.path[..] || e.kind() != ek(&r).as_ref() {
                        violation(&format!("path() or kind() of {:?} is {:?} {:?}", r, e.path(), e.kind()));
                    }
                    if let dir_signature::v1::Entry::File { size, hashes, .. } = &e {
                        let n = (*size + BS as u64 - 1) / BS as u64;
                        if hashes.len() as u64 != n || hashes.iter().count() as u64 != n {
                            violation(&format!("{}: {} hashes for {} bytes", show(&r.path), hashes.len(), size));
                        }
                        if hashes.block_size() != BS as u64 || hashes.hash_type() != ht(o.ht) {
                            violation(&format!("{}: block size or hash type of the hashes is {} {:?}", show(&r.path), hashes.block_size(), hashes.hash_type()));
                        }
                    }
                    got.push(r);
                }
                Some(Err(e)) => violation(&format!("entry {} of the index of {:?} is an error: {}", got.len(), t, e)),
                None => break,
            }
        }
        for _ in 0..2 {
            if !matches!(it.next(), None) {
                violation("the end of the index is not final");
            }
        }
    });
    if got == want {
        return;
    }
    if o.ht == Ht::B3 && got == entries_h(t, Ht::B3, BS, o.how()) {
        ctx.known("blake3-cumulative", || "BLAKE3 block hashes are not those of the blocks".into());
        return;
    }
    let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
    violation(&format!("entry {} of the index of {:?} with {:?} parses as {:?} instead of {:?}", i, t, o, got.get(i), want.get(i)));
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation creates a tree, scans it and parses the index; the entries must be those of the tree; distinct by tree and options");
    ctx.text("bounds", &format!("{}; synthetic indexes with up to 70000 (thorough: 200000) hashes on a line, names, paths and targets of up to 3 MiB, up to 70000 (300000) entries", universe::TEXT));
    universe::all(ctx, Size::Small, &mut |ctx, t, hs| {
        let root = ctx.fresh("t");
        make(t, &root);
        for &h in hs {
            for threads in [0usize, 2] {
                if threads > 0 && t.count() > 3 && h != Ht::Sha {
                    continue;
                }
                let o = Opts::new(h).threads(threads);
                check_one(ctx, t, &o, &root);
                ctx.distinct(tree_id(t) ^ fnv(format!("{:?}", o).as_bytes()));
            }
        }
        ctx.sample(|| format!("{:?}", t));
        wipe(&root);
    });
    for (name, ents, bs) in large(ctx.thorough()) {
        ctx.case(|| format!("large: {}", name), |ctx| {
            for h in ALL {
                let got = parse_ok(&render(&ents, h, bs));
                if got != ents {
                    let i = got.iter().zip(&ents).take_while(|(a, b)| a == b).count();
                    violation(&format!("{}: entry {} parses as {} instead of {}", name, i, short(got.get(i)), short(ents.get(i))));
                }
                ctx.eval();
            }
            ctx.distinct(fnv(name.as_bytes()));
        });
    }
}
