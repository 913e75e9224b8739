//! C20: hashing a stream; C21: checking a file.
use crate::cio::*;
use crate::common::*;
use dir_signature::v1::{Emitter, Entry, Hashes};
use kit::ctx::{cut, cut_ok, violation, Ctx};
use kit::hash::{blocks, fnv, Cumulative, Ht, ALL, D32};
use kit::json::brief;
use kit::mc::explore::Bounds;
use kit::model::*;
use std::io::{self, Read};

fn cumulative(data: &[u8], bs: usize) -> Vec<D32> {
    let mut c = Cumulative::new();
    data.chunks(bs).map(|b| c.block(b)).collect()
}

fn run_hash<R: Read>(h: Ht, bs: u64, r: R) -> io::Result<(u64, Hashes)> {
    match cut(|| Hashes::hash_file(ht(h), bs, r)) {
        Ok(x) => x,
        Err(p) => violation(&format!("hash_file panics with block size {}: {}", bs, p)),
    }
}

fn as_usize(bs: u64) -> usize {
    bs.min(1 << 40) as usize
}

/// The result of hashing `data` must be its size and block digests.
fn judge_hash(ctx: &mut Ctx, h: Ht, bs: u64, data: &[u8], r: io::Result<(u64, Hashes)>, what: &str) -> Hashes {
    let fail = |m: String| -> ! { violation(&format!("{}: hashing {} bytes {} with {:?} and block size {}: {}", what, data.len(), brief(data), h, bs, m)) };
    let (size, hs) = match r {
        Ok(x) => x,
        Err(e) => fail(format!("fails with {}", e)),
    };
    if size != data.len() as u64 {
        fail(format!("reports size {}", size));
    }
    let want = blocks(h, data, as_usize(bs));
    let n = want.len();
    let got: Vec<D32> = hashes(&hs);
    if hs.len() != got.len() || hs.get(got.len()).is_some() || hs.get(usize::MAX).is_some() || (0..got.len()).any(|i| hs.get(i) != Some(&got[i][..])) {
        fail("length, indexing and iteration disagree".into());
    }
    if hs.block_size() != bs || hs.hash_type() != ht(h) {
        fail(format!("block size {} and hash type {:?} are reported", hs.block_size(), hs.hash_type()));
    }
    if got.len() != n {
        fail(format!("gives {} hashes instead of {}", got.len(), n));
    }
    if got != want {
        if h == Ht::B3 && got == cumulative(data, as_usize(bs)) {
            ctx.known("blake3-cumulative", || format!("{}: hashes of {} bytes with block size {} are not those of the blocks", what, data.len(), bs));
        } else {
            let i = (0..n).find(|&i| got[i] != want[i]).unwrap();
            fail(format!("hash {} is wrong", i));
        }
    }
    hs
}

/// A line written by the emitter with these hashes parses back.
fn emits(h: Ht, bs: u64, size: u64, hs: &Hashes) {
    let mut out = Vec::new();
    let r = cut(|| -> io::Result<()> {
        let mut e = Emitter::new(ht(h), bs, &mut out)?;
        e.start_dir(std::path::Path::new("/"))?;
        e.add_file(os(b"n m"), true, size, hs)?;
        e.finish()
    });
    if !matches!(r, Ok(Ok(()))) {
        violation(&format!("emitting hashes of {} bytes fails: {:?}", size, r));
    }
    let mut p = ok(cut_ok(|| dir_signature::v1::Parser::new(io::Cursor::new(&out[..]))), "parsing an emitted index");
    let got: Vec<_> = cut_ok(|| p.iter().collect::<Vec<_>>());
    let good = match &got[..] {
        [Ok(Entry::Dir(d)), Ok(Entry::File { path, exe: true, size: s, hashes: x })] => d.as_os_str() == "/" && path.as_os_str() == "/n m" && *s == size && x == hs,
        _ => false,
    };
    if !good {
        violation(&format!("a file of {} bytes with block size {} and {:?} hashed by hash_file is emitted as {} and parsed as {:?}", size, bs, h, brief(&out), got));
    }
}

fn one_hash(ctx: &mut Ctx, h: Ht, bs: u64, data: &[u8], emit: bool) {
    let r = run_hash(h, bs, data);
    let hs = judge_hash(ctx, h, bs, data, r, "whole reads");
    if emit {
        emits(h, bs, data.len() as u64, &hs);
    }
    ctx.eval();
    ctx.distinct(fnv(format!("{:?} {} {} {}", h, bs, data.len(), fnv(data)).as_bytes()));
}

pub fn bits(n: usize) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    for len in 0..=n {
        for m in 0..1u32 << len {
            out.push((0..len).map(|i| (m >> i & 1) as u8).collect());
        }
    }
    out
}

/// Boundary sizes for a block size.
fn around(bs: usize, blocks: usize) -> Vec<usize> {
    let mut v = vec![0, 1];
    for k in 1..=blocks {
        v.extend([k * bs - 1, k * bs, k * bs + 1]);
    }
    v.sort();
    v.dedup();
    v
}

pub fn run20(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation hashes one content with one block size, hash type and read pattern and compares size, number of hashes, every hash (by iteration and by index) with the reference, and parses an emitted line with them; distinct by (hash, block size, content)");
    ctx.text("bounds", "sizes 0..40 (thorough: 0..130) x block sizes 1..20 (thorough: 1..64) x 3 patterns; all contents over two bytes of length up to 8 (thorough: 11) x block sizes 1..5; sizes around multiples of 4096, 8191, 8192, 8193, 32768, 65536; block sizes 2^32, 2^63, 2^64-1; every single, pair and triple of short reads of every length or interruptions for sizes up to 7 (thorough: 10); one (thorough: two) short read or interruption for big ones; constant chunks; read errors at every call; equality with scanned indexes of files around block multiples; nine kinds of read errors at every block boundary; a stream of 2^32+1 bytes");
    let th = ctx.thorough();
    ctx.chunk(1);
    crate::huge::hash_cases(ctx);
    let (max, maxb) = if th { (130, 64) } else { (40, 20) };
    ctx.chunk(1);
    for h in ALL {
        for bs in 1..=maxb {
            ctx.case(|| format!("{:?} block size {}: sizes up to {}", h, bs, max), |ctx| {
                for size in 0..=max {
                    for k in 0..3 {
                        one_hash(ctx, h, bs, &content(size, k + 1), true);
                    }
                    ctx.beat();
                }
            });
        }
        for bs in 1..=5 {
            ctx.case(|| format!("{:?} block size {}: all contents over two bytes", h, bs), |ctx| {
                for c in bits(if th { 11 } else { 8 }) {
                    one_hash(ctx, h, bs, &c, false);
                }
            });
        }
        for bs in [4096usize, 8191, 8192, 8193, 32768, 65536] {
            ctx.case(|| format!("{:?} block size {}: boundaries", h, bs), |ctx| {
                for size in around(bs, if bs > 10000 { 3 } else { 5 }) {
                    for k in [0u8, 1, 3] {
                        one_hash(ctx, h, bs as u64, &content(size, k), true);
                    }
                    let c = content(size, 1);
                    for chunk in [1usize, 7, 4096, 8191, 8193] {
                        if chunk == 1 && size > 70000 && !th {
                            continue;
                        }
                        let r = run_hash(h, bs as u64, CRead::new(&c, Menu::PLAIN).chunk(chunk).intr());
                        judge_hash(ctx, h, bs as u64, &c, r, &format!("chunks of {}", chunk));
                        ctx.eval();
                    }
                    ctx.beat();
                }
            });
        }
        ctx.case(|| format!("{:?} huge block sizes", h), |ctx| {
            for bs in [1u64 << 32, (1 << 32) - 1, 1 << 63, (1 << 63) - 1, u64::MAX - 1, u64::MAX] {
                for size in [0, 1, 40, 8192, 32768, 100000] {
                    one_hash(ctx, h, bs, &content(size, 3), true);
                }
            }
        });
        // read patterns
        let small = if th { 10 } else { 7 };
        for bs in 1..=4u64 {
            for size in 0..=small {
                ctx.case(|| format!("{:?} {} bytes, block size {}: all read patterns", h, size, bs), |ctx| {
                    let c = content(size, 1);
                    ctx.explore(Bounds::new(3), |ctx| {
                        let r = run_hash(h, bs, CRead::new(&c, Menu::SPLIT));
                        judge_hash(ctx, h, bs, &c, r, "split reads");
                    });
                    ctx.explore(Bounds::new(2), |ctx| {
                        let mut rd = CRead::new(&c, Menu { lens: Lens::All, eintr: true, eio: true });
                        let r = run_hash(h, bs, &mut rd);
                        match r {
                            Err(e) if rd.failures > 0 => kit::ctx::check(e.raw_os_error() == Some(libc::EIO), || format!("a read error is reported as {:?}", e)),
                            r if rd.failures == 0 => {
                                judge_hash(ctx, h, bs, &c, r, "split reads");
                            }
                            r => violation(&format!("a read error is lost: {:?}", r)),
                        }
                    });
                });
            }
        }
        for (bs, size) in [(1u64, 3usize), (3, 9), (5, 7), (4096, 8192), (32768, 40000)] {
            ctx.case(|| format!("{:?} {} bytes, block size {}: kinds of read errors", h, size, bs), |ctx| {
                let c = content(size, 1);
                for f in around(bs as usize, 2).into_iter().filter(|&f| f <= size) {
                    for kind in KINDS.iter().map(|&k| Some(k)).chain([None]) {
                        for chunk in [0usize, 2] {
                            let r = run_hash(h, bs, CRead::new(&c, Menu::PLAIN).chunk(if size > 100 { chunk * 500 } else { chunk }).fail_at(f).kind(kind));
                            match r {
                                Err(e) if CRead::mine(kind, &e) => {}
                                r => violation(&format!("reading fails with {:?} at {} of {} bytes with block size {}, hash_file gives {:?}", kind, f, size, bs, r.map(|x| x.0))),
                            }
                            ctx.eval();
                        }
                    }
                }
            });
        }
        for (bs, size) in [(32768u64, 32768usize), (32768, 65536), (32768, 70000), (8192, 8192), (8192, 20000), (10000, 20000)] {
            ctx.case(|| format!("{:?} {} bytes, block size {}: split reads", h, size, bs), |ctx| {
                let c = content(size, 1);
                ctx.explore(Bounds::new(if th { 2 } else { 1 }), |ctx| {
                    let r = run_hash(h, bs, CRead::new(&c, Menu::FEW));
                    judge_hash(ctx, h, bs, &c, r, "split reads");
                });
            });
        }
        // the same as a scan records
        for threads in [0usize, 2] {
            ctx.case(|| format!("{:?} scanned with {} threads", h, threads), |ctx| {
                for size in around(BS, 3) {
                    for kind in [0u8, 1, 3] {
                        let c = content(size, kind);
                        let t = Node::dir().with(b"f", Node::file(&c));
                        let root = ctx.fresh("t");
                        make(&t, &root);
                        let s = scan(&root, &Opts::new(h).threads(threads));
                        wipe(&root);
                        kit::ctx::check(s.res.is_ok(), || format!("scan fails: {:?}", s.res));
                        let (n, hs) = run_hash(h, BS as u64, &c[..]).unwrap_or_else(|e| violation(&format!("hash_file fails: {}", e)));
                        let mut p = ok(dir_signature::v1::Parser::new(io::Cursor::new(&s.out[..])), "parsing a scanned index");
                        match cut_ok(|| p.iter().nth(1)) {
                            Some(Ok(Entry::File { size, hashes, .. })) => {
                                if size != n || hashes != hs {
                                    violation(&format!("a scan records size {} and {} hashes for a file of {} bytes, hash_file gives {} and {} ones (equal: {})", size, hashes.len(), c.len(), n, hs.len(), hashes == hs));
                                }
                            }
                            x => violation(&format!("scan of one file gives {:?}", x)),
                        }
                        ctx.eval();
                    }
                }
            });
        }
    }
}

fn run_check<R: Read>(hs: &Hashes, r: R) -> io::Result<bool> {
    match cut(|| hs.check_file(r)) {
        Ok(x) => x,
        Err(p) => violation(&format!("check_file panics: {}", p)),
    }
}

fn judge_check(hs: &Hashes, bs: u64, orig: &[u8], now: &[u8], r: io::Result<bool>, what: &str) {
    match r {
        Ok(x) if x == (orig == now) => {}
        r => violation(&format!(
            "{}: checking {} bytes {} against the {} {:?} hashes of {} bytes {} with block size {} gives {:?}",
            what, now.len(), brief(now), hs.len(), hs.hash_type(), orig.len(), brief(orig), bs, r
        )),
    }
}

/// Hashes as an index records them: digests of the blocks (for BLAKE3, see
/// the known finding, what the library makes of a single file).
fn recorded(h: Ht, bs: u64, c: &[u8]) -> Hashes {
    if h == Ht::B3 {
        return run_hash(h, bs, c).unwrap_or_else(|e| violation(&format!("hash_file fails: {}", e))).1;
    }
    lib_hashes(h, bs, c.len() as u64, &blocks(h, c, as_usize(bs)))
}

/// Contents close to `c`.
fn mutations(c: &[u8], bs: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = Vec::new();
    let n = c.len();
    let mut at = vec![0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1)];
    for k in 1..=n / bs {
        at.extend([k * bs - 1, k * bs, k * bs + 1]);
    }
    for k in 1..=n / 8192 {
        at.extend([k * 8192 - 1, k * 8192]);
    }
    at.sort();
    at.dedup();
    for &i in &at {
        if i < n {
            for x in [1u8, 0x80] {
                let mut d = c.to_vec();
                d[i] ^= x;
                out.push(d);
            }
            let mut d = c.to_vec();
            d.remove(i);
            out.push(d);
        }
        if i <= n {
            out.push(c[..i].to_vec());
            out.push(c[i..].to_vec());
            let mut d = c.to_vec();
            d.insert(i, 0);
            out.push(d);
        }
    }
    // swapped, repeated, dropped and empty blocks
    let bl: Vec<&[u8]> = c.chunks(bs).collect();
    for i in 0..bl.len() {
        for j in i + 1..bl.len() {
            let mut v = bl.clone();
            v.swap(i, j);
            out.push(v.concat());
        }
        let mut v = bl.clone();
        v.remove(i);
        out.push(v.concat());
        let mut v = bl.clone();
        v.insert(i, bl[i]);
        out.push(v.concat());
        let mut v = bl.clone();
        let z = vec![0; bl[i].len()];
        v[i] = &z;
        out.push(v.concat());
    }
    for extra in [1, bs, 2 * bs] {
        let mut d = c.to_vec();
        d.extend(vec![0; extra]);
        out.push(d);
        let mut d = c.to_vec();
        d.extend_from_slice(&c[..extra.min(n)]);
        out.push(d);
    }
    out.push(c.to_vec());
    out
}

pub fn run21(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation checks one content against the hashes recorded for another one; the answer must be true exactly if they are equal, and an error exactly if reading fails before a difference was met; distinct by (hash, block size, both contents)");
    ctx.text("bounds", "all ordered pairs of contents over two bytes of length up to 6 (thorough: 8) x block sizes 1..4 x 3 hash types, with hashes of the reference model and of hash_file; contents of up to 600 blocks; contents of up to 3 blocks of 1000, 8192 and 32768 bytes against all single-byte changes at boundaries, insertions, deletions, cuts, swaps, repetitions and extensions; every single and pair (thorough: triple) of short reads, interruptions and read errors on small ones, one for big ones; read errors of ten kinds from every offset; recorded digests with every single bit changed; a file of 2^32+1 bytes; files of scanned trees of up to 3 files against each other");
    let th = ctx.thorough();
    let len = if th { 8 } else { 6 };
    ctx.chunk(1);
    crate::huge::check_cases(ctx);
    for h in ALL {
        for bs in 1..=4u64 {
            ctx.case(|| format!("{:?} block size {}: all pairs", h, bs), |ctx| {
                let all = bits(len);
                for a in &all {
                    let own = run_hash(h, bs, &a[..]).unwrap_or_else(|e| violation(&format!("hash_file fails: {}", e))).1;
                    let rec = recorded(h, bs, a);
                    for b in &all {
                        judge_check(&rec, bs, a, b, run_check(&rec, &b[..]), "recorded hashes");
                        judge_check(&own, bs, a, b, run_check(&own, &b[..]), "hash_file's hashes");
                        ctx.eval();
                        ctx.distinct(fnv(format!("{:?} {} {:?} {:?}", h, bs, a, b).as_bytes()));
                    }
                    ctx.beat();
                }
            });
        }
        for bs in [1000usize, 8192, 32768, 1 << 33] {
            let step = bs.min(32768);
            let mut sizes = around(step, 3);
            sizes.push(step * 5 / 2);
            for size in sizes {
                ctx.case(|| format!("{:?} block size {}: variants of {} bytes", h, bs, size), |ctx| {
                    for k in [1u8, 0, 3] {
                        let c = content(size, k);
                        let rec = recorded(h, bs as u64, &c);
                        for m in mutations(&c, step) {
                            judge_check(&rec, bs as u64, &c, &m, run_check(&rec, &m[..]), "recorded hashes");
                            ctx.eval();
                            ctx.distinct(fnv(format!("{:?} {} {} {}", h, bs, fnv(&c), fnv(&m)).as_bytes()));
                        }
                        ctx.beat();
                    }
                });
            }
        }
        // files of many blocks
        for (bs, most) in [(1usize, 600usize), (3, 300), (4096, 1100), (32768, 140)] {
            ctx.case(|| format!("{:?} up to {} blocks of {} bytes", h, most, bs), |ctx| {
                let big = content(most * bs + 1, 1);
                let counts: Vec<usize> = if bs < 100 { (1..=most).collect() } else { (0..12).map(|k| 1usize << k).flat_map(|k| [k, k + 1, 3 * k]).filter(|&k| k <= most).chain([most]).collect() };
                for k in counts {
                    for cut in [0, 1] {
                        let c = &big[..k * bs - if bs > 1 { cut } else { 0 }];
                        let rec = recorded(h, bs as u64, c);
                        let mut others = vec![c.to_vec(), big[..c.len() + 1].to_vec(), c[..c.len() - 1].to_vec(), c[..(k - 1) * bs].to_vec()];
                        others.push([c, &c[..bs.min(c.len())]].concat());
                        for i in [0, c.len() / 2, c.len() - 1] {
                            let mut d = c.to_vec();
                            d[i] ^= 4;
                            others.push(d);
                        }
                        for m in others {
                            judge_check(&rec, bs as u64, c, &m, run_check(&rec, &m[..]), "many blocks");
                            ctx.eval();
                        }
                    }
                    ctx.beat();
                }
            });
        }
        // recorded digests that are almost right
        ctx.case(|| format!("{:?} recorded digests off by a bit", h), |ctx| {
            for (bs, size) in [(4usize, 3usize), (4, 4), (4, 9), (BS, 2 * BS)] {
                let c = content(size, 1);
                let good = if h == Ht::B3 { cumulative(&c, bs) } else { blocks(h, &c, bs) };
                for b in 0..good.len() {
                    for bit in 0..256 {
                        let mut d = good.clone();
                        d[b][bit / 8] ^= 1 << (bit % 8);
                        let rec = lib_hashes(h, bs as u64, size as u64, &d);
                        match run_check(&rec, &c[..]) {
                            Ok(false) => {}
                            r => violation(&format!("{} bytes checked against hashes with bit {} of hash {} changed: {:?}", size, bit, b, r)),
                        }
                        ctx.eval();
                    }
                    for b2 in b + 1..good.len() {
                        let mut d = good.clone();
                        d.swap(b, b2);
                        if d != good && !matches!(run_check(&lib_hashes(h, bs as u64, size as u64, &d), &c[..]), Ok(false)) {
                            violation(&format!("{} bytes checked against hashes with {} and {} exchanged do not differ", size, b, b2));
                        }
                    }
                }
            }
        });
        // how the reader delivers
        for bs in 1..=3u64 {
            ctx.case(|| format!("{:?} block size {}: read patterns", h, bs), |ctx| {
                let orig = content(5, 1);
                for m in mutations(&orig, bs as usize) {
                    let rec = recorded(h, bs, &orig);
                    ctx.explore(Bounds::new(if th { 3 } else { 2 }), |_| {
                        let mut rd = CRead::new(&m, Menu { lens: Lens::All, eintr: true, eio: true });
                        let r = run_check(&rec, &mut rd);
                        if rd.failures > 0 {
                            match r {
                                Err(e) if e.raw_os_error() == Some(libc::EIO) => {}
                                r => violation(&format!("a read error while checking gives {:?}", r)),
                            }
                        } else {
                            judge_check(&rec, bs, &orig, &m, r, "split reads");
                        }
                    });
                    for f in 0..=m.len() {
                        fails(h, bs, &orig, &m, f, None);
                        for k in KINDS {
                            fails(h, bs, &orig, &m, f, Some(k));
                        }
                        ctx.eval();
                    }
                }
            });
        }
        for (bs, size) in [(32768u64, 32768usize), (32768, 70000), (8192, 20000)] {
            ctx.case(|| format!("{:?} {} bytes, block size {}: read patterns", h, size, bs), |ctx| {
                let c = content(size, 1);
                let rec = recorded(h, bs, &c);
                let mut other = c.clone();
                other[size - 1] ^= 1;
                let mut longer = c.clone();
                longer.push(0);
                for m in [&c, &other, &longer] {
                    ctx.explore(Bounds::new(if th { 2 } else { 1 }), |_| {
                        judge_check(&rec, bs, &c, m, run_check(&rec, CRead::new(m, Menu::FEW)), "split reads");
                    });
                    for chunk in [1000, 8191] {
                        judge_check(&rec, bs, &c, m, run_check(&rec, CRead::new(m, Menu::PLAIN).chunk(chunk).intr()), "chunks");
                    }
                    for f in [0, 1, 8191, 8192, 8193, size - 1, size, size + 1] {
                        if f <= m.len() {
                            fails(h, bs, &c, m, f, None);
                            for k in KINDS {
                                fails(h, bs, &c, m, f, Some(k));
                            }
                        }
                    }
                }
            });
        }
        // hashes that a scan recorded
        for threads in [0usize, 2] {
            ctx.case(|| format!("{:?} files scanned with {} threads", h, threads), |ctx| {
                let cs: Vec<Vec<u8>> = vec![vec![], b"a".to_vec(), content(BS - 1, 1), content(BS, 1), content(BS, 3), content(BS + 1, 1), content(2 * BS, 1), content(2 * BS, 0), content(70000, 3)];
                for a in &cs {
                    for b in &cs {
                        let t = Node::dir().with(b"a", Node::file(a)).with(b"b", Node::file(b)).with(b"c", Node::file(a));
                        let root = ctx.fresh("t");
                        make(&t, &root);
                        let s = scan(&root, &Opts::new(h).threads(threads));
                        wipe(&root);
                        kit::ctx::check(s.res.is_ok(), || format!("scan fails: {:?}", s.res));
                        let mut p = ok(dir_signature::v1::Parser::new(io::Cursor::new(&s.out[..])), "parsing a scanned index");
                        let recs: Vec<Hashes> = cut_ok(|| p.iter().collect::<Vec<_>>()).into_iter().filter_map(|e| match e { Ok(Entry::File { hashes, .. }) => Some(hashes), _ => None }).collect();
                        kit::ctx::check(recs.len() == 3, || format!("{} files of 3 scanned", recs.len()));
                        for (rec, orig) in recs.iter().zip([a, b, a]) {
                            for m in &cs {
                                let r = run_check(rec, &m[..]);
                                if h == Ht::B3 && threads == 0 && m == orig && matches!(r, Ok(false)) {
                                    ctx.known("blake3-cumulative", || "a file does not match the hashes that a sequential scan recorded for it, because they also cover the files before it".into());
                                } else {
                                    judge_check(rec, BS as u64, orig, m, r, "scanned hashes");
                                }
                                ctx.eval();
                            }
                        }
                    }
                }
            });
        }
    }
}

/// Reading fails from offset `f` on.
fn fails(h: Ht, bs: u64, orig: &[u8], m: &[u8], f: usize, kind: Option<io::ErrorKind>) {
    let rec = recorded(h, bs, orig);
    let mut rd = CRead::new(m, Menu::PLAIN).fail_at(f).kind(kind);
    let r = run_check(&rec, &mut rd);
    // a difference in an earlier block may be reported instead
    let b = bs as usize;
    let differs = (0..f / b).any(|i| m[i * b..(i + 1) * b] != orig[(i * b).min(orig.len())..((i + 1) * b).min(orig.len())]) || f > orig.len();
    match r {
        Err(e) if rd.failures > 0 && CRead::mine(kind, &e) => {}
        Ok(false) if differs => {}
        r => violation(&format!("checking {} against hashes of {} with block size {}, reading fails at {}: {:?}", brief(m), brief(orig), bs, f, r)),
    }
}
