//! C16: parsing arbitrary data never panics, hangs or exhausts memory.
use crate::alloc;
use crate::common::*;
use dir_signature::v1::merge::MergedSignatures;
use dir_signature::v1::{EntryKind, Parser};
use kit::ctx::{cut, violation, Ctx};
use kit::hash::{fnv, Ht};
use kit::json::brief;
use kit::model::*;
use std::io::{BufRead, Cursor, Read};
use std::path::Path;

/// Reader that notices when it is asked again and again at the end.
struct Watch<'a> {
    c: Cursor<&'a [u8]>,
    calls: u64,
    limit: u64,
}
impl<'a> Watch<'a> {
    fn tick(&mut self) {
        self.calls += 1;
        if self.calls > self.limit {
            alloc::off();
            violation(&format!("endless reading of {}", brief(self.c.get_ref())));
        }
    }
}
impl<'a> Read for Watch<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.tick();
        self.c.read(b)
    }
}
impl<'a> BufRead for Watch<'a> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        self.tick();
        self.c.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.c.consume(n)
    }
}

const T: [(bool, &str); 6] = [(true, "/"), (false, "/a"), (true, "/a"), (false, "/a/b"), (true, "/b/c"), (false, "/zz/zz/zz")];

fn tk(i: usize) -> EntryKind<&'static Path> {
    let (d, s) = T[i % T.len()];
    if d { EntryKind::Dir(Path::new(s)) } else { EntryKind::File(Path::new(s)) }
}

/// All ways of using the data that we try; `scripts` limits them.
fn poke(ctx: &mut Ctx, data: &[u8], scripts: usize) {
    let lines = data.iter().filter(|&&b| b == b'\n').count();
    for s in 0..scripts {
        let w = Watch { c: Cursor::new(data), calls: 0, limit: 64 * (data.len() as u64 + 16) };
        let (r, peak, big) = alloc::measure(|| {
            let r = cut(|| {
                let mut p = match Parser::new(w) {
                    Ok(p) => p,
                    Err(e) => {
                        let _ = e.to_string();
                        return;
                    }
                };
                let calls = lines + 4;
                match s {
                    0 => {
                        let mut it = p.iter();
                        for _ in 0..calls {
                            match it.next() {
                                Some(Ok(e)) => {
                                    let _ = (e.kind().cmp(&tk(0)), e.kind().cmp(&tk(1)), e.path().parent());
                                    if let dir_signature::v1::Entry::File { hashes, .. } = &e {
                                        let _ = (hashes.len(), hashes.get(0).map(|x| x[0]), hashes.iter().count());
                                    }
                                }
                                Some(Err(e)) => drop(e.to_string()),
                                None => {}
                            }
                        }
                    }
                    1 => {
                        let mut it = p.iter();
                        for i in 0..T.len() {
                            let _ = it.advance(&tk(i));
                        }
                        for _ in 0..calls {
                            let _ = it.next();
                        }
                    }
                    2 => {
                        let mut it = p.iter();
                        for i in 0..calls {
                            let _ = it.next();
                            let _ = it.advance(&tk(i));
                        }
                    }
                    3 => {
                        let mut it = p.iter();
                        for _ in 0..calls {
                            let _ = it.advance(&tk(5));
                        }
                    }
                    4 => {
                        // a second cursor over the rest
                        let _ = p.iter().next();
                        let _ = p.iter().advance(&tk(1));
                        for _ in 0..calls {
                            let _ = p.iter().next();
                        }
                    }
                    _ => {
                        let h = p.get_header();
                        let ht_ = if h.get_hash_type() == ht(Ht::Sha) { Ht::Sha } else if h.get_hash_type() == ht(Ht::B2) { Ht::B2 } else { Ht::B3 };
                        let good = render(&[rdir(b"/"), rfile(b"/a", false, 0, h.get_block_size().max(1)), rdir(b"/a")], ht_, h.get_block_size());
                        let q = match Parser::new(Watch { c: Cursor::new(&good), calls: 0, limit: 100_000 }) {
                            Ok(q) => q,
                            Err(_) => return,
                        };
                        let mut m = match MergedSignatures::new(vec![(1, p), (2, q)]) {
                            Ok(m) => m,
                            Err(_) => return,
                        };
                        let mut it = m.iter();
                        for i in 0..calls + 3 {
                            let _ = it.next();
                            if s == 6 {
                                let _ = it.advance(&tk(i));
                            }
                        }
                    }
                }
            });
            alloc::off();
            r
        });
        if let Err(p) = r {
            violation(&format!("panic: {}; usage {} of {}", p, s, brief(data)));
        }
        let allowed = 64 * 1024 + 64 * data.len() as i64;
        if peak > allowed {
            violation(&format!("{} bytes of memory held at once (largest request {}) for {} bytes of data {}", peak, big, data.len(), brief(data)));
        }
    }
    ctx.eval();
    ctx.distinct(fnv(data));
}

const HEAD: &[u8] = b"DIRSIGNATURE.v1 sha512/256 block_size=32768\n";
const HX: &[u8] = b"8dd499a36d950b8732f85a3bffbc8d8bee4a0af391e8ee2bb0aa0c4553b6c0fc";

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation opens one byte string and uses it in 7 ways (next to past the end, advance then next, alternating, far advances, several cursors, merged with a good index by next and by next and advance); no panic (overflow checks are on), bounded reader calls, bounded memory (peak of a counting allocator at most 64 KiB + 64 bytes per byte of data); distinct by byte string");
    ctx.text("bounds", "header followed by every string of up to 5 (thorough: 6) tokens over {LF, space, two spaces, /, a, .., \\x2f, f, s, 0, 1, a digest}; every first header line over a token grammar; every one of 256 values at every byte of three indexes, all deletions, duplications; all pairs of mutations over 6 bytes of a short index; numbers 2^k-1, 2^k, 2^k+1 for all k up to 65 as size, block size and both");
    let toks: Vec<&[u8]> = vec![b"\n", b" ", b"  ", b"/", b"a", b"..", b"\\x2f", b"f", b"s", b"0", b"1", HX];
    ctx.chunk(256);
    for k in 0..=ctx.pick(5, 6) {
        let n = toks.len().pow(k as u32);
        for i in 0..n {
            ctx.fast(|ctx| {
                let mut j = i;
                let mut d = HEAD.to_vec();
                d.extend_from_slice(b"/\n");
                if i % 2 == 1 && k <= 4 {
                    d.truncate(HEAD.len());
                }
                for _ in 0..k {
                    d.extend_from_slice(toks[j % toks.len()]);
                    j /= toks.len();
                }
                poke(ctx, &d, if k <= 4 { 7 } else { 3 });
                if k <= 4 {
                    d.push(b'\n');
                    poke(ctx, &d, 7);
                    d.extend_from_slice(HX);
                    d.push(b'\n');
                    poke(ctx, &d, 7);
                    // without a directory
                    let mut e = HEAD.to_vec();
                    e.extend_from_slice(&d[HEAD.len() + if i % 2 == 1 { 0 } else { 2 }..]);
                    poke(ctx, &e, 7);
                }
            });
        }
    }
    // lines: name and type and number tokens
    let names: Vec<&[u8]> = vec![b"", b"a", b".", b"..", b"/", b"//", b"/a", b"a/", b"a/b", b"a/..", b"\\x00", b"\\x2e", b"\\x2f", b"\\x", b"\\", b"\xff", b"\0", b"\r"];
    let types: Vec<&[u8]> = vec![b"f", b"x", b"s", b"", b"d", b"F", b"ff"];
    let nums: Vec<&[u8]> = vec![b"0", b"1", b"", b"-1", b"+1", b"18446744073709551615", b"18446744073709551616", b"99999999999999999999999", b"a", b"0x1", b"1.0", b"32768", b"32769", b"\xff"];
    ctx.chunk(16);
    for n in &names {
        for t in &types {
            for u in &nums {
                for hn in 0..3 {
                    ctx.fast(|ctx| {
                        for pre in [&b""[..], b"/\n", b"/a\n", b"/a\\x20b\n/\n", b"//\n", b"/..\n", b"/a/../\n"] {
                            let mut d = HEAD.to_vec();
                            d.extend_from_slice(pre);
                            d.extend_from_slice(b"  ");
                            d.extend_from_slice(n);
                            d.push(b' ');
                            d.extend_from_slice(t);
                            d.push(b' ');
                            d.extend_from_slice(u);
                            for _ in 0..hn {
                                d.push(b' ');
                                d.extend_from_slice(HX);
                            }
                            d.extend_from_slice(b"\n  b f 0\n");
                            d.extend_from_slice(HX);
                            d.push(b'\n');
                            poke(ctx, &d, 7);
                        }
                    });
                }
            }
        }
    }
    // headers
    let hp: [Vec<&[u8]>; 5] = [
        vec![b"DIRSIGNATURE.v1", b"DIRSIGNATURE.v2", b"DIRSIGNATURE", b"DIRSIGNATURE.", b".v1", b"", b"\xff", b"DIRSIGNATURE.v1.1"],
        vec![b" ", b"", b"  ", b"\t"],
        vec![b"sha512/256", b"blake2b/256", b"blake3/256", b"sha512", b"", b"/", b"\xff"],
        vec![b" block_size", b"", b" ", b" blocksize", b"block_size"],
        vec![b"=32768", b"=0", b"=", b"", b"=-1", b"=+1", b"=18446744073709551615", b"=18446744073709551616", b"=1 more=2", b"=1 \xff", b"==", b"=1\r"],
    ];
    for a in &hp[0] {
        for b in &hp[1] {
            for c in &hp[2] {
                ctx.fast(|ctx| {
                    for d in &hp[3] {
                        for e in &hp[4] {
                            let mut x: Vec<u8> = [&a[..], b, c, d, e].concat();
                            poke(ctx, &x, 1);
                            x.extend_from_slice(b"\n/\n  a f 5 ");
                            x.extend_from_slice(HX);
                            x.extend_from_slice(b"\n  b x 0\n");
                            x.extend_from_slice(HX);
                            x.push(b'\n');
                            poke(ctx, &x, 7);
                        }
                    }
                });
            }
        }
    }
    // numbers
    let mut ns: Vec<u128> = (0..=65u32).flat_map(|k| [(1u128 << k) - 1, 1 << k, (1 << k) + 1]).collect();
    ns.sort();
    ns.dedup();
    for &bs in &ns {
        ctx.fast(|ctx| {
            for &sz in &ns {
                let mut d = format!("DIRSIGNATURE.v1 blake3/256 block_size={}\n/\n  a f {}", bs, sz).into_bytes();
                for hn in 0..3 {
                    let mut e = d.clone();
                    e.extend_from_slice(b"\n");
                    e.extend_from_slice(HX);
                    e.push(b'\n');
                    poke(ctx, &e, if hn == 0 { 7 } else { 1 });
                    d.push(b' ');
                    d.extend_from_slice(HX);
                }
            }
        });
    }
    // mutations
    let bases: Vec<Vec<u8>> = vec![
        render(&[rdir(b"/"), rfile(b"/a", false, 5, 32768), rlink(b"/b", b"a"), rdir(b"/d"), rfile(b"/d/e", true, 0, 32768)], Ht::Sha, 32768),
        render(&[rdir(b"/"), rfile(b"/\\ ", true, 2, 1), rdir(b"/a b")], Ht::B2, 1),
        render(&[], Ht::B3, u64::MAX),
    ];
    for b in &bases {
        for i in 0..b.len() {
            ctx.fast(|ctx| {
                for v in 0..=255u8 {
                    let mut d = b.clone();
                    d[i] = v;
                    poke(ctx, &d, 7);
                    d.insert(i, b[i]);
                    poke(ctx, &d, if v < 3 { 7 } else { 2 });
                }
                let mut d = b.clone();
                d.remove(i);
                poke(ctx, &d, 7);
                poke(ctx, &b[..i], 7);
                poke(ctx, &b[i..], 7);
                for j in 0..b.len() {
                    // an inner stretch twice or not at all
                    if i < j {
                        let d = [&b[..j], &b[i..]].concat();
                        poke(ctx, &d, 2);
                        let d = [&b[..i], &b[j..]].concat();
                        poke(ctx, &d, 2);
                    }
                }
            });
        }
    }
    let short = render(&[rdir(b"/"), rfile(b"/a", false, 0, 1), rlink(b"/b", b"c")], Ht::Sha, 1);
    let n = short.len();
    for i in 0..n {
        ctx.fast(|ctx| {
            for j in i + 1..n {
                for a in [b'\n', b' ', b'/', b'.', 0, 0xff] {
                    for c in [b'\n', b' ', b'/', b'.', 0, 0xff] {
                        let mut d = short.clone();
                        d[i] = a;
                        d[j] = c;
                        poke(ctx, &d, 2);
                    }
                }
            }
            ctx.beat();
        });
    }
    // long things
    ctx.chunk(1);
    for len in [1usize << 10, 1 << 16, 1 << 20] {
        for unit in [&b"a"[..], b" ", b"/", b"\n", b"\\x41", b"/a", b"  a f 0\n", b"/\n", b"0"] {
            ctx.case(|| format!("{} x {}", len, brief(unit)), |ctx| {
                for pre in [&b""[..], b"/\n", b"/\n  ", b"/\n  a f ", b"/\n  a s "] {
                    let mut d = HEAD.to_vec();
                    d.extend_from_slice(pre);
                    for _ in 0..len / unit.len() {
                        d.extend_from_slice(unit);
                    }
                    poke(ctx, &d, 1);
                    d.push(b'\n');
                    poke(ctx, &d, 1);
                    ctx.beat();
                }
            });
        }
    }
}
