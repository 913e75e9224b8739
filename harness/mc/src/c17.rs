//! C17: malformed lines are reported; C19: with the right line number.
use crate::c12::{key_of, merged};
use crate::common::*;
use crate::pgen::*;
use dir_signature::v1::Parser;
use kit::ctx::{cut, cut_ok, violation, Ctx};
use kit::hash::{fnv, Ht, ALL};
use kit::json::{brief, show};
use kit::model::*;
use std::io::Cursor;

const HX: &str = "8dd499a36d950b8732f85a3bffbc8d8bee4a0af391e8ee2bb0aa0c4553b6c0fc";

#[derive(Debug, PartialEq, Clone)]
pub enum Class {
    /// well formed: this entry
    Valid(REnt),
    /// must be reported
    Bad,
    /// spelled in a way that the format does not say anything about
    Unspec,
    /// would end the index
    Footer,
}

fn normal_dir(p: &[u8]) -> bool {
    p == b"/" || (p.starts_with(b"/") && p[1..].split(|&b| b == b'/').all(|c| !c.is_empty() && c != b"." && c != b".."))
}

fn hex64(x: &[u8]) -> bool {
    x.len() == 64 && x.iter().all(|c| c.is_ascii_hexdigit())
}

/// Three-valued grammar of one line (without newline).
pub fn class(l: &[u8], cur: &[u8], bs: u64) -> Class {
    if let Some(e) = decode_line(l, cur, bs) {
        return match &e.kind {
            RKind::Dir if normal_dir(&e.path) => Class::Valid(e),
            RKind::Dir => Class::Unspec,
            RKind::Link(t) if t.is_empty() => Class::Bad,
            _ => {
                let f = l[2..].split(|&b| b == b' ').next().unwrap();
                let mut k = REnt { path: e.path.clone(), kind: RKind::Dir };
                k.path = e.path[cur.len() + (cur != b"/") as usize..].to_vec();
                let _ = f;
                if k.path == b"." || k.path == b".." || k.path.contains(&b'/') {
                    Class::Unspec
                } else {
                    Class::Valid(e)
                }
            }
        };
    }
    let one = |l: &[u8]| -> bool {
        if l.starts_with(b"/") {
            return !l.contains(&b' ');
        }
        let f: Vec<&[u8]> = match l.strip_prefix(b"  ") {
            Some(r) => r.split(|&b| b == b' ').collect(),
            None => return false,
        };
        if f.len() < 3 || f[0].is_empty() {
            return false;
        }
        match f[1] {
            b"s" => f.len() == 3 && !f[2].is_empty(),
            b"f" | b"x" => {
                if f[2].is_empty() || !f[2].iter().all(|c| c.is_ascii_digit()) {
                    return false;
                }
                let s: u64 = match std::str::from_utf8(f[2]).unwrap().parse() {
                    Ok(s) => s,
                    Err(_) => return false,
                };
                let n = s / bs + (s % bs != 0) as u64;
                (f.len() - 3) as u64 == n && f[3..].iter().all(|x| hex64(x))
            }
            _ => false,
        }
    };
    let t = l.strip_suffix(b" ").unwrap_or(l);
    if one(l) || one(t) {
        return Class::Unspec;
    }
    if hex64(t) {
        return Class::Footer;
    }
    Class::Bad
}

/// Index with one foreign line before line `pos` of the body.
fn with_line(lines: &[Vec<u8>], h: Ht, bs: u64, pos: usize, x: &[u8]) -> Vec<u8> {
    let mut d = header(h, bs);
    for (i, l) in lines.iter().enumerate() {
        if i == pos {
            d.extend_from_slice(x);
            d.push(b'\n');
        }
        d.extend_from_slice(l);
        d.push(b'\n');
    }
    if pos >= lines.len() {
        d.extend_from_slice(x);
        d.push(b'\n');
    }
    d.extend_from_slice(HX.as_bytes());
    d.push(b'\n');
    d
}

fn judge_line(ctx: &mut Ctx, ents: &[REnt], lines: &[Vec<u8>], h: Ht, bs: u64, pos: usize, x: &[u8]) -> Class {
    let cur = ents[..pos].iter().rev().find(|e| e.is_dir()).map(|e| e.path.clone());
    let mut c = class(x, cur.as_deref().unwrap_or(b"/"), bs);
    if cur.is_none() && x.starts_with(b"  ") && c != Class::Bad {
        c = Class::Bad; // a file outside of any directory
    }
    let text = with_line(lines, h, bs, pos, x);
    let items = match parse_all(&text, lines.len() + 4) {
        Ok(i) => i,
        Err(e) => violation(&format!("cannot open: {}", e)),
    };
    ctx.eval();
    let bad = |i: usize, want: &str| -> ! {
        violation(&format!("with line {} ({:?}) at position {}: item {} is {:?}, expected {}", brief(x), c, pos, i, items.get(i), want))
    };
    // where the paths of file lines come from is unclear after such a line
    let mut loose = false;
    let mut over = false;
    let (mut i, mut k) = (0, 0);
    while k <= lines.len() {
        if k == pos {
            match (&c, items.get(i)) {
                (Class::Valid(e), Some(Item::Ent(g))) if e == g => {
                    // a well-formed directory line moves the lines after it
                    loose = e.is_dir();
                }
                (Class::Valid(e), _) => bad(i, &format!("{:?}", e)),
                (Class::Bad, Some(Item::Err(_))) => loose = x.starts_with(b"/"),
                (Class::Bad, _) => bad(i, "an error"),
                (Class::Unspec, Some(Item::Err(_))) | (Class::Unspec, Some(Item::Ent(_))) => loose = x.starts_with(b"/"),
                (Class::Unspec, _) => bad(i, "an entry or an error"),
                (Class::Footer, Some(Item::Err(_))) => over = true,
                (Class::Footer, _) => bad(i, "an error about data after the footer"),
            }
            i += 1;
        }
        if over {
            // nothing made up may follow
            for (j, g) in items.iter().enumerate().skip(i) {
                if let Item::Ent(g) = g {
                    if !ents[k..].contains(g) {
                        bad(j, "an error or the end");
                    }
                }
            }
            return c;
        }
        if k == lines.len() {
            break;
        }
        let e = &ents[k];
        if e.is_dir() {
            loose = false;
        }
        match items.get(i) {
            Some(Item::Ent(g)) if g == e => {}
            Some(Item::Ent(g)) if loose && g.kind == e.kind && g.path.rsplit(|&b| b == b'/').next() == e.path.rsplit(|&b| b == b'/').next() => {}
            Some(Item::Err(_)) if loose => {}
            _ => bad(i, &format!("{:?}", e)),
        }
        i += 1;
        k += 1;
    }
    if items.get(i) != Some(&Item::End) {
        bad(i, "the end");
    }
    // advance reports the line too, once, and then finds what it is asked for
    if c == Class::Bad && !x.starts_with(b"/") {
        for (n, t) in (pos..ents.len()).rev().take(2).enumerate() {
            let mut p = parser(&text);
            let mut it = p.iter();
            // once from the beginning, once from right before the line
            for _ in 0..if n == 0 { pos } else { 0 } {
                it.next();
            }
            let op = Op::adv(&ents[t]);
            let a = step(&mut it, &op);
            if !matches!(a, Item::Err(_)) {
                violation(&format!("{:?} over line {} at position {} gives {:?} instead of an error", op, brief(x), pos, a));
            }
            let b = step(&mut it, &op);
            if b != Item::Ent(ents[t].clone()) {
                violation(&format!("{:?} after the error about line {} at position {} gives {:?}", op, brief(x), pos, b));
            }
            ctx.eval();
        }
    }
    c
}

fn body(bs: u64) -> (Vec<REnt>, Vec<Vec<u8>>) {
    let ents = vec![
        rdir(b"/"),
        rfile(b"/a", false, 3 * bs.min(5), bs),
        rlink(b"/b", b"../t"),
        rdir(b"/d"),
        rfile(b"/d/e f", true, 0, bs),
        rdir(b"/d/g"),
    ];
    let lines = ents.iter().map(line).collect();
    (ents, lines)
}

pub fn run17(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation puts one line at one position into a well-formed index and reads it (with next, and for malformed lines with advance): the line's class under an independent three-valued grammar (valid / malformed / unspecified spelling) decides what must come out for it, all other lines must come out unchanged; headers and data after the footer likewise; distinct by line");
    ctx.text("bounds", "all lines indentation(5) x name(11) x separator(4) x type(7) x separator(3) x third field(16) x rest(17), all lines of up to 5 (thorough: 6) tokens of {space, /, a, f, s, 0, 1, digest, \\x20, .., TAB}; every one of 256 bytes at every byte of 8 valid lines, deletions, duplications, all pairs of lines swapped or dropped; at 4 positions; sizes of 0 to 4 blocks for block sizes around all powers of two, with the right number of hashes and others; 3 hash types, block sizes {1,2,32768,2^64-1}; headers over a token grammar; trailing data of 1 to 3 bytes of a 12-byte alphabet, lines and whole indexes");
    let combos = [(Ht::Sha, 2u64), (Ht::B3, 1)];
    let hx = HX.as_bytes();
    let up = HX.to_uppercase();
    let s = |v: &[&[u8]]| v.concat();
    let rests: Vec<Vec<u8>> = vec![
        vec![],
        s(&[b" ", hx]),
        s(&[b" ", hx, b" ", hx]),
        s(&[b" ", hx, b" ", hx, b" ", hx]),
        s(&[b" ", &hx[..63]]),
        s(&[b" ", hx, b"0"]),
        s(&[b" ", &hx[..62], b"g0"]),
        s(&[b" ", &hx[..62], b"0G"]),
        s(&[b" ", up.as_bytes()]),
        s(&[b"  ", hx]),
        s(&[b" ", hx, b"  ", hx]),
        s(&[b" ", hx, b" "]),
        s(&[b" ", hx, b" x"]),
        s(&[b" "]),
        s(&[b" x"]),
        s(&[b"\t", hx]),
        s(&[b" ", hx, b" ", &hx[..63], b"\xff"]),
    ];
    let indents: [&[u8]; 5] = [b"  ", b"", b" ", b"   ", b"\t "];
    let names: [&[u8]; 11] = [b"q", b"", b"q\\x20r", b"\\", b"\xff", b".", b"..", b"q/r", b"/q", b"\\x2e\\x2e", b"\\X41"];
    let seps: [&[u8]; 4] = [b" ", b"  ", b"", b"\t"];
    let types: [&[u8]; 7] = [b"f", b"x", b"s", b"", b"d", b"F", b"fx"];
    let thirds: [&[u8]; 16] = [b"0", b"1", b"2", b"3", b"4", b"+1", b"-1", b"", b"01", b"1x", b"0x1", b"18446744073709551615", b"18446744073709551616", b"t", b"a/b", b"\xff"];
    ctx.chunk(16);
    for ind in &indents {
        for n in &names {
            for (si, s1) in seps.iter().enumerate() {
                for t in &types {
                    for s2 in &seps[..3] {
                        // two odd separators at once are not more telling
                        if si > 0 && s2 != &seps[0] {
                            continue;
                        }
                        for u in &thirds {
                            ctx.fast(|ctx| {
                                for r in &rests {
                                    let l = [ind, n, s1, t, s2, u, &r[..]].concat();
                                    ctx.distinct(fnv(&l));
                                    for &(h, bs) in &combos[..if ind == &indents[0] { 2 } else { 1 }] {
                                        let (ents, lines) = body(bs);
                                        for pos in [0usize, 1, 4, 6] {
                                            let c = judge_line(ctx, &ents, &lines, h, bs, pos, &l);
                                            ctx.outcome(match c {
                                                Class::Valid(_) => 1,
                                                Class::Bad => 2,
                                                Class::Unspec => 3,
                                                Class::Footer => 4,
                                            });
                                        }
                                    }
                                }
                            });
                        }
                    }
                }
            }
        }
    }
    let toks: Vec<&[u8]> = vec![b" ", b"/", b"a", b"f", b"s", b"0", b"1", hx, b"\\x20", b"..", b"\t"];
    ctx.chunk(128);
    for k in 0..=ctx.pick(5, 6) {
        for i in 0..toks.len().pow(k as u32) {
            ctx.fast(|ctx| {
                let mut j = i;
                let mut l = Vec::new();
                for _ in 0..k {
                    l.extend_from_slice(toks[j % toks.len()]);
                    j /= toks.len();
                }
                let (ents, lines) = body(2);
                let ps: &[usize] = if k < 5 { &[0, 1, 4, 6] } else { &[4] };
                for &pos in ps {
                    judge_line(ctx, &ents, &lines, Ht::Sha, 2, pos, &l);
                    let mut m = b"  ".to_vec();
                    m.extend_from_slice(&l);
                    judge_line(ctx, &ents, &lines, Ht::Sha, 2, pos, &m);
                }
                ctx.distinct(fnv(&l));
            });
        }
    }
    // mutations of well-formed lines
    for bs in [1u64, 2, 32768, u64::MAX] {
        for h in ALL {
            if h != Ht::Sha && bs != 2 && !ctx.thorough() {
                continue;
            }
            let good: Vec<Vec<u8>> = vec![
                line(&rfile(b"/q", false, 0, bs)),
                line(&rfile(b"/q", true, bs.min(3), bs)),
                line(&rfile(b"/q r", false, 1, bs)),
                line(&rfile(b"/\\", false, if bs > 2 { bs } else { 2 * bs }, bs)),
                line(&rlink(b"/q", b"../r s")),
                line(&rdir(b"/q")),
                line(&rdir(b"/q/r s")),
                hx.to_vec(),
            ];
            for g in good {
                ctx.case(|| format!("mutations of {} block size {} {:?}", brief(&g), bs, h), |ctx| {
                    let (ents, lines) = body(bs);
                    let go = |ctx: &mut Ctx, l: &[u8]| {
                        if l.contains(&b'\n') {
                            return;
                        }
                        for pos in [1usize, 4, 6] {
                            judge_line(ctx, &ents, &lines, h, bs, pos, l);
                        }
                        ctx.distinct(fnv(l));
                    };
                    go(ctx, &g);
                    for i in 0..=g.len() {
                        for v in 0..=255u8 {
                            let mut l = g.clone();
                            l.insert(i, v);
                            go(ctx, &l);
                            if i < g.len() {
                                l.remove(i + 1);
                                go(ctx, &l);
                            }
                        }
                        if i < g.len() {
                            let mut l = g.clone();
                            l.remove(i);
                            go(ctx, &l);
                            go(ctx, &g[..i]);
                            go(ctx, &g[i..]);
                        }
                        ctx.beat();
                    }
                });
            }
        }
    }
    big_sizes(ctx);
    headers(ctx);
    trailing(ctx);
}

/// Sizes and block sizes around all powers of two: the number of hashes must
/// be exactly the rounded-up quotient.
fn big_sizes(ctx: &mut Ctx) {
    ctx.chunk(1);
    let th = ctx.thorough();
    for e in (0..64u32).filter(|&e| th || e < 8 || [15, 16, 24].contains(&e) || e > 29) {
        ctx.case(|| format!("sizes of few blocks around 2^{} bytes", e), |ctx| {
            for d in [-1i128, 0, 1, 3] {
                let bs = (1i128 << e) + d;
                if bs < 1 || bs > u64::MAX as i128 {
                    continue;
                }
                let (ents, lines) = body(bs as u64);
                for k in 0..4i128 {
                    for x in [-2i128, -1, 0, 1, 2, bs / 2] {
                        let size = k * bs + x;
                        if size < 0 || size > u64::MAX as i128 {
                            continue;
                        }
                        let right = (size + bs - 1) / bs;
                        for n in [right - 1, right, right + 1, 0] {
                            if n < 0 {
                                continue;
                            }
                            let mut l = format!("  q f {}", size).into_bytes();
                            for _ in 0..n {
                                l.push(b' ');
                                l.extend_from_slice(HX.as_bytes());
                            }
                            let c = judge_line(ctx, &ents, &lines, Ht::Sha, bs as u64, 4, &l);
                            if n == right && !matches!(c, Class::Valid(_)) || n != right && matches!(c, Class::Valid(_)) {
                                kit::ctx::broken("the grammar misjudges a file line");
                            }
                            ctx.distinct(fnv(&l));
                            // hash counts cut to 32 bits
                            if n == 0 && right > 0 {
                                let wrap = (1i128 << 32) * bs;
                                if size + wrap <= u64::MAX as i128 {
                                    let l = format!("  q f {}", wrap).into_bytes();
                                    judge_line(ctx, &ents, &lines, Ht::Sha, bs as u64, 4, &l);
                                }
                            }
                        }
                    }
                }
            }
        });
    }
}

fn headers(ctx: &mut Ctx) {
    let parts: [Vec<&[u8]>; 5] = [
        vec![b"DIRSIGNATURE.v1", b"DIRSIGNATURE.v2", b"DIRSIGNATURE.v", b"DIRSIGNATURE.v11", b"DIRSIGNATURE.v1.1", b"DIRSIGNATURE", b"DIRSIGNATUR.v1", b"dirsignature.v1", b"DIRSIGNATURE.V1", b"", b".v1", b"DIRSIGNATURE v1"],
        vec![b" ", b"", b"  ", b"\t"],
        vec![b"sha512/256", b"blake2b/256", b"blake3/256", b"sha512", b"sha256", b"SHA512/256", b"blake2b", b"", b"sha512/2566", b"sha512-256", b"sha512_256", b"blake2b-256", b"blake2b_256", b"Blake2b/256", b"blake3", b"blake3-256", b"blake2s/256", b"sha256/256", b"sha512/25", b"ha512/256", b"md5", b"sha512/256:", b"blake3/256,", b"\"sha512/256\"", b"=sha512/256", b"sha512/256=", b"sha512//256", b"/sha512/256", b"sha512/256/", b"blake3/256.", b"sha512/0256", b"blake3/512"],
        vec![b" ", b"", b"  "],
        vec![b"block_size=32768", b"block_size=1", b"block_size=18446744073709551615", b"block_size=18446744073709551616", b"block_size=0", b"block_size=", b"block_size", b"blocksize=1", b"BLOCK_SIZE=1", b"block_size=-1", b"block_size=+1", b"block_size=1x", b"block_size=0x10", b"block_size=1=2", b"", b"block_size=1 other=2", b"other=2 block_size=1", b"=1", b"block_size = 1", b"xblock_size=1", b"block_size=1\xff", b"block_size=00", b"block_size=01", b"block_size=1 "],
    ];
    ctx.chunk(4);
    for a in &parts[0] {
        for b in &parts[1] {
            for c in &parts[2] {
                ctx.fast(|ctx| {
                    for d in &parts[3] {
                        for e in &parts[4] {
                            let l = [&a[..], b, c, d, e].concat();
                            let mut want = None;
                            let mut must_fail = true;
                            for h in ALL {
                                for (bs, txt) in [(32768u64, "32768"), (1, "1"), (u64::MAX, "18446744073709551615")] {
                                    let strict = format!("DIRSIGNATURE.v1 {} block_size={}", h.name(), txt).into_bytes();
                                    if l == strict || l == [&strict[..], b" other=2"].concat() {
                                        want = Some((h, bs));
                                        must_fail = false;
                                    }
                                }
                            }
                            // other white space or spelling of the number: unspecified
                            if want.is_none() {
                                if let Ok(t) = std::str::from_utf8(&l) {
                                    let f: Vec<&str> = t.split_whitespace().collect();
                                    if f.len() >= 3 && f[0] == "DIRSIGNATURE.v1" && ALL.iter().any(|h| h.name() == f[1]) {
                                        if let Some(n) = f[2].strip_prefix("block_size=") {
                                            if !n.is_empty() && n.bytes().all(|c| c.is_ascii_digit()) && n.parse::<u64>().map_or(false, |n| n > 0) {
                                                must_fail = false;
                                            }
                                        }
                                    }
                                }
                            }
                            let mut text = l.clone();
                            text.extend_from_slice(b"\n/\n");
                            text.extend_from_slice(HX.as_bytes());
                            text.push(b'\n');
                            let r = match cut(|| Parser::new(Cursor::new(&text[..])).map(|p| (p.get_header().get_version().to_string(), p.get_header().get_hash_type(), p.get_header().get_block_size()))) {
                                Ok(r) => r.map_err(|e| e.to_string()),
                                Err(p) => violation(&format!("panic at header {}: {}", show(&l), p)),
                            };
                            let okay = match (&r, want) {
                                (Ok((v, h, b)), Some((wh, wb))) => v == "v1" && *h == ht(wh) && *b == wb,
                                (Err(_), Some(_)) => false,
                                (Ok(_), None) => !must_fail,
                                (Err(m), None) => m.contains("line 1:"),
                            };
                            if !okay {
                                violation(&format!("header {} gives {:?}", show(&l), r));
                            }
                            ctx.eval();
                            ctx.distinct(fnv(&l));
                        }
                    }
                });
            }
        }
    }
}

fn trailing(ctx: &mut Ctx) {
    let al: Vec<u8> = vec![b'\n', b' ', b'/', b'a', b'0', b'\\', 0, 0xff, b'\t', b'\r', b'.', b'x'];
    let mut tails: Vec<Vec<u8>> = Vec::new();
    for k in 1..=3 {
        for w in words(al.len(), k) {
            tails.push(w.iter().map(|&i| al[i]).collect());
        }
    }
    tails.push([HX.as_bytes(), b"\n"].concat());
    tails.push(b" /phantom\n".to_vec());
    tails.push(b"   a f 0\n".to_vec());
    tails.push(b"  a f 0\n".to_vec());
    tails.push(b"/d\n".to_vec());
    tails.push(b"//d\n  x s y\n".to_vec());
    ctx.chunk(1);
    for bits in ctx.pick(vec![16u32, 20, 21], vec![16, 20, 21, 22, 24, 25]) {
        ctx.case(|| format!("malformed lines around line 2^{}", bits), |ctx| {
            let mut d = header(Ht::Sha, 32768);
            d.extend_from_slice(b"/\n");
            let n = 1usize << bits;
            let bad = [7, n - 2, n - 1, n, n + 1, n + 2, n + 7];
            for no in 3..n + 20 {
                d.extend_from_slice(if bad.contains(&no) { b"  a d 0\n" } else { b"  a f 0\n" });
            }
            d.extend_from_slice(HX.as_bytes());
            d.push(b'\n');
            let mut p = parser(&d);
            let mut got = Vec::new();
            let mut ok = 0usize;
            for x in cut_ok(|| p.iter()) {
                match x {
                    Ok(_) => ok += 1,
                    Err(e) => got.push(line_no(&e.to_string())),
                }
                if got.len() > 20 {
                    break;
                }
            }
            if got != bad.iter().map(|&n| Some(n)).collect::<Vec<_>>() || ok != n + 18 - bad.len() {
                violation(&format!("malformed lines at {:?} of many: errors are about lines {:?}, and there are {} entries", bad, got, ok));
            }
            ctx.eval();
            ctx.distinct(bits as u64);
            ctx.beat();
        });
    }
    for (name, ents, bs) in large(ctx.thorough()) {
        ctx.case(|| format!("large: {}", name), |ctx| {
            let lines: Vec<Vec<u8>> = ents.iter().map(line).collect();
            let n = lines.len();
            let long = (0..n).max_by_key(|&i| lines[i].len()).unwrap();
            let bad: Vec<Vec<u8>> = vec![
                b"  q d 1".to_vec(),
                [&lines[long][..], b" x"].concat(),
                lines[long][..lines[long].len() - 1].to_vec(),
                [&lines[long][..], b" ", HX.as_bytes()].concat(),
                lines[long][1..].to_vec(),
                [b" ", &lines[long][..]].concat(),
            ];
            for (k, b) in bad.iter().enumerate() {
                // cutting or extending a directory or link line gives another
                // such line
                if k != 0 && !matches!(ents[long].kind, RKind::File { .. }) && k < 4 || ents[long].is_dir() && k != 0 {
                    continue;
                }
                for at in [1, long, long + 1, n] {
                    let mut d = header(Ht::Sha, bs);
                    let mut want = Vec::new();
                    for i in 0..=n {
                        if i == at {
                            d.extend_from_slice(b);
                            d.push(b'\n');
                            want.push(None);
                        }
                        if i < n {
                            d.extend_from_slice(&lines[i]);
                            d.push(b'\n');
                            want.push(Some(&ents[i]));
                        }
                    }
                    d.extend_from_slice(HX.as_bytes());
                    d.push(b'\n');
                    let v = parse_all(&d, n + 12).unwrap_or_else(|e| violation(&e));
                    for (i, w) in want.iter().enumerate() {
                        match (w, v.get(i)) {
                            (None, Some(Item::Err(_))) => {}
                            (Some(e), Some(Item::Ent(g))) if g == *e => {}
                            (w, g) => violation(&format!("{}, malformed line {} at {}: item {} is {} instead of {}", name, k, at, i, short(g), short(*w))),
                        }
                    }
                    if v.get(want.len()) != Some(&Item::End) {
                        violation(&format!("{}, malformed line {} at {}: no end", name, k, at));
                    }
                    ctx.eval();
                }
                ctx.beat();
            }
        });
    }
    let sh = shapes();
    for (name, ents) in &sh {
        for h in ALL {
            ctx.case(|| format!("data after the footer of {} {:?}", name, h), |ctx| {
                let text = render(ents, h, 32768);
                let mut all = tails.clone();
                all.push(text.clone());
                for t in &all {
                    let d = [&text[..], t].concat();
                    let v = parse_all(&d, ents.len() + 12).unwrap_or_else(|e| violation(&e));
                    for (i, e) in ents.iter().enumerate() {
                        if v.get(i) != Some(&Item::Ent(e.clone())) {
                            violation(&format!("with {} after the footer, item {} is {:?} instead of {:?}", brief(t), i, v.get(i), e));
                        }
                    }
                    if !matches!(v.get(ents.len()), Some(Item::Err(_))) {
                        violation(&format!("{} after the footer gives {:?} instead of an error", brief(t), v.get(ents.len())));
                    }
                    for x in &v[ents.len()..] {
                        if let Item::Ent(e) = x {
                            violation(&format!("{} after the footer turns up as {:?}", brief(t), e));
                        }
                    }
                    // advance
                    let mut p = parser(&d);
                    let mut it = p.iter();
                    let op = Op::Adv(true, b"/\xff\xff\xff".to_vec());
                    let a = step(&mut it, &op);
                    if !matches!(a, Item::Err(_)) {
                        violation(&format!("advancing past {} after the footer gives {:?}", brief(t), a));
                    }
                    for _ in 0..4 {
                        if let Item::Ent(e) = step(&mut it, &Op::Next) {
                            violation(&format!("after that, next gives {:?}", e));
                        }
                        if let Item::Ent(e) = step(&mut it, &op) {
                            violation(&format!("after that, advance gives {:?}", e));
                        }
                    }
                    ctx.eval();
                    ctx.distinct(fnv(&d));
                }
            });
        }
    }
}

fn line_no(e: &str) -> Option<usize> {
    let i = e.find("line ")? + 5;
    let d: String = e[i..].chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}

pub fn run19(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation reads an index with one to three malformed lines by one sequence of next/advance calls (or merged with a good index), then by next to the end, and compares the line number in each error with the line's real number; distinct by (index, sequence)");
    ctx.text("bounds", "7 shapes x every position x 6 kinds of malformed lines x all sequences of up to 2 (thorough: 3) operations (next, advance to every entry and several absent kinds); all pairs and triples of positions with all sequences of up to 1 operation; bad footers and data after the footer; bad headers; large indexes as in C08 and of 2^16 to 2^21 (thorough: 2^25) lines; merged at both positions with advance to every entry first");
    let bads: Vec<(&str, Vec<u8>)> = vec![
        ("type", b"  q d 1".to_vec()),
        ("size", b"  q f x".to_vec()),
        ("few hashes", b"  q f 1".to_vec()),
        ("empty", b"".to_vec()),
        ("fields", b"  q s t u".to_vec()),
        ("hex", [b"  q f 1 ", &HX.as_bytes()[..63], b"g"].concat()),
    ];
    let build = |lines: &[Vec<u8>], at: &[(usize, usize)]| -> (Vec<u8>, Vec<usize>) {
        // (position, kind) sorted by position
        let mut d = header(Ht::Sha, 32768);
        let mut nos = vec![];
        let mut no = 2;
        for i in 0..=lines.len() {
            for (p, k) in at {
                if *p == i {
                    d.extend_from_slice(&bads[*k].1);
                    d.push(b'\n');
                    nos.push(no);
                    no += 1;
                }
            }
            if i < lines.len() {
                d.extend_from_slice(&lines[i]);
                d.push(b'\n');
                no += 1;
            }
        }
        d.extend_from_slice(HX.as_bytes());
        d.push(b'\n');
        (d, nos)
    };
    fn go(ctx: &mut Ctx, text: &[u8], nos: &[usize], ops: &[&Op]) {
        let mut p = parser(text);
        let mut it = cut_ok(|| p.iter());
        let mut left = nos.iter();
        let nx = Op::Next;
        let total = ops.len() + text.iter().filter(|&&b| b == b'\n').count() + 2;
        for i in 0..total {
            let op = if i < ops.len() { ops[i] } else { &nx };
            match step(&mut it, op) {
                Item::Err(e) => match left.next() {
                    Some(&n) if line_no(&e) == Some(n) => {}
                    n => violation(&format!("operations {:?}: error {:?} is about line {:?} of {}", ops, e, n, brief(text))),
                },
                Item::End if matches!(op, Op::Next) => break,
                _ => {}
            }
        }
        if let Some(n) = left.next() {
            violation(&format!("operations {:?}: no error about line {} of {}", ops, n, brief(text)));
        }
        ctx.eval();
        ctx.distinct(fnv(text) ^ fnv(format!("{:?}", ops).as_bytes()));
    }
    ctx.case(|| "headers".into(), |ctx| {
        for hd in ["", "\n", "DIRSIGNATURE.v1 sha512/256 block_size=32768", "DIRSIGNATURE.v2 sha512/256 block_size=32768\n", "DIRSIGNATURE\n", "x\n", "DIRSIGNATURE.v1\n", "DIRSIGNATURE.v1 md5 block_size=1\n", "DIRSIGNATURE.v1 sha512/256\n", "DIRSIGNATURE.v1 sha512/256 block_size=0\n", "DIRSIGNATURE.v1 sha512/256 block_size=x\n", "DIRSIGNATURE.v1 sha512/256 size=1\n"] {
            for rest in ["", "/\n", "/\n  a f 0\n\n\n"] {
                if !hd.ends_with('\n') && !rest.is_empty() {
                    continue;
                }
                let d = [hd, rest].concat();
                match cut(|| dir_signature::v1::Parser::new(std::io::Cursor::new(d.as_bytes())).map(|_| ()).map_err(|e| e.to_string())) {
                    Ok(Err(e)) if line_no(&e) == Some(1) => {}
                    r => violation(&format!("opening {} gives {:?} instead of an error about line 1", brief(d.as_bytes()), r)),
                }
                ctx.eval();
            }
        }
    });
    for (name, ents, bs) in large(ctx.thorough()) {
        ctx.case(|| format!("large: {}", name), |ctx| {
            let lines: Vec<Vec<u8>> = ents.iter().map(line).collect();
            let n = lines.len();
            for at in [vec![n], vec![n - 1, n], vec![1, n / 2, n]] {
                let mut d = header(Ht::Sha, bs);
                let mut nos = vec![];
                let mut no = 2;
                for i in 0..=n {
                    if at.contains(&i) {
                        d.extend_from_slice(b"  q d 1\n");
                        nos.push(no);
                        no += 1;
                    }
                    if i < n {
                        d.extend_from_slice(&lines[i]);
                        d.push(b'\n');
                        no += 1;
                    }
                }
                d.extend_from_slice(HX.as_bytes());
                d.push(b'\n');
                go(ctx, &d, &nos, &[]);
                for o in [Op::adv(&ents[n / 2]), Op::adv(&ents[n - 1]), Op::Adv(true, b"/\xff\xff\xff".to_vec())] {
                    go(ctx, &d, &nos, &[&o, &o, &o, &o]);
                }
                ctx.beat();
            }
        });
    }
    for (name, ents) in shapes() {
        let lines: Vec<Vec<u8>> = ents.iter().map(line).collect();
        let mut ops = vec![Op::Next];
        ops.extend(ents.iter().map(Op::adv));
        ops.push(Op::Adv(true, b"/\xff\xff".to_vec()));
        let mut ab = absent(&ents);
        ab.truncate(5);
        ops.extend(ab);
        for pos in 0..=lines.len() {
            ctx.case(|| format!("{}: malformed line at {}", name, pos), |ctx| {
                for k in 0..bads.len() {
                    let (text, nos) = build(&lines, &[(pos, k)]);
                    for d in 0..=ctx.pick(2, 3) {
                        if d == 3 && k > 0 {
                            continue;
                        }
                        for w in words(ops.len(), d) {
                            let o: Vec<&Op> = w.iter().map(|&i| &ops[i]).collect();
                            go(ctx, &text, &nos, &o);
                        }
                    }
                    ctx.beat();
                }
            });
            ctx.case(|| format!("{}: malformed lines at {} and others", name, pos), |ctx| {
                for p2 in pos..=lines.len() {
                    for p3 in p2..=lines.len() + 1 {
                        let mut at = vec![(pos, 0), (p2, 3)];
                        if p3 <= lines.len() {
                            at.push((p3, 2));
                        }
                        let (text, nos) = build(&lines, &at);
                        go(ctx, &text, &nos, &[]);
                        for o in &ops {
                            go(ctx, &text, &nos, &[o]);
                        }
                    }
                }
            });
            ctx.case(|| format!("{}: merged, malformed line at {}", name, pos), |ctx| {
                let (bad, nos) = build(&lines, &[(pos, 1), (pos, 3)]);
                for (_, g) in shapes() {
                    let good = render(&g, Ht::Sha, 32768);
                    for which in 0..2 {
                        for adv in 0..=g.len() {
                            let texts: [&[u8]; 2] = if which == 0 { [&bad, &good] } else { [&good, &bad] };
                            let mut m = merged(&texts);
                            let mut it = m.iter();
                            let mut left = nos.iter();
                            for call in 0..lines.len() + g.len() + 6 {
                                let grp = cut_ok(|| if call == 0 && adv < g.len() { it.advance(&ek(&g[adv])) } else { it.next().unwrap_or_default() });
                                for (k, r) in grp {
                                    if let Item::Err(e) = item(Some(r)) {
                                        if *k != key_of(which) {
                                            violation(&format!("error under the wrong key: {}", e));
                                        }
                                        match left.next() {
                                            Some(&n) if line_no(&e) == Some(n) => {}
                                            n => violation(&format!("merged (advance {} first): error {:?} is about line {:?} of {}", adv, e, n, brief(&bad))),
                                        }
                                    }
                                }
                            }
                            if let Some(n) = left.next() {
                                violation(&format!("merged: no error about line {} of {}", n, brief(&bad)));
                            }
                            ctx.eval();
                        }
                    }
                }
            });
        }
        // the footer itself
        ctx.case(|| format!("{}: bad last line", name), |ctx| {
            let n = lines.len() + 2;
            for foot in [&b""[..], b"\n", b"zz\n", &HX.as_bytes()[..63], HX.as_bytes(), b"  \n", b"/ x\n"] {
                let mut text = header(Ht::Sha, 32768);
                for l in &lines {
                    text.extend_from_slice(l);
                    text.push(b'\n');
                }
                text.extend_from_slice(foot);
                for d in 0..=2 {
                    for w in words(ops.len(), d) {
                        let o: Vec<&Op> = w.iter().map(|&i| &ops[i]).collect();
                        let mut p = parser(&text);
                        let mut it = p.iter();
                        for i in 0..o.len() + lines.len() + 2 {
                            if let Item::Err(e) = step(&mut it, o.get(i).copied().unwrap_or(&Op::Next)) {
                                // the first error is about that line; the
                                // end of the data is the line after it
                                if line_no(&e) != Some(n) {
                                    violation(&format!("operations {:?}: error {:?} should be about line {} of {}", o, e, n, brief(&text)));
                                }
                                break;
                            }
                        }
                        ctx.eval();
                    }
                }
            }
        });
    }
}
