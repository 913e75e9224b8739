//! C06: get_hash returns the recorded checksum or an error.
use crate::cio::*;
use crate::common::*;
use crate::universe::{small_leaves, small_names};
use kit::ctx::{cut, violation, Ctx};
use kit::hash::{fnv, hex, Ht, ALL};
use kit::json::brief;
use kit::mc::explore::Bounds;
use kit::model::*;
use std::io::{Cursor, Read, Seek};

#[derive(Debug, PartialEq)]
enum Want {
    /// this value
    Must([u8; 32]),
    /// an error
    Err,
    /// an error or this value
    Either([u8; 32]),
}

/// Three-valued model of get_hash. `body_ok`: the lines between header and
/// footer are known to be those of an index.
fn want(d: &[u8], body_ok: bool) -> Want {
    let mut head = None;
    for h in ALL {
        let pre = format!("DIRSIGNATURE.v1 {}", h.name()).into_bytes();
        if d.starts_with(&pre) && !matches!(d.get(pre.len()), Some(c) if !c.is_ascii_whitespace()) {
            head = Some((h, pre.len()));
        }
    }
    // header fields may be separated by other white space: unspecified
    let loose = std::str::from_utf8(&d[..d.iter().position(|&b| b == b'\n').unwrap_or(d.len())])
        .map(|s| {
            let mut it = s.split_whitespace();
            it.next() == Some("DIRSIGNATURE.v1") && it.next().map_or(false, |x| ALL.iter().any(|h| h.name() == x))
        })
        .unwrap_or(false);
    if head.is_none() && !loose {
        return Want::Err;
    }
    if d.len() < 66 || d[d.len() - 1] != b'\n' || d[d.len() - 66] != b'\n' {
        return Want::Err;
    }
    let f = &d[d.len() - 65..d.len() - 1];
    if !f.iter().all(|c| c.is_ascii_hexdigit()) {
        return Want::Err;
    }
    let mut v = [0u8; 32];
    for i in 0..32 {
        v[i] = u8::from_str_radix(std::str::from_utf8(&f[2 * i..2 * i + 2]).unwrap(), 16).unwrap();
    }
    let lower = !f.iter().any(|c| c.is_ascii_uppercase());
    // strict header line
    let nl = d.iter().position(|&b| b == b'\n').unwrap();
    let strict = match head {
        Some((_, n)) => std::str::from_utf8(&d[n..nl]).ok().and_then(|s| s.strip_prefix(" block_size=")).map_or(false, |s| {
            !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) && !s.starts_with('0') && s.parse::<u64>().is_ok()
        }),
        None => false,
    };
    if strict && lower && body_ok {
        Want::Must(v)
    } else {
        Want::Either(v)
    }
}

fn judge<R: Read + Seek>(ctx: &mut Ctx, d: &[u8], r: &mut R, w: &Want, what: &str) {
    ctx.eval();
    let got = match cut(|| dir_signature::get_hash(r)) {
        Ok(g) => g,
        Err(p) => violation(&format!("{}: get_hash panics: {}: {}", what, p, brief(d))),
    };
    let okay = match (w, &got) {
        (Want::Must(v), Ok(g)) => g == v,
        (Want::Must(_), Err(_)) => false,
        (Want::Err, g) => g.is_err(),
        (Want::Either(v), Ok(g)) => g == v,
        (Want::Either(_), Err(_)) => true,
    };
    if !okay {
        violation(&format!(
            "{}: get_hash returns {} instead of {:?} for {}",
            what,
            match &got {
                Ok(g) => hex(g),
                Err(e) => format!("error {}", e),
            },
            match w {
                Want::Must(v) => hex(v),
                Want::Either(v) => format!("error or {}", hex(v)),
                Want::Err => "an error".into(),
            },
            brief(d)
        ));
    }
}

fn plain(ctx: &mut Ctx, d: &[u8], body_ok: bool, what: &str) {
    let w = want(d, body_ok);
    judge(ctx, d, &mut Cursor::new(d), &w, what);
    ctx.distinct(fnv(d));
}

/// A well-formed index of `lines` empty files, made up as it is read.
struct Virtual {
    head: Vec<u8>,
    lines: u64,
    foot: Vec<u8>,
    pos: u64,
    chunk: usize,
    read: u64,
}

const ROW: u64 = 27;

impl Virtual {
    fn len(&self) -> u64 {
        self.head.len() as u64 + self.lines * ROW + self.foot.len() as u64
    }
}

impl Read for Virtual {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.read > 1 << 28 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "reads too much"));
        }
        let n = buf.len().min(self.chunk).min(self.len().saturating_sub(self.pos) as usize);
        let h = self.head.len() as u64;
        for b in &mut buf[..n] {
            let p = self.pos;
            *b = if p < h {
                self.head[p as usize]
            } else if p < h + self.lines * ROW {
                let q = p - h;
                format!("  {:020} f 0\n", q / ROW).as_bytes()[(q % ROW) as usize]
            } else {
                self.foot[(p - h - self.lines * ROW) as usize]
            };
            self.pos += 1;
        }
        self.read += n as u64;
        Ok(n)
    }
}

impl Seek for Virtual {
    fn seek(&mut self, to: std::io::SeekFrom) -> std::io::Result<u64> {
        use std::io::SeekFrom::*;
        let p = match to {
            Start(n) => n as i128,
            End(n) => self.len() as i128 + n as i128,
            Current(n) => self.pos as i128 + n as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// Indexes of sizes that no test writes to a disk.
fn enormous(ctx: &mut Ctx) {
    for h in ALL {
        for e in [16u32, 20, 31, 32, 33, 40, 48, 62] {
            ctx.case(|| format!("{:?} indexes around 2^{} bytes", h, e), |ctx| {
                let mut head = header(h, 32768);
                head.extend_from_slice(b"/\n");
                let v = fake(e as u64);
                let foot = [hex(&v).as_bytes(), b"\n"].concat();
                let fit = ((1u64 << e) - 65) / ROW;
                for lines in fit - 6..fit + 6 {
                    for cut in [0usize, 1, 2, 64, 65] {
                        for chunk in [1usize, 64, usize::MAX] {
                            let mut r = Virtual { head: head.clone(), lines, foot: foot[..65 - cut].to_vec(), pos: 0, chunk, read: 0 };
                            let got = match cut_(&mut r) {
                                Some(g) => g,
                                None => continue,
                            };
                            match got {
                                Ok(g) if cut == 0 && g == v => {}
                                Err(_) if cut > 0 => {}
                                g => violation(&format!("get_hash gives {:?} for an index of {} bytes{}", g.map(|g| hex(&g)), r.len(), if cut > 0 { ", cut off" } else { "" })),
                            }
                            ctx.eval();
                        }
                    }
                    ctx.distinct(lines ^ h as u64);
                }
            });
        }
    }
}

/// `None` if the reader was asked for too much to go on.
fn cut_(r: &mut Virtual) -> Option<Result<Vec<u8>, String>> {
    let got = match cut(|| dir_signature::get_hash(r)) {
        Ok(g) => g.map_err(|e| e.to_string()),
        Err(p) => violation(&format!("get_hash panics: {}", p)),
    };
    if r.read > 1 << 28 {
        return None;
    }
    Some(got)
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation is one call of get_hash on one byte string through one reader behaviour, judged by a three-valued model (exact value required / error required / unspecified: error or the encoded value); distinct by byte string");
    ctx.text("bounds", "indexes of all trees of up to 3 nodes and longer ones (up to 8 MiB, and made up while they are read, around 2^16 to 2^62 bytes) x 3 hash types, block sizes {1,32768,2^64-1}; all prefixes, all suffixes; all 256 values at every byte of a small index, all single deletions, duplications and insertions; all pairs of mutations over {LF, space, g, G, F, NUL, /} in the last line; reader: every length at every read and interruptions, up to 2 (thorough: 3) deviations, all constant chunk sizes up to 70, persistent failure at every offset");
    let mut idx: Vec<(Ht, Vec<u8>)> = Vec::new();
    for &h in &ALL {
        for n in 0..=2 {
            for f in forests(n, &small_names()[..2], &small_leaves()) {
                idx.push((h, index(&Node::Dir(f), h)));
            }
        }
        idx.push((h, render(&[], h, 32768)));
        idx.push((h, render(&[rdir(b"/"), rfile(b"/a", false, 5, 1)], h, 1)));
        idx.push((h, render(&[rdir(b"/"), rfile(b"/a", true, 77, u64::MAX)], h, u64::MAX)));
        idx.push((h, index(&crate::c03::many(40), h)));
        // every value of the digest's first and last byte
        for b in 0..=255u8 {
            let mut t = header(h, 32768);
            t.extend_from_slice(b"/\n");
            let mut v = fake(b as u64);
            v[0] = b;
            v[31] = b.wrapping_mul(7);
            t.extend_from_slice(hex(&v).as_bytes());
            t.push(b'\n');
            idx.push((h, t));
        }
    }
    ctx.chunk(1);
    enormous(ctx);
    ctx.chunk(4);
    for (h, d) in &idx {
        ctx.case(|| format!("index of {} bytes {:?}: {}", d.len(), h, brief(d)), |ctx| {
            plain(ctx, d, true, "index");
            if !matches!(want(d, true), Want::Must(_)) {
                kit::ctx::broken("model rejects a valid index");
            }
            for cut in 0..d.len() {
                plain(ctx, &d[..cut], false, "prefix");
                if want(&d[..cut], false) != Want::Err {
                    kit::ctx::broken("model accepts a prefix");
                }
            }
            for from in 1..d.len() {
                plain(ctx, &d[from..], false, "suffix");
            }
            // readers
            let w = want(d, true);
            for chunk in (1..=70).chain([99, 100, 101]) {
                judge(ctx, d, &mut CRead::new(d, Menu::PLAIN).chunk(chunk), &w, &format!("reader delivering {} bytes at a time", chunk));
                judge(ctx, d, &mut CRead::new(d, Menu::PLAIN).chunk(chunk).intr(), &w, &format!("interrupted reader delivering {} bytes at a time", chunk));
            }
            judge(ctx, d, &mut CRead::new(d, Menu::PLAIN).intr(), &w, "interrupted reader");
            // a read error may only give an error
            for at in (0..d.len().min(70)).chain(d.len().saturating_sub(70)..d.len()) {
                let mut r = CRead::new(d, Menu::PLAIN).fail_at(at);
                let got = cut(|| dir_signature::get_hash(&mut r));
                match got {
                    Ok(Err(_)) => {}
                    Ok(Ok(v)) if r.failures == 0 && Want::Must(d32(&v)) == w => {}
                    x => violation(&format!("reader failing at {}: {:?}", at, x.map(|r| r.map_err(|e| e.to_string())))),
                }
                ctx.eval();
            }
            ctx.sample(|| format!("{} -> {:?}", brief(d), w));
        });
    }
    ctx.chunk(1);
    for (name, ents, bs) in crate::pgen::large(ctx.thorough()) {
        ctx.case(|| format!("large: {}", name), |ctx| {
            for &h in &ALL {
                let d = render(&ents, h, bs);
                plain(ctx, &d, true, "index");
                let w = want(&d, true);
                for chunk in [64, 65, 1000, 8192] {
                    judge(ctx, &d, &mut CRead::new(&d, Menu::PLAIN).chunk(chunk).intr(), &w, "chunks");
                }
                for cut in [1, 2, 63, 64, 65, 66, 67, 130] {
                    plain(ctx, &d[..d.len() - cut], false, "prefix");
                }
            }
        });
    }
    for &h in &ALL {
        let d = index(&Node::dir().with(b"a", Node::file(b"x")), h);
        for bound in [ctx.pick(2, 3)] {
            ctx.case(|| format!("reader choices {:?}", h), |ctx| {
                let w = want(&d, true);
                ctx.explore(Bounds::new(bound), |ctx| {
                    judge(ctx, &d, &mut CRead::new(&d, Menu::SPLIT), &w, "reader with short and interrupted reads");
                    let b: Vec<u8> = kit::mc::explore::current_choices().iter().map(|&c| c as u8).collect();
                    ctx.distinct(fnv(&b) ^ h as u64);
                });
            });
        }
        // mutations
        for pos in 0..d.len() {
            ctx.case(|| format!("mutations {:?} at {}", h, pos), |ctx| {
                let hd = d.iter().position(|&b| b == b'\n').unwrap();
                let in_body = pos > hd && pos < d.len() - 66;
                for v in 0..=255u8 {
                    let mut m = d.clone();
                    m[pos] = v;
                    let bo = !in_body && v != b'\n';
                    plain(ctx, &m, bo || m == d, "mutated index");
                    let mut m = d.clone();
                    m.insert(pos, v);
                    plain(ctx, &m, false, "index with an insertion");
                }
                let mut m = d.clone();
                m.remove(pos);
                plain(ctx, &m, false, "index with a deletion");
                let mut m = d.clone();
                let c = m[pos];
                m.insert(pos, c);
                plain(ctx, &m, false, "index with a duplication");
                // data after the footer
                let mut m = d.clone();
                m.extend_from_slice(&d[pos..]);
                plain(ctx, &m, false, "index with trailing data");
                // pairs in the last lines
                if pos + 68 >= d.len() {
                    for p2 in pos + 1..d.len() {
                        for a in *b"\n gGF\0/" {
                            for b in *b"\n gGF\0/" {
                                let mut m = d.clone();
                                m[pos] = a;
                                m[p2] = b;
                                plain(ctx, &m, false, "index with two mutations");
                            }
                        }
                    }
                }
            });
        }
    }
    // other headers, with a perfect footer
    ctx.case(|| "headers".into(), |ctx| {
        let foot = hex(&fake(5));
        for magic in ["DIRSIGNATURE", "dirsignature", "DIRSIGNATUR", "XDIRSIGNATURE", ""] {
            for ver in [".v1", ".v2", ".v10", ".v", "", ".v1.1", " .v1"] {
                for sep in [" ", "  ", "", "\t", "\n"] {
                    for hash in ["sha512/256", "blake2b/256", "blake3/256", "sha256", "", "sha512/2566", "blake2b/512", "SHA512/256", "blake3"] {
                        for rest in [" block_size=32768", "", " ", " block_size=1 extra", "                    ", " block_size="] {
                            let d = format!("{}{}{}{}{}\n/\n{}\n", magic, ver, sep, hash, rest, foot);
                            plain(ctx, d.as_bytes(), true, "header variants");
                        }
                    }
                }
            }
        }
    });
    // short strings
    ctx.case(|| "short strings".into(), |ctx| {
        let parts: [&[u8]; 9] = [b"", b"D", b"DIRSIGNATURE.v1 ", b"sha512/256 ", b"sha512/256", b"blake3/256 ", b"\n", b"\0", b"0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"];
        let mut lvl: Vec<Vec<u8>> = vec![vec![]];
        for _ in 0..ctx.pick(5, 6) {
            let mut next = Vec::new();
            for s in &lvl {
                for q in &parts[1..] {
                    let mut t = s.clone();
                    t.extend_from_slice(q);
                    plain(ctx, &t, false, "token string");
                    next.push(t);
                }
            }
            ctx.beat();
            lvl = next;
        }
    });
}
