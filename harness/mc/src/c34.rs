//! C34: indexes are produced and checked without holding them, or the files, in memory.
use crate::alloc::measure_all;
use crate::c33::feed;
use crate::common::*;
use dir_signature::v1::{self, merge::MergedSignatures, Emitter, EntryKind, Hashes, Parser};
use kit::ctx::{cut, deadlock, violation, Ctx};
use kit::hash::{Ht, ALL};
use kit::interpose::{take_stderr, with_env, NoEnv};
use kit::mc::explore::Bounds;
use kit::mc::sched;
use kit::model::*;
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};
use std::path::Path;

const K: u64 = 1024;

/// Counts what it gets.
struct Sink(u64);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn within(ctx: &mut Ctx, what: &str, peak: u64, limit: u64) {
    ctx.eval();
    ctx.max("max_percent_of_the_limit", peak * 100 / limit);
    ctx.max("max_bytes_held", peak);
    if std::env::var_os("MC_TRACE").is_some() {
        eprintln!("{}: {} of {}", what, peak, limit);
    }
    if peak > limit {
        violation(&format!("{}: {} bytes of memory are held at the same time, more than {}", what, peak, limit));
    }
}

// ---- scans

/// Scans and returns the bytes held at most and those written.
fn scan_held(ctx: &mut Ctx, root: &Path, o: &Opts, sc: Option<sched::Config>, what: &str) -> (u64, u64) {
    let mut res = (0, 0);
    ctx.explore(Bounds::new(0), |_| {
        let c = config(&[(root, "/")], o);
        let mut sink = Sink(0);
        let (r, peak) = measure_all(|| {
            with_env(&mut NoEnv, || match sc {
                Some(sc) => sched::run(sc, deadlock, || cut(|| v1::scan(&c, &mut sink))).0,
                None => cut(|| v1::scan(&c, &mut sink)),
            })
        });
        take_stderr();
        match r {
            Ok(Ok(())) => {}
            r => violation(&format!("{}: {:?}", what, r)),
        }
        res = (res.0.max(peak), sink.0);
    });
    res
}

fn schedules() -> Vec<(Option<sched::Config>, usize, Option<usize>)> {
    let coarse = sched::Config { task_syscalls: false, free_start: false, block_cost: 1, ..sched::Config::default() };
    let mut v = vec![(None, 0, None)];
    for (t, q) in [(2usize, Some(0usize)), (2, Some(4)), (3, Some(16)), (2, None)] {
        for stall in [0usize, 1, usize::MAX] {
            v.push((Some(sched::Config { stall, ..coarse }), t, q));
        }
    }
    v
}

fn sparse(p: &Path, n: u64) {
    std::fs::File::create(p).and_then(|f| f.set_len(n)).unwrap();
}

fn scans(ctx: &mut Ctx) {
    // one file, sizes
    for h in ALL {
        for size in ctx.pick(vec![0u64, 1, BS as u64, 1 << 20, 1 << 24, 1 << 27], vec![0, 1, BS as u64, 1 << 20, 1 << 24, 1 << 27, 1 << 31]) {
            for (sc, t, q) in schedules() {
                if t > 0 && (q != Some(4) || h != Ht::Sha) {
                    continue;
                }
                let what = format!("scan of a file of {} bytes, {:?}, {} threads, {:?}", size, h, t, sc.map(|s| s.stall));
                ctx.case(|| what.clone(), |ctx| {
                    let root = ctx.fresh("t");
                    std::fs::create_dir(&root).unwrap();
                    sparse(&root.join("a"), size);
                    sparse(&root.join("b"), size / 2);
                    let mut o = Opts::new(h).threads(t);
                    o.queue = q;
                    let (peak, _) = scan_held(ctx, &root, &o, sc, &what);
                    let hashes = size / BS as u64 + 2;
                    // their text is collected by hashing threads
                    within(ctx, &what, peak, 384 * K + 4 * BS as u64 + 200 * hashes);
                    ctx.distinct(size ^ (h as u64) << 50);
                    wipe(&root);
                });
            }
        }
    }
    // many files, several megabytes together
    for (n, size) in ctx.pick(vec![(2000usize, 20_000u64), (250, 1 << 22)], vec![(2000, 20_000), (250, 1 << 22), (20_000, 5000), (1000, 1 << 23)]) {
        for (sc, t, q) in schedules() {
            let what = format!("scan of {} files of {} bytes, {} threads, queue {:?}, {:?}", n, size, t, q, sc.map(|s| s.stall));
            ctx.case(|| what.clone(), |ctx| {
                let root = ctx.fresh("t");
                std::fs::create_dir(&root).unwrap();
                for i in 0..n {
                    sparse(&root.join(format!("f{}", i)), size);
                }
                let mut o = Opts::new(Ht::Sha).threads(t);
                o.queue = q;
                let (peak, _) = scan_held(ctx, &root, &o, sc, &what);
                let queue = q.unwrap_or(16 * t) as u64 + t as u64 + 2;
                let text = 65 * (size / BS as u64 + 1);
                within(ctx, &what, peak, 384 * K + 4 * BS as u64 + queue * (4 * text + 2000) + 1000 * n as u64);
                ctx.distinct(n as u64 ^ size << 20);
                wipe(&root);
            });
        }
    }
    // an index that is much longer than any directory
    for (n, m, len) in ctx.pick(vec![(60usize, 60usize, 200usize), (100, 100, 100)], vec![(60, 60, 200), (100, 100, 100), (200, 200, 240), (10, 2000, 250), (2000, 10, 250)]) {
        for kind in 0..8 {
            let (kind, progress) = (kind % 4, kind >= 4);
            for (sc, t, q) in schedules() {
                if t > 0 && (q != Some(4) || kind < 2 || progress && sc.map(|s| s.stall) != Some(1)) {
                    continue;
                }
                let what = format!("scan of {} directories of {} entries of kind {} with long names, {} threads, {:?}{}", n, m, kind, t, sc.map(|s| s.stall), if progress { ", with progress" } else { "" });
                ctx.case(|| what.clone(), |ctx| {
                    let root = ctx.fresh("t");
                    std::fs::create_dir(&root).unwrap();
                    let pad = "n".repeat(len);
                    for i in 0..n {
                        let d = root.join(format!("d{}", i));
                        std::fs::create_dir(&d).unwrap();
                        for j in 0..m {
                            let p = d.join(format!("{}{}", pad, j));
                            match kind {
                                0 => drop(std::fs::File::create(p).unwrap()),
                                1 => std::fs::write(p, b"x").unwrap(),
                                    2 => std::os::unix::fs::symlink(pad.repeat(2000 / len), p).unwrap(),
                                _ => std::fs::create_dir(p).unwrap(),
                            }
                        }
                    }
                    let mut o = Opts::new(Ht::B2).threads(t);
                    o.queue = q;
                    o.progress = progress;
                    let (peak, written) = scan_held(ctx, &root, &o, sc, &what);
                    // names of a directory may be there several times
                    let mut limit = 256 * K + (n + 2 * m) as u64 * (1000 + 2 * len as u64);
                    if t > 0 {
                        // links in the queue, and records of the scheduler
                        limit += 4 * 2000 * 8 + 500 * (n * m) as u64;
                    }
                    within(ctx, &what, peak, limit);
                    ctx.max("longest_index_per_limit_percent", written * 100 / limit);
                    ctx.distinct((n * m) as u64 ^ (kind as u64) << 40 ^ (progress as u64) << 50);
                    wipe(&root);
                });
            }
        }
    }
    for depth in ctx.pick(vec![400usize], vec![400, 2000]) {
        let what = format!("scan of a chain of {} directories", depth);
        ctx.case(|| what.clone(), |ctx| {
            let mut t = Node::dir();
            for _ in 0..depth {
                t = Node::dir().with(b"nn", t).with(b"f", Node::file(b"1"));
            }
            let root = ctx.fresh("t");
            make(&t, &root);
            let (peak, _) = scan_held(ctx, &root, &Opts::new(Ht::Sha), None, &what);
            // the paths of all directories on the way may be there
            let d = depth as u64;
            within(ctx, &what, peak, 256 * K + d * 1500 + d * d * 3 * 2);
            wipe(&root);
        });
    }
}

// ---- readers of indexes

/// Lines made when they are asked for.
struct Lines<F: FnMut(u64) -> Option<Vec<u8>>> {
    make: F,
    next: u64,
    cur: Vec<u8>,
    at: usize,
}
impl<F: FnMut(u64) -> Option<Vec<u8>>> Lines<F> {
    fn new(make: F) -> Self {
        Lines { make, next: 0, cur: vec![], at: 0 }
    }
}
impl<F: FnMut(u64) -> Option<Vec<u8>>> BufRead for Lines<F> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.at == self.cur.len() {
            self.at = 0;
            self.cur = (self.make)(self.next).unwrap_or_default();
            self.next += 1;
        }
        Ok(&self.cur[self.at..])
    }
    fn consume(&mut self, n: usize) {
        self.at += n;
    }
}
impl<F: FnMut(u64) -> Option<Vec<u8>>> Read for Lines<F> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = {
            let s = self.fill_buf()?;
            let n = s.len().min(b.len());
            b[..n].copy_from_slice(&s[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}

const KINDS: [&str; 6] = ["files", "links", "directories", "files of 40 blocks", "directories of one file", "malformed lines"];

/// Index of that many lines, sorted.
fn long_index(kind: usize, n: u64, off: u64) -> impl FnMut(u64) -> Option<Vec<u8>> {
    let hx = "0123456789abcdef".repeat(4);
    let pad = "p".repeat(120);
    let many = format!(" {}", hx).repeat(40);
    move |i| {
        Some(match i {
            0 => b"DIRSIGNATURE.v1 sha512/256 block_size=32768\n".to_vec(),
            1 => b"/\n".to_vec(),
            i if i < n + 2 => {
                let i = 2 * i + off;
                match kind {
                    0 => format!("  {}{:09} f 5 {}\n", pad, i, hx),
                    1 => format!("  {}{:09} s {}\n", pad, i, pad),
                    2 => format!("/{}{:09}\n", pad, i),
                    3 => format!("  {}{:09} x {}{}\n", pad, i, 40 * BS, many),
                    4 if i / 2 % 2 == 0 => format!("/{}{:09}\n", pad, i / 4),
                    4 => format!("  f f 5 {}\n", hx),
                    _ => format!("  {}{:09} q 5 {}\n", pad, i, hx),
                }
                .into_bytes()
            }
            i if i == n + 2 => format!("{}\n", hx).into_bytes(),
            _ => return None,
        })
    }
}
const ROW: u64 = 65 * 40 + 300;

fn readers(ctx: &mut Ctx) {
    let sizes = ctx.pick(vec![1u64, 100, 3000, 60_000], vec![1, 100, 3000, 60_000, 4_000_000]);
    for kind in 0..KINDS.len() {
        for &n in &sizes {
            for way in 0..4 {
                let what = format!("{} index of {} {}", ["reading an", "advancing to the end of an", "advancing to every entry of an", "reading after advancing to the middle of an"][way], n, KINDS[kind]);
                ctx.case(|| what.clone(), |ctx| {
                    let mut count = 0u64;
                    let (r, peak) = measure_all(|| {
                        cut(|| {
                            let mut p = Parser::new(Lines::new(long_index(kind, n, 0))).map_err(|e| e.to_string())?;
                            let mut it = p.iter();
                            let pad = "p".repeat(120);
                            let name = |i: u64| match kind {
                                2 => format!("/{}{:09}", pad, 2 * i + 4),
                                4 => format!("/{}{:09}", pad, i + 1),
                                _ => format!("/{}{:09}", pad, 2 * i + 4),
                            };
                            let dirs = kind == 2 || kind == 4;
                            if way == 1 || way == 3 {
                                let path = if way == 1 { "/zzz".to_string() } else { name(n / if kind == 4 { 4 } else { 2 }) };
                                let path = Path::new(&path);
                                // errors on the way end an advance
                                loop {
                                    match it.advance(&if dirs || way == 1 { EntryKind::Dir(path) } else { EntryKind::File(path) }) {
                                        Some(Err(_)) if kind == 5 && count < n => count += 1,
                                        Some(Err(e)) => return Err(e.to_string()),
                                        _ => break,
                                    }
                                }
                                if way == 1 {
                                    count = n;
                                }
                            }
                            if way == 2 && kind != 5 {
                                let k = if kind == 4 { n / 2 } else { n };
                                for i in 0..k {
                                    let path = name(i);
                                    let path = Path::new(&path);
                                    match it.advance(&if dirs { EntryKind::Dir(path) } else { EntryKind::File(path) }) {
                                        Some(Ok(_)) => count += 1,
                                        x => return Err(format!("advancing to {:?} gives {:?}", path, x)),
                                    }
                                }
                            }
                            for e in it {
                                match e {
                                    Err(e) if kind != 5 || count >= n => return Err(e.to_string()),
                                    Err(_) => count += 1,
                                    Ok(_) => count += (kind != 5) as u64,
                                }
                            }
                            Ok::<(), String>(())
                        })
                    });
                    match r {
                        Ok(Ok(())) => {}
                        r => violation(&format!("{}: {:?}", what, r)),
                    }
                    if way == 0 && count < n {
                        violation(&format!("{}: {} entries", what, count));
                    }
                    within(ctx, &what, peak, 64 * K + 8 * ROW);
                    ctx.distinct(kind as u64 ^ n << 10);
                });
            }
        }
        for k in ctx.pick(vec![1usize, 2, 5], vec![1, 2, 5, 20]) {
            let n = *sizes.last().unwrap() / 4 / (k as u64 + 1) * 2;
            let what = format!("merging {} indexes of {} {}", k, n, KINDS[kind]);
            ctx.case(|| what.clone(), |ctx| {
                for apart in [0u64, 1] {
                    let mut groups = 0u64;
                    let (r, peak) = measure_all(|| {
                        cut(|| {
                            let mut v = Vec::new();
                            for i in 0..k {
                                v.push((i, Parser::new(Lines::new(long_index(kind, n, if kind == 4 { 0 } else { apart * (i as u64 % 2) }))).map_err(|e| e.to_string())?));
                            }
                            let mut m = MergedSignatures::new(v).map_err(|e| e.to_string())?;
                            let mut it = m.iter();
                            while let Some(g) = it.next() {
                                groups += 1;
                                if groups % 1000 == 0 {
                                    ctx.beat();
                                }
                                if g.iter().any(|e| e.1.is_err()) && kind != 5 {
                                    return Err("an error".to_string());
                                }
                                if groups > 4 * n * k as u64 + 10 {
                                    return Err("too many groups".to_string());
                                }
                            }
                            Ok(())
                        })
                    });
                    match r {
                        Ok(Ok(())) => {}
                        r => violation(&format!("{}: {:?}", what, r)),
                    }
                    within(ctx, &what, peak, 64 * K + k as u64 * (16 * K + 10 * ROW));
                }
                ctx.distinct(k as u64 ^ (kind as u64) << 30);
            });
        }
    }
    // looking up every entry in merged indexes
    for k in [1usize, 3] {
        for kind in [0usize, 1, 2] {
            let n = *sizes.last().unwrap() / 4 / (k as u64 + 1) * 2;
            let what = format!("advancing to every entry of {} indexes of {} {}", k, n, KINDS[kind]);
            ctx.case(|| what.clone(), |ctx| {
                // a step of 3 passes over entries read already
                for step in [1u64, 3, 20] {
                let mut found = 0u64;
                let (r, peak) = measure_all(|| {
                    cut(|| {
                        let mut v = Vec::new();
                        for i in 0..k {
                            v.push((i, Parser::new(Lines::new(long_index(kind, n, i as u64 % 2))).map_err(|e| e.to_string())?));
                        }
                        let mut m = MergedSignatures::new(v).map_err(|e| e.to_string())?;
                        let mut it = m.iter();
                        let pad = "p".repeat(120);
                                    for i in (0..2 * n).step_by(step as usize) {
                            let path = format!("/{}{:09}", pad, i + 4);
                            let path = Path::new(&path);
                            let kind = if kind == 2 { EntryKind::Dir(path) } else { EntryKind::File(path) };
                            for (_, e) in it.advance(&kind) {
                                e.map_err(|e| e.to_string())?;
                                found += 1;
                            }
                            if i % 1000 < step {
                                ctx.beat();
                            }
                        }
                        Ok::<(), String>(())
                    })
                });
                match r {
                    Ok(Ok(())) => {}
                    r => violation(&format!("{}: {:?}", what, r)),
                }
                if found < n * k as u64 / step / 2 {
                    violation(&format!("{}: only {} entries are found", what, found));
                }
                within(ctx, &format!("{}, {}", what, step), peak, 64 * K + k as u64 * (16 * K + 10 * ROW));
                }
                ctx.distinct(k as u64 ^ (kind as u64) << 31);
            });
        }
    }
    // data after the footer
    for n in [0u64, 1, 1 << 20, ctx.pick(1 << 26, 1 << 30)] {
        let what = format!("an index followed by {} bytes", n);
        ctx.case(|| what.clone(), |ctx| {
            let head = format!("DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n{}\n", "0f".repeat(32)).into_bytes();
            let mut r = io::BufReader::new(io::Read::chain(&head[..], crate::huge::Zeros { left: n, tail: vec![] }));
            let (r, peak) = measure_all(|| {
                cut(|| {
                    let mut p = Parser::new(&mut r).map_err(|e| e.to_string())?;
                    let v: Vec<bool> = p.iter().take(5).map(|e| e.is_ok()).collect();
                    Ok::<_, String>(v)
                })
            });
            match r {
                Ok(Ok(v)) if v == [true] && n == 0 || v == [true, false] && n > 0 => {}
                r => violation(&format!("{}: {:?}", what, r)),
            }
            within(ctx, &what, peak, 64 * K);
            ctx.distinct(n);
        });
    }
    // copying an index of any length to another
    for kind in 0..KINDS.len() - 1 {
        for h in ALL {
            let n = *sizes.last().unwrap() / 2;
            let what = format!("emitting an index of {} {}, {:?}", n, KINDS[kind], h);
            ctx.case(|| what.clone(), |ctx| {
                let mut sink = Sink(0);
                let (r, peak) = measure_all(|| {
                    cut(|| {
                        let mut p = Parser::new(Lines::new(long_index(kind, n, 0))).map_err(|e| e.to_string())?;
                        let mut e = Emitter::new(ht(h), BS as u64, &mut sink).map_err(|e| e.to_string())?;
                        for x in p.iter() {
                            feed(&mut e, &x.map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                        }
                        e.finish().map_err(|e| e.to_string())
                    })
                });
                match r {
                    Ok(Ok(())) => {}
                    r => violation(&format!("{}: {:?}", what, r)),
                }
                within(ctx, &what, peak, 64 * K + 8 * ROW);
                ctx.distinct(kind as u64 ^ (h as u64) << 9);
            });
        }
    }
}

// ---- checksums of indexes and files

/// An index of `len` bytes; counts what is read.
struct Big {
    len: u64,
    at: u64,
    read: u64,
    ends: (Vec<u8>, Vec<u8>),
}
impl Read for Big {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (b.len() as u64).min(self.len.saturating_sub(self.at)) as usize;
        for (i, x) in b[..n].iter_mut().enumerate() {
            let p = self.at + i as u64;
            let tail = self.len - self.ends.1.len() as u64;
            *x = if p < self.ends.0.len() as u64 { self.ends.0[p as usize] } else if p >= tail { self.ends.1[(p - tail) as usize] } else { b'\n' };
        }
        self.at += n as u64;
        self.read += n as u64;
        Ok(n)
    }
}
impl Seek for Big {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let to = match s {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(n) => self.len as i64 + n,
            SeekFrom::Current(n) => self.at as i64 + n,
        };
        if to < 0 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.at = to as u64;
        Ok(self.at)
    }
}

fn sums(ctx: &mut Ctx) {
    for h in ALL {
        for bits in [10u32, 16, 20, 24, 28, 32, 40, 62] {
            let what = format!("get_hash of an index of 2^{} bytes, {:?}", bits, h);
            ctx.case(|| what.clone(), |ctx| {
                let head = format!("DIRSIGNATURE.v1 {} block_size=32768\n/\n", h.name()).into_bytes();
                let tail = format!("\n{}\n", "0f".repeat(32)).into_bytes();
                let mut f = Big { len: 1 << bits, at: 0, read: 0, ends: (head, tail) };
                let (r, peak) = measure_all(|| cut(|| dir_signature::get_hash(&mut f)));
                match r {
                    Ok(Ok(v)) if v == [15u8; 32] => {}
                    r => violation(&format!("{}: {:?}", what, r)),
                }
                within(ctx, &what, peak, 64 * K);
                if f.read > 256 * K {
                    violation(&format!("{}: {} bytes are read", what, f.read));
                }
                ctx.distinct(bits as u64 ^ (h as u64) << 9);
            });
        }
        for (size, bs) in ctx.pick(vec![(1u64 << 16, 64u64), (1 << 24, 4096), (1 << 27, 32768), (1 << 27, 1 << 27), (1 << 27, 1 << 40)], vec![(1 << 16, 64), (1 << 24, 4096), (1 << 27, 32768), (1 << 27, 1 << 27), (1 << 27, 1 << 40), (1 << 31, 1 << 20)]) {
            let what = format!("hashing and checking {} bytes with block size {}, {:?}", size, bs, h);
            ctx.case(|| what.clone(), |ctx| {
                let zeros = || crate::huge::Zeros { left: size, tail: vec![] };
                // a block of usual size may be held
                let limit = 256 * K + 2 * bs.min(1 << 20) + 32 * 4 * (size / bs + 1);
                let (r, peak) = measure_all(|| Hashes::hash_file(ht(h), bs, zeros()).unwrap());
                within(ctx, &what, peak, limit);
                if r.0 != size {
                    violation(&format!("{}: size {}", what, r.0));
                }
                let (ok, peak) = measure_all(|| r.1.check_file(zeros()).unwrap());
                within(ctx, &what, peak, 256 * K + 2 * bs.min(1 << 20));
                if !ok {
                    violation(&format!("{}: not accepted", what));
                }
                // a file that goes on after what the hashes cover
                for n in [0u64, 1, bs.min(1 << 16), 3 * bs.min(1 << 16)] {
                    let part = Hashes::hash_file(ht(h), bs, io::Read::take(zeros(), n)).unwrap().1;
                    let (r, peak) = measure_all(|| part.check_file(zeros()));
                    within(ctx, &format!("{}, against the hashes of {} bytes", what, n), peak, 256 * K + 2 * bs.min(1 << 20));
                    if n < size && !matches!(r, Ok(false)) {
                        violation(&format!("{}: {:?} against the hashes of {} bytes", what, r, n));
                    }
                }
                ctx.distinct(size ^ bs << 3 ^ (h as u64) << 60);
            });
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation is one scan, one pass over an index (by next, by advance, merged, or copied by the emitter), one get_hash or one hashing or checking of a file with all memory of all threads counted; the peak must stay below a limit that depends on the biggest directory, the number of directories beside each other, the queue size times the text of a file's hashes, or the longest line, and not on the size of files, the length of the index or the number of entries; get_hash must not read more than 256 KiB");
    ctx.text("bounds", "files of 0 to 2^27 (thorough: 2^31) bytes; 250 to 2000 (20000) files; 3600 to 10000 (40000) entries with names of 100 to 250 bytes; a chain of 400 (2000) directories; sync and with 2 and 3 threads, queues 0, 4, 16, unset, first task, every task or none finishing as late as possible; indexes of 1 to 60000 (4 million) lines of 6 kinds, read in 4 ways, up to 5 (20) merged; get_hash up to 2^62 bytes");
    ctx.text("assumptions", "what the library holds is allocated through the global allocator; limits leave 64 to 384 KiB plus small multiples for buffers and bookkeeping");
    scans(ctx);
    readers(ctx);
    sums(ctx);
}
