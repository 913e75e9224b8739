//! Bridging between the reference model and the library.
use dir_signature::v1::{self, Entry, EntryKind, Hashes, ParseError, Parser};
use dir_signature::{Error, HashType, ScannerConfig};
use kit::ctx::{cut, cut_ok, deadlock, violation, Ctx};
use kit::hash::{D32, Ht};
use kit::interpose::{with_env, Env};
use kit::json::{brief, show};
use kit::mc::sched;
use kit::model::*;
use std::io::{self, Write};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

pub fn ht(h: Ht) -> HashType {
    match h {
        Ht::Sha => HashType::sha512_256(),
        Ht::B2 => HashType::blake2b_256(),
        Ht::B3 => HashType::blake3_256(),
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    pub ht: Ht,
    pub threads: usize,
    pub queue: Option<usize>,
    pub progress: bool,
}

impl Opts {
    pub fn new(h: Ht) -> Opts {
        Opts { ht: h, threads: 0, queue: None, progress: false }
    }
    pub fn threads(mut self, n: usize) -> Opts {
        self.threads = n;
        self
    }
    pub fn queue(mut self, n: usize) -> Opts {
        self.queue = Some(n);
        self
    }
    pub fn progress(mut self) -> Opts {
        self.progress = true;
        self
    }
    /// How a known BLAKE3 finding shows with these options.
    pub fn how(&self) -> Hashing {
        if self.threads > 0 { Hashing::PerFile } else { Hashing::PerScan }
    }
}

pub fn config(dirs: &[(&Path, &str)], o: &Opts) -> ScannerConfig {
    let mut c = ScannerConfig::new();
    c.hash(ht(o.ht));
    c.threads(o.threads);
    if let Some(q) = o.queue {
        c.queue_size(q);
    }
    if o.progress {
        c.print_progress();
    }
    for (p, prefix) in dirs {
        c.add_dir(p, prefix);
    }
    c
}

/// Result of a scan: what was written, and how it ended.
#[derive(Debug)]
pub struct ScanOut {
    pub out: Vec<u8>,
    /// Err: error kind and text, or "panic"
    pub res: Result<(), (Kind, String)>,
    pub report: Option<sched::Report>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Write,
    OpenDir,
    ListDir,
    ReadFile,
    NoRoot,
    Other,
    Panic,
}

pub fn kind(e: &Error) -> Kind {
    match e {
        Error::WriteError(_) => Kind::Write,
        Error::OpenDir(_) => Kind::OpenDir,
        Error::ListDir(_) => Kind::ListDir,
        Error::ReadFile(_) => Kind::ReadFile,
        Error::NoRootDirectory => Kind::NoRoot,
        _ => Kind::Other,
    }
}

fn fold(r: Result<Result<(), Error>, String>) -> Result<(), (Kind, String)> {
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err((kind(&e), e.to_string())),
        Err(p) => Err((Kind::Panic, p)),
    }
}

/// Plain scan (threaded configurations run each task when it is spawned).
pub fn scan_dirs(dirs: &[(&Path, &str)], o: &Opts) -> ScanOut {
    let c = config(dirs, o);
    let mut out = Vec::new();
    let res = fold(cut(|| v1::scan(&c, &mut out)));
    ScanOut { out, res, report: None }
}
pub fn scan(root: &Path, o: &Opts) -> ScanOut {
    scan_dirs(&[(root, "/")], o)
}

/// Scan under an environment; under the scheduler if `sc` is given.
pub fn scan_env(dirs: &[(&Path, &str)], o: &Opts, env: &mut dyn Env, sc: Option<sched::Config>) -> ScanOut {
    let mut out = Vec::new();
    let (res, report) = scan_env_to(dirs, o, env, sc, &mut out);
    ScanOut { out, res, report }
}

pub fn scan_env_to<W: Write>(
    dirs: &[(&Path, &str)],
    o: &Opts,
    env: &mut dyn Env,
    sc: Option<sched::Config>,
    out: &mut W,
) -> (Result<(), (Kind, String)>, Option<sched::Report>) {
    let c = config(dirs, o);
    let mut report = None;
    let res = with_env(env, || match sc {
        Some(sc) => {
            let (r, rep) = sched::run(sc, deadlock, || cut(|| v1::scan(&c, out)));
            report = Some(rep);
            r
        }
        None => cut(|| v1::scan(&c, out)),
    });
    (fold(res), report)
}

/// First difference of two byte strings, for messages.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let from = i.saturating_sub(60);
    let cut = |b: &[u8]| show(&b[from.min(b.len())..(i + 90).min(b.len())]);
    format!(
        "first difference at byte {} (got {} bytes, expected {}): got ..{}.. expected ..{}..",
        i,
        got.len(),
        want.len(),
        cut(got),
        cut(want)
    )
}

/// The scan must have succeeded and written exactly the index of `tree`.
pub fn judge(ctx: &mut Ctx, s: &ScanOut, tree: &Node, o: &Opts, what: &str) {
    if let Err((k, e)) = &s.res {
        violation(&format!("{}: scan failed with {:?} {}", what, k, e));
    }
    judge_bytes(ctx, &s.out, tree, o, what);
}

pub fn judge_bytes(ctx: &mut Ctx, out: &[u8], tree: &Node, o: &Opts, what: &str) {
    let want = index(tree, o.ht);
    if out == &want[..] {
        return;
    }
    if o.ht == Ht::B3 && out == &index_h(tree, Ht::B3, o.how())[..] {
        ctx.known("blake3-cumulative", || {
            format!("{}: BLAKE3 block hashes are not those of the blocks: {}", what, diff(out, &want))
        });
        return;
    }
    violation(&format!("{}: index of {:?} with {:?} is wrong: {}", what, tree, o, diff(out, &want)));
}

pub fn d32(b: &[u8]) -> D32 {
    let mut d = [0; 32];
    if b.len() == 32 {
        d.copy_from_slice(b);
    } else {
        violation(&format!("a hash has {} bytes", b.len()));
    }
    d
}

/// Hash list through each of its accessors, which must agree.
pub fn hashes(h: &Hashes) -> Vec<D32> {
    let a: Vec<D32> = h.iter().map(d32).collect();
    let n = h.len();
    let b: Vec<D32> = (0..n).map(|i| d32(h.get(i).unwrap_or_else(|| violation("Hashes::get is None below len()")))).collect();
    if a != b {
        violation(&format!("Hashes: iter gives {} hashes, len/get {}", a.len(), n));
    }
    for i in [n, n + 1, n + 2, usize::MAX / 32, usize::MAX / 2, usize::MAX] {
        if i >= n && h.get(i).is_some() {
            violation(&format!("Hashes::get({}) of {} hashes is not None", i, n));
        }
    }
    a
}

/// Library entry in model terms.
pub fn rent(e: &Entry) -> REnt {
    match e {
        Entry::Dir(p) => REnt { path: p.as_os_str().as_bytes().to_vec(), kind: RKind::Dir },
        Entry::File { path, exe, size, hashes: h } => REnt {
            path: path.as_os_str().as_bytes().to_vec(),
            kind: RKind::File { exe: *exe, size: *size, hashes: hashes(h) },
        },
        Entry::Link(p, t) => REnt {
            path: p.as_os_str().as_bytes().to_vec(),
            kind: RKind::Link(t.as_os_str().as_bytes().to_vec()),
        },
    }
}

/// One item of an entry stream.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Item {
    Ent(REnt),
    Err(String),
    End,
    Panic(String),
}

pub fn item(r: Option<Result<Entry, ParseError>>) -> Item {
    match r {
        None => Item::End,
        Some(Ok(e)) => Item::Ent(rent(&e)),
        Some(Err(e)) => Item::Err(e.to_string()),
    }
}

pub fn ek(k: &REnt) -> EntryKind<std::path::PathBuf> {
    if k.is_dir() {
        EntryKind::Dir(p(&k.path))
    } else {
        EntryKind::File(p(&k.path))
    }
}

/// Parse a whole index with next(); stops after the end or `limit` items.
pub fn parse_all(data: &[u8], limit: usize) -> Result<Vec<Item>, String> {
    parse_reader(io::Cursor::new(data), limit)
}

pub fn parse_reader<R: io::BufRead>(r: R, limit: usize) -> Result<Vec<Item>, String> {
    let res = cut(|| -> Result<Vec<Item>, String> {
        let mut p = Parser::new(r).map_err(|e| e.to_string())?;
        let mut it = p.iter();
        let mut v = Vec::new();
        loop {
            let x = item(it.next());
            let end = x == Item::End;
            v.push(x);
            if end || v.len() >= limit {
                return Ok(v);
            }
        }
    });
    match res {
        Ok(r) => r,
        Err(p) => violation(&format!("panic while parsing: {}", p)),
    }
}

/// Entries of a parse that must succeed.
pub fn parse_ok(data: &[u8]) -> Vec<REnt> {
    let items = match parse_all(data, usize::MAX >> 1) {
        Ok(i) => i,
        Err(e) => violation(&format!("index cannot be opened: {}: {}", e, brief(data))),
    };
    let n = items.len();
    items
        .into_iter()
        .enumerate()
        .filter_map(|(i, x)| match x {
            Item::Ent(e) => Some(e),
            Item::End if i + 1 == n => None,
            x => violation(&format!("item {} of a valid index is {:?}", i, x)),
        })
        .collect()
}

pub fn ok<T, E: std::fmt::Display>(r: Result<T, E>, what: &str) -> T {
    match r {
        Ok(v) => v,
        Err(e) => violation(&format!("{}: {}", what, e)),
    }
}

/// A well-formed index can be decoded independently of the library: header
/// fields, entries, footer. Used as an oracle for arbitrary output.
pub struct Decoded {
    pub ents: Vec<REnt>,
}

fn unescape(b: &[u8]) -> Option<Vec<u8>> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if i + 3 < b.len() + 0 && b[i + 1] == b'x' {
                let h = std::str::from_utf8(&b[i + 2..i + 4]).ok()?;
                if h.bytes().any(|c| !matches!(c, b'0'..=b'9' | b'a'..=b'f')) {
                    return None;
                }
                o.push(u8::from_str_radix(h, 16).ok()?);
                i += 4;
            } else {
                return None;
            }
        } else {
            if !(0x21..=0x7e).contains(&b[i]) {
                return None;
            }
            o.push(b[i]);
            i += 1;
        }
    }
    if escape(&o) != b {
        return None; // something is escaped that need not be
    }
    Some(o)
}

/// Strict independent decoder of complete indexes written with block size
/// `bs`. Err tells what is not well formed.
pub fn decode(data: &[u8], h: Ht, bs: u64) -> Result<Decoded, String> {
    let head = header(h, bs);
    if !data.starts_with(&head) {
        return Err("header".into());
    }
    let body = &data[head.len()..];
    if !body.ends_with(b"\n") {
        return Err("no newline at the end".into());
    }
    let mut lines: Vec<&[u8]> = body[..body.len() - 1].split(|&b| b == b'\n').collect();
    let foot = lines.pop().unwrap();
    let upto = body.len() - foot.len() - 1;
    let want = kit::hash::hex(&kit::hash::digest(h, &body[..upto]));
    if foot != want.as_bytes() {
        return Err(format!("footer is {} instead of {}", show(foot), want));
    }
    let mut ents: Vec<REnt> = Vec::new();
    let mut cur: Vec<u8> = Vec::new();
    for l in lines {
        let e = decode_line(l, &cur, bs).ok_or_else(|| format!("line {}", brief(l)))?;
        if e.is_dir() {
            cur = e.path.clone();
        }
        if let Some(prev) = ents.last() {
            if prev.key() >= e.key() {
                return Err(format!("order: {} after {}", show(&e.path), show(&prev.path)));
            }
        } else if e.path != b"/" {
            return Err("does not start with /".into());
        }
        ents.push(e);
    }
    Ok(Decoded { ents })
}

/// One line of an index (strict).
pub fn decode_line(l: &[u8], cur: &[u8], bs: u64) -> Option<REnt> {
    if l.starts_with(b"/") {
        return Some(REnt { path: unescape(l)?, kind: RKind::Dir });
    }
    let f: Vec<&[u8]> = l.strip_prefix(b"  ")?.split(|&b| b == b' ').collect();
    if f.len() < 3 && !(f.len() == 3) {
        return None;
    }
    let name = unescape(f[0])?;
    if name.is_empty() {
        return None;
    }
    let path = join(cur, &name);
    match f[1] {
        b"s" if f.len() == 3 => Some(REnt { path, kind: RKind::Link(unescape(f[2])?) }),
        b"f" | b"x" => {
            let s = std::str::from_utf8(f[2]).ok()?;
            if !s.bytes().all(|c| c.is_ascii_digit()) || s.is_empty() || (s.len() > 1 && s.starts_with('0')) {
                return None;
            }
            let size: u64 = s.parse().ok()?;
            let n = size / bs + (size % bs != 0) as u64;
            if (f.len() - 3) as u64 != n {
                return None;
            }
            let mut hs = Vec::new();
            for x in &f[3..] {
                if x.len() != 64 || x.iter().any(|c| !matches!(c, b'0'..=b'9' | b'a'..=b'f')) {
                    return None;
                }
                let mut d = [0; 32];
                for (i, o) in d.iter_mut().enumerate() {
                    *o = u8::from_str_radix(std::str::from_utf8(&x[2 * i..2 * i + 2]).unwrap(), 16).unwrap();
                }
                hs.push(d);
            }
            Some(REnt { path, kind: RKind::File { exe: f[1] == b"x", size, hashes: hs } })
        }
        _ => None,
    }
}

/// Permutations of 0..n (n small), identity first.
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for first in 0..n {
        for rest in perms(n - 1) {
            let mut v = vec![first];
            v.extend(rest.iter().map(|&x| if x >= first { x + 1 } else { x }));
            out.push(v);
        }
    }
    out
}

/// The library's own Hashes for arbitrary digests (through the parser).
pub fn lib_hashes(h: Ht, bs: u64, size: u64, hs: &[D32]) -> Hashes {
    let e = REnt { path: b"/x".to_vec(), kind: RKind::File { exe: false, size, hashes: hs.to_vec() } };
    let text = render(&[REnt { path: b"/".to_vec(), kind: RKind::Dir }, e], h, bs);
    let mut p = ok(cut_ok(|| Parser::new(io::Cursor::new(&text[..]))), "parsing a one-file index");
    let mut it = p.iter();
    cut_ok(|| it.next());
    match cut_ok(|| it.next()) {
        Some(Ok(Entry::File { hashes, .. })) => hashes,
        x => violation(&format!("one-file index {} gives {:?}", brief(&text), x)),
    }
}

/// Feed library entries to the emitter.
pub fn emit_call(em: &mut v1::Emitter, e: &Entry) -> io::Result<()> {
    match e {
        Entry::Dir(p) => em.start_dir(p),
        Entry::File { path, exe, size, hashes } => em.add_file(path.file_name().unwrap(), *exe, *size, hashes),
        Entry::Link(p, t) => em.add_symlink(p.file_name().unwrap(), t),
    }
}

/// Is the last line the digest of everything between it and the header?
pub fn footer_ok(out: &[u8], h: Ht) -> Result<(), String> {
    let head = match out.iter().position(|&b| b == b'\n') {
        Some(i) => i + 1,
        None => return Err("no header line".into()),
    };
    if !out[..head].starts_with(format!("DIRSIGNATURE.v1 {} block_size=", h.name()).as_bytes()) {
        return Err(format!("header {}", show(&out[..head])));
    }
    if out.len() < head + 65 {
        return Err(format!("no footer: {}", brief(out)));
    }
    let foot = &out[out.len() - 65..];
    let want = format!("{}\n", kit::hash::hex(&kit::hash::digest(h, &out[head..out.len() - 65])));
    if out[..out.len() - 65].last() != Some(&b'\n') {
        return Err("the footer is not a line of its own".into());
    }
    if foot != want.as_bytes() {
        return Err(format!("footer is {:?} instead of {:?}", show(foot), want));
    }
    Ok(())
}

/// Deterministic digest for made-up entries.
pub fn fake(n: u64) -> D32 {
    let mut d = [0; 32];
    for (i, b) in d.iter_mut().enumerate() {
        *b = (n.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(i as u32 * 5) >> 13) as u8;
    }
    d
}
pub fn rdir(p: &[u8]) -> REnt {
    REnt { path: p.to_vec(), kind: RKind::Dir }
}
pub fn rfile(p: &[u8], exe: bool, size: u64, bs: u64) -> REnt {
    let n = size / bs + (size % bs != 0) as u64;
    REnt { path: p.to_vec(), kind: RKind::File { exe, size, hashes: (0..n).map(|i| fake(i * 31 + kit::hash::fnv(p))).collect() } }
}
pub fn rlink(p: &[u8], t: &[u8]) -> REnt {
    REnt { path: p.to_vec(), kind: RKind::Link(t.to_vec()) }
}
