//! Reference cursor over the entries of an index, operations, small indexes.
use crate::common::*;
use dir_signature::v1::{Entry, EntryIterator, Parser};
use kit::ctx::{cut, cut_ok, violation};
use kit::json::{brief, show};
use kit::model::*;
use std::io::{BufRead, Cursor};

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Op {
    Next,
    /// ask for the entry of this kind and path
    Adv(bool, Vec<u8>),
}

impl Op {
    pub fn adv(e: &REnt) -> Op {
        Op::Adv(e.is_dir(), e.path.clone())
    }
    pub fn key(&self) -> Option<Key> {
        match self {
            Op::Next => None,
            Op::Adv(d, p) => Some(Key::new(*d, p)),
        }
    }
    pub fn kind(&self) -> dir_signature::v1::EntryKind<std::path::PathBuf> {
        match self {
            Op::Adv(true, x) => dir_signature::v1::EntryKind::Dir(p(x)),
            Op::Adv(false, x) => dir_signature::v1::EntryKind::File(p(x)),
            Op::Next => unreachable!(),
        }
    }
}

impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Op::Next => write!(f, "next"),
            Op::Adv(true, p) => write!(f, "advance(Dir {})", show(p)),
            Op::Adv(false, p) => write!(f, "advance(File {})", show(p)),
        }
    }
}

/// What a cursor over `ents` must do.
#[derive(Clone, Debug)]
pub struct RefCursor<'a> {
    pub ents: &'a [REnt],
    pub keys: &'a [Key],
    pub pos: usize,
}

impl<'a> RefCursor<'a> {
    pub fn new(ents: &'a [REnt], keys: &'a [Key]) -> RefCursor<'a> {
        RefCursor { ents, keys, pos: 0 }
    }
    pub fn step(&mut self, op: &Op) -> Option<&'a REnt> {
        match op.key() {
            None => {
                let e = self.ents.get(self.pos);
                self.pos += e.is_some() as usize;
                e
            }
            Some(k) => {
                while self.pos < self.keys.len() && self.keys[self.pos] < k {
                    self.pos += 1;
                }
                if self.pos < self.keys.len() && self.keys[self.pos] == k {
                    self.pos += 1;
                    Some(&self.ents[self.pos - 1])
                } else {
                    None
                }
            }
        }
    }
}

pub fn keys(ents: &[REnt]) -> Vec<Key> {
    ents.iter().map(|e| e.key()).collect()
}

/// Run one operation on the real thing.
pub fn step<R: BufRead>(it: &mut EntryIterator<R>, op: &Op) -> Item {
    let r = cut(|| match op {
        Op::Next => item(it.next()),
        Op::Adv(..) => item(it.advance(&op.kind())),
    });
    match r {
        Ok(i) => i,
        Err(p) => violation(&format!("{:?} panics: {}", op, p)),
    }
}

pub fn parser(data: &[u8]) -> Parser<Cursor<&[u8]>> {
    match cut_ok(|| Parser::new(Cursor::new(data))) {
        Ok(p) => p,
        Err(e) => violation(&format!("index cannot be opened: {}: {}", e, brief(data))),
    }
}

/// Library entries of a valid index.
pub fn lib(data: &[u8]) -> Vec<Entry> {
    let mut p = parser(data);
    let mut v = Vec::new();
    cut_ok(|| {
        for (i, e) in p.iter().enumerate() {
            match e {
                Ok(e) => v.push(e),
                Err(e) => violation(&format!("item {} of a valid index is an error: {}: {}", i, e, brief(data))),
            }
        }
    });
    v
}

/// All sequences of 0..n of length k.
pub fn words(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        out = out
            .into_iter()
            .flat_map(|s| {
                (0..n).map(move |i| {
                    let mut t = s.clone();
                    t.push(i);
                    t
                })
            })
            .collect();
    }
    out
}

/// Kinds that do not occur in the index: around and between its entries.
pub fn absent(ents: &[REnt]) -> Vec<Op> {
    let mut v = Vec::new();
    let present = |o: &Op| ents.iter().any(|e| Some(e.key()) == o.key());
    let mut dirs: Vec<&[u8]> = ents.iter().filter(|e| e.is_dir()).map(|e| &e.path[..]).collect();
    dirs.push(b"/nodir");
    for d in dirs {
        for n in [&b"\x01"[..], b"a+", b"\xff"] {
            v.push(Op::Adv(false, join(d, n)));
        }
        v.push(Op::Adv(true, join(d, b"a,")));
    }
    for e in ents {
        // the same path as the other kind
        if e.path != b"/" {
            v.push(Op::Adv(!e.is_dir(), e.path.clone()));
        }
        // below a file
        v.push(Op::Adv(false, join(&e.path, b"m")));
    }
    v.push(Op::Adv(true, b"/\xff\xff".to_vec()));
    v.retain(|o| !present(o));
    let mut out: Vec<Op> = Vec::new();
    for o in v {
        if !out.contains(&o) {
            out.push(o);
        }
    }
    out
}

/// Small indexes (entries in index order) that stress the order.
pub fn shapes() -> Vec<(&'static str, Vec<REnt>)> {
    let f = |p: &[u8], n: u64| rfile(p, n % 2 == 1, n, 32768);
    vec![
        ("empty", vec![]),
        ("root only", vec![rdir(b"/")]),
        ("files", vec![rdir(b"/"), f(b"/a", 5), rlink(b"/b", b"a"), f(b"/c", 0)]),
        (
            "tree",
            vec![rdir(b"/"), f(b"/a", 5), f(b"/z", 0), rdir(b"/a"), f(b"/a/x", 3), rdir(b"/a-b"), f(b"/a-b/x", 40000), rdir(b"/b"), rlink(b"/b/x", b"../z")],
        ),
        ("nested", vec![rdir(b"/"), rdir(b"/a"), rdir(b"/a/a"), f(b"/a/a/f", 1), rdir(b"/a/b"), f(b"/a/b/f", 2), rdir(b"/a-"), f(b"/a-/f", 3)]),
        ("dots", vec![rdir(b"/"), f(b"/.h", 1), f(b"/a b", 2), f(b"/\xff", 3), rdir(b"/.d"), f(b"/.d/f", 9), rdir(b"/a"), rdir(b"/a/.b"), rdir(b"/a.b"), f(b"/a.b/f", 4)]),
        ("empty dirs", vec![rdir(b"/"), rdir(b"/a"), rdir(b"/b"), rdir(b"/b/c"), rdir(b"/d"), f(b"/d/f", 7)]),
    ]
}

/// Run a whole sequence on the reference and on the library.
pub fn run_ops(data: &[u8], ents: &[REnt], ks: &[Key], ops: &[&Op], what: &str) -> u64 {
    let mut p = parser(data);
    let mut it = cut_ok(|| p.iter());
    compare(&mut it, ents, ks, ops, what)
}

pub fn compare<R: BufRead>(it: &mut EntryIterator<R>, ents: &[REnt], ks: &[Key], ops: &[&Op], what: &str) -> u64 {
    let mut r = RefCursor::new(ents, ks);
    for (i, op) in ops.iter().enumerate() {
        let want = match r.step(op) {
            Some(e) => Item::Ent(e.clone()),
            None => Item::End,
        };
        let got = step(it, op);
        if got != want {
            violation(&format!("{}: after {:?}, {:?} gives {:?} instead of {:?}", what, &ops[..i], op, got, want));
        }
    }
    // what is left must still all be there
    loop {
        let want = match r.step(&Op::Next) {
            Some(e) => Item::Ent(e.clone()),
            None => Item::End,
        };
        let got = step(it, &Op::Next);
        if got != want {
            violation(&format!("{}: after {:?} and draining, next gives {:?} instead of {:?}", what, ops, got, want));
        }
        if want == Item::End {
            break;
        }
    }
    r.pos as u64
}

/// Indexes that are large in one dimension: hashes per line, length of a
/// name, path or target, number of entries. In index order.
pub fn large(th: bool) -> Vec<(String, Vec<REnt>, u64)> {
    let mut v: Vec<(String, Vec<REnt>, u64)> = Vec::new();
    let around = |mid: Vec<REnt>, bs: u64| {
        let mut e = vec![rdir(b"/"), rfile(b"/a", false, 1, bs)];
        e.extend(mid);
        e.push(rdir(b"/zz"));
        e.push(rlink(b"/zz/last", b"x"));
        e
    };
    let n: Vec<usize> = if th { vec![255, 256, 1000, 4096, 65535, 65536, 65537, 200_000] } else { vec![255, 256, 4096, 65536, 70_000] };
    for &n in &n {
        v.push((format!("{} hashes on a line", n), around(vec![rfile(b"/m", true, n as u64 * 2 - 1, 2)], 2), 2));
    }
    let n: Vec<usize> = if th { vec![1 << 8, 1 << 10, 4095, 4096, 8192, 1 << 15, 1 << 16, 1 << 18, 1 << 20, 3 << 20] } else { vec![1 << 8, 4096, 8192, 1 << 16, 3 << 20] };
    for &n in &n {
        for b in [b'm', 0xff] {
            let s = vec![b; n];
            let mut p = Vec::new();
            while p.len() < n {
                p.extend_from_slice(&[b'/', b]);
            }
            v.push((format!("names of {} bytes {:02x}", n, b), around(vec![rfile(&join(b"/", &s), true, 0, 32768), rlink(&join(b"/", &[&s[..], b"n"].concat()), &s), rdir(&join(b"/", &s))], 32768), 32768));
            // nothing may sort between
            let mut e = vec![rdir(b"/"), rfile(b"/a", false, 1, 32768), rdir(&p), rfile(&join(&p, b"f"), false, 3, 32768)];
            if b == b'm' {
                e.extend([rdir(b"/zz"), rlink(b"/zz/last", b"x")]);
            } else {
                e.extend([rdir(b"/\xff\xff"), rlink(b"/\xff\xff/last", b"x")]);
            }
            v.push((format!("a path of {} bytes {:02x}", n, b), e, 32768));
        }
    }
    let n: Vec<usize> = if th { vec![256, 1000, 65536, 300_000] } else { vec![256, 70_000] };
    for &n in &n {
        v.push((format!("{} files", n), around((0..n).map(|i| rfile(format!("/f{:06}", i).as_bytes(), i % 2 == 0, i as u64 % 3, 32768)).collect(), 32768), 32768));
        v.push((format!("{} directories", n), around((0..n).map(|i| rdir(format!("/f{:06}", i).as_bytes())).collect(), 32768), 32768));
    }
    for (_, e, _) in &mut v {
        e.sort_by(|a, b| a.key().cmp(&b.key()));
    }
    v
}

/// For messages.
pub fn short<T: std::fmt::Debug>(x: Option<T>) -> String {
    let s = format!("{:?}", x);
    if s.len() > 400 { format!("{}..[{} characters]", s.chars().take(400).collect::<String>(), s.len()) } else { s }
}
