//! Reference model: trees, the index they must have, parsed entries, order.
use crate::hash::{self, blocks, digest, hex, Cumulative, D32, Ht};
use std::collections::BTreeMap;
use std::ffi::{CString, OsStr};
use std::fmt;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub const BS: usize = 32768;

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Node {
    Dir(BTreeMap<Vec<u8>, Node>),
    File { data: Rc<Vec<u8>>, mode: u32 },
    Link(Vec<u8>),
    Fifo,
    Sock,
}

impl Node {
    pub fn dir() -> Node {
        Node::Dir(BTreeMap::new())
    }
    pub fn file(data: &[u8]) -> Node {
        Node::File { data: Rc::new(data.to_vec()), mode: 0o644 }
    }
    pub fn exe(data: &[u8]) -> Node {
        Node::File { data: Rc::new(data.to_vec()), mode: 0o755 }
    }
    pub fn link(t: &[u8]) -> Node {
        Node::Link(t.to_vec())
    }
    pub fn with(mut self, name: &[u8], n: Node) -> Node {
        if let Node::Dir(ref mut m) = self {
            m.insert(name.to_vec(), n);
        }
        self
    }
    pub fn children(&self) -> &BTreeMap<Vec<u8>, Node> {
        match self {
            Node::Dir(m) => m,
            _ => panic!("not a directory"),
        }
    }
    pub fn is_dir(&self) -> bool {
        matches!(self, Node::Dir(_))
    }
    /// number of entries below
    pub fn count(&self) -> usize {
        match self {
            Node::Dir(m) => m.values().map(|c| 1 + c.count()).sum(),
            _ => 0,
        }
    }
    pub fn file_count(&self) -> usize {
        match self {
            Node::Dir(m) => m.values().map(|c| c.file_count()).sum(),
            Node::File { .. } => 1,
            _ => 0,
        }
    }
}

impl fmt::Debug for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Node::Dir(m) => {
                write!(f, "{{")?;
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 12 {
                        write!(f, ",..{} more", m.len() - i)?;
                        break;
                    }
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    let n = crate::json::show(k);
                    if n.len() > 40 {
                        write!(f, "{}..[{}]:{:?}", &n[..30], k.len(), v)?;
                    } else {
                        write!(f, "{}:{:?}", n, v)?;
                    }
                }
                write!(f, "}}")
            }
            Node::File { data, mode } => write!(f, "file({} bytes,{:o})", data.len(), mode),
            Node::Link(t) => write!(f, "->{}", crate::json::brief(t)),
            Node::Fifo => write!(f, "fifo"),
            Node::Sock => write!(f, "socket"),
        }
    }
}

pub fn os(b: &[u8]) -> &OsStr {
    OsStr::from_bytes(b)
}
pub fn p(b: &[u8]) -> PathBuf {
    PathBuf::from(os(b))
}
fn cstr(path: &Path) -> CString {
    CString::new(path.as_os_str().as_bytes()).unwrap()
}

/// Create one node at `path`.
pub fn make(node: &Node, path: &Path) {
    match node {
        Node::Dir(m) => {
            fs::create_dir(path).unwrap_or_else(|e| panic!("mkdir {:?}: {}", path, e));
            // listings often come in creation order: not a sorted one
            let mut all: Vec<_> = m.iter().collect();
            if all.len() > 3 {
                all.sort_by_key(|(k, _)| hash::fnv(k));
            } else {
                all.reverse();
            }
            // paths longer than PATH_MAX need a shorter way there
            let mut held = None;
            let mut base = path.to_path_buf();
            if path.as_os_str().len() > 3500 {
                let fd = unsafe { libc::open(cstr(path).as_ptr(), libc::O_PATH | libc::O_DIRECTORY | libc::O_CLOEXEC, 0) };
                assert!(fd >= 0);
                held = Some(fd);
                base = PathBuf::from(format!("/proc/self/fd/{}", fd));
            }
            for (k, v) in all {
                make(v, &base.join(os(k)));
            }
            if let Some(fd) = held {
                unsafe { libc::close(fd) };
            }
        }
        Node::File { data, mode } => {
            fs::write(path, &data[..]).unwrap_or_else(|e| panic!("write {:?}: {}", path, e));
            fs::set_permissions(path, fs::Permissions::from_mode(*mode)).unwrap();
        }
        Node::Link(t) => symlink(os(t), path).unwrap_or_else(|e| panic!("symlink {:?}: {}", path, e)),
        Node::Fifo => {
            let r = unsafe { libc::mkfifo(cstr(path).as_ptr(), 0o644) };
            assert_eq!(r, 0);
        }
        Node::Sock => {
            // sun_path is short: bind relative to the directory
            let dir = cstr(path.parent().unwrap());
            unsafe {
                let fd = libc::open(dir.as_ptr(), libc::O_PATH | libc::O_DIRECTORY | libc::O_CLOEXEC, 0);
                assert!(fd >= 0);
                let via = format!("/proc/self/fd/{}/", fd);
                let full = PathBuf::from(via).join(path.file_name().unwrap());
                std::os::unix::net::UnixListener::bind(&full).unwrap();
                libc::close(fd);
            }
        }
    }
}

/// Delete whatever is at `path` (the caller makes sure it is scratch space).
pub fn wipe(path: &Path) {
    match fs::symlink_metadata(path) {
        Ok(m) if m.is_dir() => {
            if fs::remove_dir_all(path).is_err() {
                let _ = fs::set_permissions(path, fs::Permissions::from_mode(0o755));
                fs::remove_dir_all(path).unwrap_or_else(|e| panic!("cannot clean {:?}: {}", path, e));
            }
        }
        Ok(_) => fs::remove_file(path).unwrap(),
        Err(_) => {}
    }
}

pub fn escape(name: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for &b in name {
        if (0x21..=0x7e).contains(&b) && b != b'\\' {
            o.push(b);
        } else {
            o.extend_from_slice(format!("\\x{}", hex(&[b])).as_bytes());
        }
    }
    o
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RKind {
    Dir,
    File { exe: bool, size: u64, hashes: Vec<D32> },
    Link(Vec<u8>),
}

/// An entry of an index, at an absolute path.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct REnt {
    pub path: Vec<u8>,
    pub kind: RKind,
}

impl REnt {
    pub fn is_dir(&self) -> bool {
        matches!(self.kind, RKind::Dir)
    }
    pub fn key(&self) -> Key {
        Key::new(self.is_dir(), &self.path)
    }
}

/// Position of an entry in index order: a directory comes before its files,
/// its files by name, then its subdirectories' subtrees by name.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Key {
    /// components of the directory
    dir: Vec<Vec<u8>>,
    /// file name, None for the directory itself
    file: Option<Vec<u8>>,
}

impl Key {
    pub fn new(is_dir: bool, path: &[u8]) -> Key {
        let mut c: Vec<Vec<u8>> =
            path.split(|&b| b == b'/').filter(|s| !s.is_empty()).map(|s| s.to_vec()).collect();
        if is_dir {
            Key { dir: c, file: None }
        } else {
            let f = c.pop().unwrap_or_default();
            Key { dir: c, file: Some(f) }
        }
    }
}
// The derived order compares the directory's components first (a prefix is
// smaller), then None < Some(name): the order in which a depth-first scan
// that lists files before subdirectories visits them.

pub fn join(dir: &[u8], name: &[u8]) -> Vec<u8> {
    let mut v = dir.to_vec();
    if !v.ends_with(b"/") {
        v.push(b'/');
    }
    v.extend_from_slice(name);
    v
}

/// How block hashes come out.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hashing {
    /// every block hashed on its own
    Right,
    /// one BLAKE3 state per file, never reset
    PerFile,
    /// one BLAKE3 state for the whole scan, never reset
    PerScan,
}

/// All entries of a tree in index order.
pub fn entries_h(root: &Node, h: Ht, bs: usize, how: Hashing) -> Vec<REnt> {
    let mut out = Vec::new();
    let mut cum = Cumulative::new();
    walk(root, b"/", h, bs, how, &mut cum, &mut out);
    out
}
pub fn entries(root: &Node, h: Ht, bs: usize) -> Vec<REnt> {
    entries_h(root, h, bs, Hashing::Right)
}

fn walk(n: &Node, path: &[u8], h: Ht, bs: usize, how: Hashing, cum: &mut Cumulative, out: &mut Vec<REnt>) {
    out.push(REnt { path: path.to_vec(), kind: RKind::Dir });
    for (name, c) in n.children() {
        match c {
            Node::File { data, mode } => {
                let hashes = match how {
                    Hashing::Right => blocks(h, data, bs),
                    Hashing::PerFile => {
                        let mut c = Cumulative::new();
                        data.chunks(bs).map(|b| c.block(b)).collect()
                    }
                    Hashing::PerScan => data.chunks(bs).map(|b| cum.block(b)).collect(),
                };
                out.push(REnt {
                    path: join(path, name),
                    kind: RKind::File { exe: mode & 0o100 != 0, size: data.len() as u64, hashes },
                });
            }
            Node::Link(t) => out.push(REnt { path: join(path, name), kind: RKind::Link(t.clone()) }),
            _ => {}
        }
    }
    for (name, c) in n.children() {
        if c.is_dir() {
            walk(c, &join(path, name), h, bs, how, cum, out);
        }
    }
}

/// Text of one entry line (without the newline).
pub fn line(e: &REnt) -> Vec<u8> {
    let name = || {
        let i = e.path.iter().rposition(|&b| b == b'/').map(|i| i + 1).unwrap_or(0);
        escape(&e.path[i..])
    };
    let mut o = Vec::new();
    match &e.kind {
        RKind::Dir => o.extend(escape(&e.path)),
        RKind::File { exe, size, hashes } => {
            o.extend_from_slice(b"  ");
            o.extend(name());
            o.extend(format!(" {} {}", if *exe { "x" } else { "f" }, size).into_bytes());
            for h in hashes {
                o.push(b' ');
                o.extend(hex(h).into_bytes());
            }
        }
        RKind::Link(t) => {
            o.extend_from_slice(b"  ");
            o.extend(name());
            o.extend_from_slice(b" s ");
            o.extend(escape(t));
        }
    }
    o
}

pub fn header(h: Ht, bs: u64) -> Vec<u8> {
    format!("DIRSIGNATURE.v1 {} block_size={}\n", h.name(), bs).into_bytes()
}

/// Complete index text of the entries.
pub fn render(ents: &[REnt], h: Ht, bs: u64) -> Vec<u8> {
    let mut out = header(h, bs);
    let start = out.len();
    for e in ents {
        out.extend(line(e));
        out.push(b'\n');
    }
    let d = digest(h, &out[start..]);
    out.extend(hex(&d).into_bytes());
    out.push(b'\n');
    out
}

/// The index of a tree.
pub fn index(root: &Node, h: Ht) -> Vec<u8> {
    render(&entries(root, h, BS), h, BS as u64)
}
pub fn index_h(root: &Node, h: Ht, how: Hashing) -> Vec<u8> {
    render(&entries_h(root, h, BS, how), h, BS as u64)
}

/// Identity of a tree for counting distinct cases.
pub fn tree_id(n: &Node) -> u64 {
    let mut buf = Vec::new();
    fn rec(n: &Node, buf: &mut Vec<u8>) {
        match n {
            Node::Dir(m) => {
                buf.push(b'D');
                for (k, v) in m {
                    buf.extend(k);
                    buf.push(0);
                    rec(v, buf);
                }
                buf.push(b')');
            }
            Node::File { data, mode } => {
                buf.push(b'F');
                buf.extend(mode.to_le_bytes());
                buf.extend(hash::fnv(data).to_le_bytes());
                buf.extend((data.len() as u64).to_le_bytes());
            }
            Node::Link(t) => {
                buf.push(b'L');
                buf.extend(t);
                buf.push(0);
            }
            Node::Fifo => buf.push(b'P'),
            Node::Sock => buf.push(b'S'),
        }
    }
    rec(n, &mut buf);
    hash::fnv(&buf)
}

/// All forests with exactly `n` nodes over the given names and leaf kinds
/// (a node is a directory with a sub-forest or a leaf).
pub fn forests(n: usize, names: &[&[u8]], leaves: &[Node]) -> Vec<BTreeMap<Vec<u8>, Node>> {
    fn rec(n: usize, names: &[&[u8]], all: &[&[u8]], leaves: &[Node]) -> Vec<BTreeMap<Vec<u8>, Node>> {
        if n == 0 {
            return vec![BTreeMap::new()];
        }
        if names.is_empty() {
            return vec![];
        }
        let mut out = rec(n, &names[1..], all, leaves);
        // use names[0] with k nodes below it
        for k in 0..n {
            let rest = rec(n - 1 - k, &names[1..], all, leaves);
            if rest.is_empty() {
                continue;
            }
            let mut subs: Vec<Node> = Vec::new();
            for f in rec(k, all, all, leaves) {
                subs.push(Node::Dir(f));
            }
            if k == 0 {
                subs.extend(leaves.iter().cloned());
            }
            for s in &subs {
                for r in &rest {
                    let mut m = r.clone();
                    m.insert(names[0].to_vec(), s.clone());
                    out.push(m);
                }
            }
        }
        out
    }
    rec(n, names, names, leaves)
}

/// Deterministic content of a given size (kind selects the pattern).
pub fn content(size: usize, kind: u8) -> Vec<u8> {
    match kind {
        0 => vec![0; size],
        1 => (0..size).map(|i| (i * 7 + i / 251 + i / 32768) as u8).collect(),
        2 => (0..size).map(|i| if i % BS == 0 { 1 } else { 0 }).collect(),
        k => {
            let mut x = 0x9E3779B97F4A7C15u64.wrapping_mul(k as u64 + 1);
            (0..size)
                .map(|_| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    x as u8
                })
                .collect()
        }
    }
}
