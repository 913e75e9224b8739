//! Changes made to the tree while it is being scanned.
use kit::interpose::{listing_key, Act, Call, DirEnt, Env, Op};
use kit::mc::explore::choose;
use kit::mc::label::USER;
use kit::model::*;
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub const LBL: u32 = USER + 41;

/// One change; paths are relative to the root of the tree.
#[derive(Clone, PartialEq)]
pub enum Mut {
    /// whatever is there is replaced by this node
    Put(Vec<u8>, Node),
    Remove(Vec<u8>),
    /// move, replacing what is there
    Rename(Vec<u8>, Vec<u8>),
    Swap(Vec<u8>, Vec<u8>),
    /// the same file gets other content
    Data(Vec<u8>, Vec<u8>),
    Chmod(Vec<u8>, u32),
    /// moved out of the tree, with a symbolic link left behind
    Away(Vec<u8>, Vec<u8>),
    /// and back again
    Back(Vec<u8>),
}

impl std::fmt::Debug for Mut {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let s = kit::json::show;
        match self {
            Mut::Put(p, n) => write!(f, "{} becomes {:?}", s(p), n),
            Mut::Remove(p) => write!(f, "{} is removed", s(p)),
            Mut::Rename(a, b) => write!(f, "{} is renamed to {}", s(a), s(b)),
            Mut::Swap(a, b) => write!(f, "{} and {} change places", s(a), s(b)),
            Mut::Data(p, d) => write!(f, "{} gets {} bytes", s(p), d.len()),
            Mut::Chmod(p, m) => write!(f, "{} gets mode {:o}", s(p), m),
            Mut::Away(p, t) => write!(f, "{} is replaced by a link to {}", s(p), s(t)),
            Mut::Back(p) => write!(f, "{} is put back", s(p)),
        }
    }
}

fn parent(p: &[u8]) -> &[u8] {
    match p.iter().rposition(|&b| b == b'/') {
        Some(i) => &p[..i],
        None => b"",
    }
}

impl Mut {
    pub fn paths(&self) -> Vec<&[u8]> {
        match self {
            Mut::Put(p, _) | Mut::Remove(p) | Mut::Data(p, _) | Mut::Chmod(p, _) | Mut::Away(p, _) | Mut::Back(p) => vec![p],
            Mut::Rename(a, b) | Mut::Swap(a, b) => vec![a, b],
        }
    }
    /// Does the change stay inside the tree as it is now (no component of a
    /// path's directory is a link or missing)?
    fn inside(&self, root: &Path) -> bool {
        self.paths().iter().all(|p| {
            let mut d = parent(p);
            while !d.is_empty() {
                match fs::symlink_metadata(root.join(os(d))) {
                    Ok(m) if m.is_dir() => {}
                    _ => return false,
                }
                d = parent(d);
            }
            p.is_empty() || matches!(fs::symlink_metadata(root), Ok(m) if m.is_dir())
        })
    }
    /// Do it. False if it cannot be done in the present state.
    pub fn apply(&self, root: &Path, attic: &Path) -> bool {
        if !self.inside(root) {
            return false;
        }
        let at = |p: &[u8]| if p.is_empty() { root.to_path_buf() } else { root.join(os(p)) };
        let there = |p: &[u8]| fs::symlink_metadata(at(p)).is_ok();
        let store = |p: &[u8]| attic.join(kit::hash::hex(p));
        match self {
            Mut::Put(p, n) => {
                wipe(&at(p));
                make(n, &at(p));
                true
            }
            Mut::Remove(p) => {
                let r = there(p);
                wipe(&at(p));
                r
            }
            Mut::Rename(a, b) => {
                if !there(a) || b.starts_with(&[&a[..], b"/"].concat()) || a.starts_with(&[&b[..], b"/"].concat()) || a == b {
                    return false;
                }
                wipe(&at(b));
                fs::rename(at(a), at(b)).unwrap();
                true
            }
            Mut::Swap(a, b) => {
                if !there(a) || !there(b) {
                    return false;
                }
                let t = attic.join("swap");
                fs::rename(at(a), &t).unwrap();
                fs::rename(at(b), at(a)).unwrap();
                fs::rename(&t, at(b)).unwrap();
                true
            }
            Mut::Data(p, d) => {
                if !matches!(fs::symlink_metadata(at(p)), Ok(m) if m.is_file()) {
                    return false;
                }
                let mut f = fs::OpenOptions::new().write(true).open(at(p)).unwrap();
                f.set_len(d.len() as u64).unwrap();
                f.write_all(d).unwrap();
                true
            }
            Mut::Chmod(p, m) => {
                if !matches!(fs::symlink_metadata(at(p)), Ok(m) if m.is_file()) {
                    return false;
                }
                fs::set_permissions(at(p), fs::Permissions::from_mode(*m)).unwrap();
                true
            }
            Mut::Away(p, t) => {
                if !there(p) || store(p).exists() || fs::symlink_metadata(store(p)).is_ok() {
                    return false;
                }
                fs::rename(at(p), store(p)).unwrap();
                std::os::unix::fs::symlink(os(t), at(p)).unwrap();
                true
            }
            Mut::Back(p) => {
                if fs::symlink_metadata(store(p)).is_err() || fs::read_link(at(p)).is_err() {
                    return false;
                }
                fs::remove_file(at(p)).unwrap();
                fs::rename(store(p), at(p)).unwrap();
                true
            }
        }
    }
    /// The same on the model. False if it cannot be done.
    pub fn model(&self, t: &mut Node) -> bool {
        match self {
            Mut::Put(p, n) => put(t, p, n.clone()),
            Mut::Remove(p) => take(t, p).is_some(),
            Mut::Rename(a, b) => match take(t, a) {
                Some(n) => put(t, b, n),
                None => false,
            },
            Mut::Swap(a, b) => match (take(t, a), take(t, b)) {
                (Some(x), Some(y)) => put(t, a, y) && put(t, b, x),
                _ => false,
            },
            Mut::Data(p, d) => match take(t, p) {
                Some(Node::File { mode, .. }) => put(t, p, Node::File { data: Rc::new(d.clone()), mode }),
                _ => false,
            },
            Mut::Chmod(p, m) => match take(t, p) {
                Some(Node::File { data, .. }) => put(t, p, Node::File { data, mode: *m }),
                _ => false,
            },
            Mut::Away(p, l) => {
                if p.is_empty() {
                    return true; // the tree itself does not change
                }
                take(t, p).is_some() && put(t, p, Node::Link(l.clone()))
            }
            Mut::Back(_) => true,
        }
    }
}

fn holder<'a>(t: &'a mut Node, p: &[u8]) -> Option<(&'a mut BTreeMap<Vec<u8>, Node>, Vec<u8>)> {
    let mut parts: Vec<&[u8]> = p.split(|&b| b == b'/').collect();
    let last = parts.pop()?.to_vec();
    let mut cur = t;
    for part in parts {
        match cur {
            Node::Dir(m) => cur = m.get_mut(part)?,
            _ => return None,
        }
    }
    match cur {
        Node::Dir(m) => Some((m, last)),
        _ => None,
    }
}
fn take(t: &mut Node, p: &[u8]) -> Option<Node> {
    let (m, n) = holder(t, p)?;
    m.remove(&n)
}
fn put(t: &mut Node, p: &[u8], x: Node) -> bool {
    match holder(t, p) {
        Some((m, n)) => {
            m.insert(n, x);
            true
        }
        None => false,
    }
}

/// Relative paths of all nodes, directories marked.
pub fn nodes(t: &Node) -> Vec<(Vec<u8>, Node)> {
    fn rec(t: &Node, at: &[u8], out: &mut Vec<(Vec<u8>, Node)>) {
        if let Node::Dir(m) = t {
            for (k, v) in m {
                let mut p = at.to_vec();
                if !p.is_empty() {
                    p.push(b'/');
                }
                p.extend_from_slice(k);
                out.push((p.clone(), v.clone()));
                rec(v, &p, out);
            }
        }
    }
    let mut v = Vec::new();
    rec(t, b"", &mut v);
    v
}

/// Makes changes at system calls as the explorer decides.
pub struct Races<'a> {
    pub root: PathBuf,
    pub attic: PathBuf,
    pub muts: &'a [Mut],
    pub done: Vec<usize>,
    /// changes become visible in listings already begun
    pub live: bool,
    pub unknown: bool,
    /// nothing below may be opened
    pub outside: Option<Vec<u8>>,
    pub leaks: Vec<String>,
    /// the tree's root has been opened
    pub opened: bool,
    /// opening a fifo that replaced a file would block
    pub blocked: Option<Vec<u8>>,
    stale: bool,
    root_bytes: Vec<u8>,
}

impl<'a> Races<'a> {
    pub fn new(root: &Path, attic: &Path, muts: &'a [Mut]) -> Races<'a> {
        Races {
            root: root.to_path_buf(),
            attic: attic.to_path_buf(),
            muts,
            done: vec![],
            live: false,
            unknown: false,
            outside: None,
            leaks: vec![],
            opened: false,
            blocked: None,
            stale: false,
            root_bytes: root.as_os_str().as_bytes().to_vec(),
        }
    }
    pub fn what(&self) -> Vec<&Mut> {
        self.done.iter().map(|&i| &self.muts[i]).collect()
    }
}

impl<'a> Env for Races<'a> {
    fn call(&mut self, c: &Call) -> Act {
        if matches!(c.op, Op::Close | Op::Write) || !self.opened || c.name.map_or(false, |n| n.starts_with(b"/proc/")) {
            return Act::Pass;
        }
        let k = choose(self.muts.len() + 1, 1, LBL);
        if k > 0 && self.muts[k - 1].apply(&self.root, &self.attic) {
            self.done.push(k - 1);
            self.stale = true;
        }
        if c.op == Op::Open && c.flags & (libc::O_PATH | libc::O_NONBLOCK | libc::O_DIRECTORY) == 0 {
            // would it wait for a writer?
            use std::os::unix::fs::FileTypeExt;
            let path = p(&c.path());
            let m = if c.flags & libc::O_NOFOLLOW != 0 { fs::symlink_metadata(&path) } else { fs::metadata(&path) };
            if matches!(m, Ok(m) if m.file_type().is_fifo()) {
                self.blocked = Some(c.path());
                return Act::Fail(libc::ENXIO);
            }
        }
        Act::Pass
    }
    fn ret(&mut self, c: &Call, res: isize) {
        if c.op != Op::Open || res < 0 {
            return;
        }
        let path = kit::interpose::fd_path(res as i32);
        if path == self.root_bytes {
            self.opened = true;
        }
        if let Some(o) = &self.outside {
            if c.flags & libc::O_PATH == 0 && path.starts_with(o) {
                self.leaks.push(String::from_utf8_lossy(&path).into_owned());
            }
        }
    }
    fn arrange(&mut self, _dir: &[u8], ents: &mut Vec<DirEnt>) {
        if self.unknown {
            for e in ents.iter_mut() {
                e.dtype = libc::DT_UNKNOWN;
            }
        }
    }
    fn relist(&mut self, fd: i32, ents: &mut Vec<DirEnt>, pos: usize) {
        if !self.live || !self.stale {
            return;
        }
        let last = if pos > 0 { ents[pos - 1].name.clone() } else { vec![] };
        let dots = pos <= 2;
        ents.truncate(pos.max(2));
        let rd = match fs::read_dir(format!("/proc/self/fd/{}", fd)) {
            Ok(rd) => rd,
            Err(_) => return,
        };
        let mut more: Vec<DirEnt> = rd
            .filter_map(|e| {
                use std::os::unix::fs::{DirEntryExt, FileTypeExt};
                let e = e.ok()?;
                let t = e.file_type().ok()?;
                let dtype = if self.unknown {
                    libc::DT_UNKNOWN
                } else if t.is_dir() {
                    libc::DT_DIR
                } else if t.is_symlink() {
                    libc::DT_LNK
                } else if t.is_fifo() {
                    libc::DT_FIFO
                } else {
                    libc::DT_REG
                };
                Some(DirEnt { name: e.file_name().as_bytes().to_vec(), ino: e.ino(), dtype })
            })
            .filter(|e| dots || listing_key(&e.name) > listing_key(&last))
            .collect();
        more.sort_by_key(|e| listing_key(&e.name));
        ents.extend(more);
    }
}
