//! C01: a scan describes the directory tree exactly.
use crate::common::*;
use kit::ctx::{violation, Ctx};
use crate::universe::{self, Size};
use kit::hash::Ht;
use kit::interpose::{Act, Call, Env, Op};
use kit::json::{brief, show};
use kit::model::*;
use std::path::Path;

/// Reports opens of anything that is neither a regular file nor a directory.
struct Opens<'a> {
    root: &'a [u8],
    tree: &'a Node,
}

fn lookup<'a>(tree: &'a Node, rel: &[u8]) -> Option<&'a Node> {
    let mut n = tree;
    for c in rel.split(|&b| b == b'/').filter(|c| !c.is_empty()) {
        n = match n {
            Node::Dir(m) => m.get(c)?,
            _ => return None,
        };
    }
    Some(n)
}

impl<'a> Env for Opens<'a> {
    fn call(&mut self, c: &Call) -> Act {
        if c.op == Op::Open && c.flags & libc::O_PATH == 0 {
            let p = c.path();
            if p.len() < 4000 && p.starts_with(self.root) {
                if let Some(n) = lookup(self.tree, &p[self.root.len()..]) {
                    match n {
                        Node::Dir(_) | Node::File { .. } => {}
                        _ => violation(&format!("{:?} at {} is opened", n, show(&p))),
                    }
                }
            }
        }
        Act::Pass
    }
}

pub fn one(ctx: &mut Ctx, tree: &Node, hts: &[Ht]) {
    let root = ctx.fresh("t");
    make(tree, &root);
    for &h in hts {
        let o = Opts::new(h);
        let rb = std::os::unix::ffi::OsStrExt::as_bytes(root.as_os_str()).to_vec();
        let mut env = Opens { root: &rb, tree };
        let s = scan_env(&[(&root, "/")], &o, &mut env, None);
        judge(ctx, &s, tree, &o, "scan");
        ctx.eval();
        ctx.distinct(tree_id(tree) ^ h as u64);
    }
    ctx.sample(|| format!("{:?} -> {}", tree, brief(&index(tree, hts[0]))));
    wipe(&root);
}


pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "every tree of the listed universes is created on disk, scanned with the real library and compared byte for byte with the index computed by the reference model; a case is one (tree, hash type), distinct by tree structure, names, content and hash type");
    ctx.text("universes", &format!("{}; a file of 2^32+1 bytes; files of all 4096 modes and directories of all 512 permissions; names other programs treat specially, as files, directories, links and link targets", universe::TEXT));
    ctx.text("assumptions", "tree on a tmpfs scratch file system | reading as root: permission bits never deny access");
    universe::all(ctx, Size::Full, &mut one);
    ctx.case(|| "E root given as a path through a link, with trailing slash and relative".into(), |ctx| {
        let t = Node::dir().with(b"x", Node::file(b"1")).with(b"d", Node::dir().with(b"y", Node::link(b"x")));
        let root = ctx.fresh("t");
        make(&t, &root);
        let l = ctx.fresh("ln");
        std::os::unix::fs::symlink(&root, &l).unwrap();
        for pth in [root.join("."), root.join(""), l.join(""), root.join("d/..")] {
            let o = Opts::new(Ht::Sha);
            let s = scan(&pth, &o);
            judge(ctx, &s, &t, &o, "scan of an aliased root");
            ctx.eval();
        }
        wipe(&l);
        wipe(&root);
    });
    for (name, t) in special() {
        ctx.case(|| format!("E {}", name), |ctx| one(ctx, &t, &[Ht::Sha, Ht::B2, Ht::B3]));
    }
    ctx.case(|| "E every mode of files and directories".into(), |ctx| {
        // (reading as root: no bit denies access)
        let mut t = Node::dir();
        for mode in 0..0o10000u32 {
            let exe = mode & 0o100 != 0;
            let body = if mode % 3 == 0 { &b""[..] } else { b"m" };
            t = t.with(format!("f{:04o}", mode).as_bytes(), if exe { Node::exe(body) } else { Node::file(body) });
        }
        for mode in 0..0o10000u32 {
            if mode & 0o7000 == 0 || mode & 0o777 == 0o755 || mode & 0o777 == 0 {
                t = t.with(format!("d{:04o}", mode).as_bytes(), Node::dir().with(b"x", Node::file(b"1")));
            }
        }
        let root = ctx.fresh("t");
        make(&t, &root);
        if let Node::Dir(m) = &t {
            for n in m.keys() {
                use std::os::unix::ffi::OsStrExt;
                let mode = u32::from_str_radix(std::str::from_utf8(&n[1..]).unwrap(), 8).unwrap();
                let p = std::ffi::CString::new(root.join(std::ffi::OsStr::from_bytes(n)).as_os_str().as_bytes()).unwrap();
                assert_eq!(unsafe { libc::chmod(p.as_ptr(), mode) }, 0);
            }
        }
        // without the right to ignore permission bits there is nothing to see
        let allowed = std::fs::File::open(root.join("f0000")).is_ok() && std::fs::read_dir(root.join("d0000")).is_ok();
        for threads in [0usize, 2] {
            if !allowed {
                break;
            }
            let o = Opts::new(Ht::Sha).threads(threads);
            let s = scan(&root, &o);
            judge(ctx, &s, &t, &o, "scan of all modes");
            ctx.eval();
        }
        if let Node::Dir(m) = &t {
            for n in m.keys().filter(|n| n[0] == b'd') {
                use std::os::unix::ffi::OsStrExt;
                let p = std::ffi::CString::new(root.join(std::ffi::OsStr::from_bytes(n)).as_os_str().as_bytes()).unwrap();
                unsafe { libc::chmod(p.as_ptr(), 0o755) };
            }
        }
        wipe(&root);
    });
    for h in [Ht::Sha, Ht::B2] {
        ctx.case(|| format!("E hard links, holes and old times, {:?}", h), |ctx| {
            let root = ctx.fresh("t");
            let mut holes = content(40 * BS + 100, 5);
            for i in [3usize, 4, 5, 9, 20, 38, 39] {
                holes[i * BS..(i + 1) * BS].fill(0);
            }
            let one = Node::file(&content(3 * BS, 5));
            let t = Node::dir()
                .with(b"a", one.clone())
                .with(b"b", one.clone())
                .with(b"empty", Node::file(b""))
                .with(b"empty2", Node::file(b""))
                .with(b"s", Node::link(b"a"))
                .with(b"d", Node::dir().with(b"a", one.clone()).with(b"holes", Node::file(&holes)).with(b"tail", Node::file(&vec![0; 5 * BS + 1])))
                .with(b"e", Node::dir().with(b"a", one));
            make(&t, &root);
            for l in ["b", "d/a", "e/a"] {
                std::fs::remove_file(root.join(l)).unwrap();
                std::fs::hard_link(root.join("a"), root.join(l)).unwrap();
            }
            std::fs::remove_file(root.join("empty2")).unwrap();
            std::fs::hard_link(root.join("empty"), root.join("empty2")).unwrap();
            // rewrite with real holes
            {
                use std::os::unix::fs::FileExt;
                let f = std::fs::File::create(root.join("d/holes")).unwrap();
                for (i, b) in holes.chunks(BS).enumerate() {
                    if b.iter().any(|&x| x != 0) {
                        f.write_all_at(b, (i * BS) as u64).unwrap();
                    }
                }
                f.set_len(holes.len() as u64).unwrap();
                std::fs::File::create(root.join("d/tail")).and_then(|f| f.set_len(5 * BS as u64 + 1)).unwrap();
            }
            for p in ["a", "d/holes", "empty"] {
                let times = std::fs::FileTimes::new().set_modified(std::time::UNIX_EPOCH).set_accessed(std::time::UNIX_EPOCH);
                std::fs::File::open(root.join(p)).and_then(|f| f.set_times(times)).unwrap();
            }
            for threads in [0, 2] {
                let o = Opts::new(h).threads(threads);
                let s = scan(&root, &o);
                judge(ctx, &s, &t, &o, "scan of hard links and holes");
                ctx.eval();
            }
            wipe(&root);
        });
    }
    crate::huge::scan_case(ctx, Ht::Sha, 0);
    ctx.case(|| "F path longer than PATH_MAX".into(), |ctx| {
        long_path(ctx);
    });
}

/// Names other programs treat specially.
fn special() -> Vec<(String, Node)> {
    let names: &[&str] = &[
        "lost+found", ".git", ".gitignore", ".svn", ".hg", "CVS", ".DS_Store", "Thumbs.db", "desktop.ini", "core", "core.1", ".nfs0001", ".fuse_hidden0001", ".Trash", ".trash-0", "$RECYCLE.BIN", "System Volume Information", "x.tmp", "x~", "~", "#x#", ".#x", "x.swp", ".x.swp", "x.bak", "x.orig", "x.rej", "x.lock", "x.part", "x.pyc", "__pycache__", "node_modules", "target", ".cache", "proc", "sys", "dev", "tmp", "index", "index.ds1", "x.ds1", "x.sock", "S.gpg-agent", "x.pipe", "x.fifo", "x.so", "DIRSIGNATURE", "DIRSIGNATURE.v1", ".ds1", "...", "..x", ".. ", ". ", "-", "--", "-x", "*", "?", "[a]", "%", "%s", "%20", "\\", "\\x20", "\\n", "|", "<", ">", "&", ";", "'", "\"", "`", "$HOME", "~root", "CON", "NUL", "aux", "COM1", "a:b", "a=b", "a,b", "0", "00", "-1", "1e9", "null", "true", "\u{feff}", "\u{202e}", "e\u{301}", "\u{e9}", "\u{a0}", "\u{2028}", "\u{1f600}", "A", "a", "ẞ", "ß", "ss",
    ];
    let mut v = Vec::new();
    let mut files = Node::dir();
    let mut dirs = Node::dir();
    let mut links = Node::dir();
    let mut targets = Node::dir();
    let mut others = Node::dir();
    for (i, n) in names.iter().enumerate() {
        files = files.with(n.as_bytes(), if i % 2 == 0 { Node::file(n.as_bytes()) } else { Node::exe(b"") });
        dirs = dirs.with(n.as_bytes(), if i % 3 == 0 { Node::dir() } else { Node::dir().with(n.as_bytes(), Node::file(b"1")).with(b"d", Node::dir().with(n.as_bytes(), Node::dir())) });
        links = links.with(n.as_bytes(), Node::link(b"t"));
        others = others.with(n.as_bytes(), if i % 2 == 0 { Node::Fifo } else { Node::Sock }).with(format!("x{}", i).as_bytes(), Node::Dir([(n.as_bytes().to_vec(), if i % 2 == 1 { Node::Fifo } else { Node::Sock })].into_iter().collect()));
        targets = targets.with(format!("l{:03}", i).as_bytes(), Node::link(n.as_bytes()));
    }
    v.push(("special names of files".to_string(), files));
    v.push(("special names of directories".to_string(), dirs));
    v.push(("special names of links".to_string(), links));
    v.push(("special names of pipes and sockets".to_string(), others));
    v.push(("special link targets".to_string(), targets));
    v
}

/// A chain whose full path exceeds PATH_MAX, built with relative calls.
fn long_path(ctx: &mut Ctx) {
    let root = ctx.fresh("t");
    std::fs::create_dir(&root).unwrap();
    let name = vec![b'p'; 200];
    let depth = 25;
    let c = std::ffi::CString::new(name.clone()).unwrap();
    let base = std::ffi::CString::new(std::os::unix::ffi::OsStrExt::as_bytes(root.as_os_str())).unwrap();
    let mut t = Node::dir().with(b"end", Node::file(b"end"));
    unsafe {
        let mut fds = vec![libc::open(base.as_ptr(), libc::O_PATH | libc::O_DIRECTORY, 0)];
        for _ in 0..depth {
            let d = *fds.last().unwrap();
            assert_eq!(libc::mkdirat(d, c.as_ptr(), 0o755), 0);
            fds.push(libc::openat(d, c.as_ptr(), libc::O_PATH | libc::O_DIRECTORY, 0));
        }
        let f = libc::openat(*fds.last().unwrap(), c"end".as_ptr(), libc::O_CREAT | libc::O_WRONLY, 0o644);
        assert!(f >= 0);
        assert_eq!(libc::write(f, b"end".as_ptr() as *const _, 3), 3);
        libc::close(f);
        for fd in fds {
            libc::close(fd);
        }
    }
    for _ in 0..depth {
        t = Node::dir().with(&name, t);
    }
    let o = Opts::new(Ht::Sha);
    let s = scan(Path::new(&root), &o);
    judge(ctx, &s, &t, &o, "scan of a path longer than PATH_MAX");
    ctx.eval();
    wipe(&root);
}
