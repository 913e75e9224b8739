//! The tree universes shared by several checks.
use kit::ctx::Ctx;
use kit::hash::{Ht, ALL};
use kit::json::{brief, show};
use kit::model::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn small_names() -> Vec<&'static [u8]> {
    vec![b"a", b"a-b", b"b"]
}

pub fn small_leaves() -> Vec<Node> {
    vec![Node::file(b""), Node::exe(b"xy"), Node::link(b"../a"), Node::Fifo]
}

/// Sizes around every boundary the block loop can have.
pub fn sizes(max_blocks: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 511, 512, 513, 1023, 1024, 1025, 8191, 8192, 8193, 16384];
    for k in 1..=max_blocks {
        for d in [-65i64, -1, 0, 1, 8191] {
            v.push((k as i64 * BS as i64 + d) as usize);
        }
    }
    v.sort();
    v.dedup();
    v
}

pub const TEXT: &str = "A: all trees of up to 4 (full: 5) nodes over names {a,a-b,b} and leaves {empty file, executable, link, fifo}; B: file sizes around every block boundary x 3 patterns x hash types, and all ordered pairs/triples of sizes; C: every single-byte name and all 2-byte (thorough: 3-byte) names over a special alphabet, as file, directory and link target; D: all 512 permission masks; E: node kinds (fifo, socket, dangling, absolute, self and 4095-byte links, hidden names, 65 names that tools treat in a special way); F: deep chains, paths longer than PATH_MAX, wide directories (full: up to 5000 entries, thorough: 70000; hundreds of directories of directories), 255-byte names";

#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    Small,
    Full,
}

/// Enumerate the universes; `one` gets a tree and the hash types to use.
pub fn all(ctx: &mut Ctx, size: Size, one: &mut dyn FnMut(&mut Ctx, &Node, &[Ht])) {
    let full = size == Size::Full;
    // A
    let max = if full { 5 } else { ctx.pick(4, 5) };
    ctx.chunk(16);
    for n in 0..=max {
        for f in forests(n, &small_names(), &small_leaves()) {
            let t = Node::Dir(f);
            ctx.case(|| format!("A {:?}", t), |ctx| {
                if n <= 3 {
                    one(ctx, &t, &ALL)
                } else {
                    one(ctx, &t, &[Ht::Sha])
                }
            });
        }
    }
    ctx.chunk(1);
    // B single files
    for size in sizes(ctx.pick(4, 12)) {
        for kind in 0..3 {
            ctx.case(|| format!("B file of {} bytes, pattern {}", size, kind), |ctx| {
                let t = Node::dir().with(b"f", Node::file(&content(size, kind)));
                one(ctx, &t, &ALL);
            });
        }
    }
    // B2 ordered pairs and triples: state carried from one file to the next
    let few = [0usize, 1, BS - 1, BS, BS + 1, 2 * BS, 2 * BS + 5];
    for &a in &few {
        for &b in &few {
            ctx.case(|| format!("B pair {} {}", a, b), |ctx| {
                let t = Node::dir()
                    .with(b"1", Node::file(&content(a, 1)))
                    .with(b"2", Node::exe(&content(b, 3)));
                one(ctx, &t, &ALL);
            });
            for &c in &few[..ctx.pick(4, 7)] {
                ctx.case(|| format!("B triple {} {} {}", a, b, c), |ctx| {
                    let t = Node::dir()
                        .with(b"1", Node::file(&content(a, 1)))
                        .with(b"d", Node::dir().with(b"2", Node::file(&content(b, 3))))
                        .with(b"e", Node::dir().with(b"3", Node::file(&content(c, 4))));
                    one(ctx, &t, &[Ht::Sha, Ht::B2]);
                });
            }
        }
    }
    for mb in ctx.pick(vec![1usize, 3], vec![1, 3, 8, 17, 33]) {
        ctx.case(|| format!("B large {} MiB", mb), |ctx| {
            let t = Node::dir()
                .with(b"big", Node::file(&content((mb << 20) + 1, 5)))
                .with(b"z", Node::file(b"z"));
            one(ctx, &t, &[Ht::Sha, Ht::B2]);
        });
    }
    // C names
    let special: Vec<u8> = vec![1, 9, 10, 13, 27, 31, 32, 33, 45, 46, 47 + 1, 92, 120, 126, 127, 128, 0xC3, 0xA9, 0xFE, 0xFF];
    let mut names: Vec<Vec<u8>> = (1..=255u8).filter(|b| *b != b'/' && *b != b'.').map(|b| vec![b]).collect();
    for &a in &special {
        for &b in &special {
            if (a, b) != (b'.', b'.') {
                names.push(vec![a, b]);
            }
        }
    }
    for s in [&b"..."[..], b"..a", b".a", b"\\x41", b"\\x5c", b"\\x", b"a b c", b"f", b"x", b"s", b"  ", b"-", b"\xe2\x82\xac", b"a\nb", b"C:\\dir", b"a.", b"a..b"] {
        names.push(s.to_vec());
    }
    if ctx.thorough() {
        for &a in &special {
            for &b in &special {
                for &c in &special {
                    if (a, b, c) != (b'.', b'.', b'.') {
                        names.push(vec![a, b, c]);
                    }
                }
            }
        }
    }
    names.sort();
    names.dedup();
    ctx.chunk(4);
    for n in &names {
        ctx.case(|| format!("C name {}", show(n)), |ctx| {
            let t = Node::dir()
                .with(n, Node::file(b"1"))
                .with(b"A", Node::dir().with(n, Node::dir().with(n, Node::link(n)).with(b"q", Node::exe(b""))));
            one(ctx, &t, &[Ht::Sha]);
        });
    }
    // all names at once: order of a directory with every name
    ctx.case(|| "C all names in one directory".into(), |ctx| {
        let mut t = BTreeMap::new();
        for (i, n) in names.iter().enumerate() {
            t.insert(n.clone(), match i % 3 {
                0 => Node::file(n),
                1 => Node::dir().with(n, Node::file(b"1")),
                _ => Node::link(n),
            });
        }
        one(ctx, &Node::Dir(t), &[Ht::Sha, Ht::B2]);
    });
    // D modes
    ctx.chunk(8);
    for mode in 0..0o1000u32 {
        ctx.case(|| format!("D mode {:o}", mode), |ctx| {
            let mode = mode | 0o400; // readable by its owner
            let t = Node::dir()
                .with(b"m", Node::File { data: Rc::new(b"abc".to_vec()), mode })
                .with(b"e", Node::File { data: Rc::new(vec![]), mode });
            one(ctx, &t, &[Ht::Sha]);
        });
    }
    for hi in [0o1000u32, 0o2000, 0o4000, 0o7000] {
        for lo in [0o400u32, 0o500, 0o411, 0o777] {
            ctx.case(|| format!("D mode {:o}", hi | lo), |ctx| {
                let t = Node::dir().with(b"m", Node::File { data: Rc::new(b"abc".to_vec()), mode: hi | lo });
                one(ctx, &t, &[Ht::Sha]);
            });
        }
    }
    // E kinds
    ctx.chunk(1);
    let long = vec![b'l'; 4095];
    let mut long2 = Vec::new();
    while long2.len() < 4095 {
        long2.extend_from_slice(b"..\x01/");
    }
    long2.truncate(4095);
    let links: Vec<Vec<u8>> = vec![
        b"missing".to_vec(), b"/".to_vec(), b".".to_vec(), b"..".to_vec(), b"self".to_vec(), b"/etc/passwd".to_vec(),
        b"dir".to_vec(), b"dir/".to_vec(), b"f".to_vec(), b" ".to_vec(), b"\xff\xfe".to_vec(), b"a\nb".to_vec(),
        long, long2, vec![b'x'; 255], vec![b'y'; 256], vec![b'z'; 1024],
    ];
    for l in &links {
        ctx.case(|| format!("E link to {}", brief(l)), |ctx| {
            let t = Node::dir()
                .with(b"self", Node::link(l))
                .with(b"dir", Node::dir().with(b"l", Node::link(l)))
                .with(b"f", Node::file(b"f"));
            one(ctx, &t, &[Ht::Sha, Ht::B2]);
        });
    }
    ctx.case(|| "E special files everywhere".into(), |ctx| {
        let t = Node::dir()
            .with(b"a", Node::Fifo)
            .with(b"b", Node::Sock)
            .with(b"c", Node::dir().with(b"p", Node::Fifo).with(b"q", Node::file(b"q")).with(b"r", Node::Sock))
            .with(b"d", Node::dir().with(b"only", Node::Fifo))
            .with(b"e", Node::dir());
        one(ctx, &t, &ALL);
    });
    // names that tools like to treat in a special way
    const USUAL: &[&str] = &[".git", ".gitignore", ".svn", ".hg", "CVS", ".DS_Store", "Thumbs.db", "desktop.ini", "lost+found", ".Trash-0", ".nfs0001",
        ".~lock.x#", "x~", "#x#", ".#x", "x.tmp", "x.swp", ".x.swp", "x.bak", "x.orig", "x.part", "core", "a.out", "x.o", "x.pyc", "__pycache__",
        "node_modules", "target", ".cache", ".index", "index", "hash.sh", "DIRSIGNATURE", "DIRSIGNATURE.v1", "-", "--", "-x", "CON", "nul", "$x", "%x", "*", "?",
        "[a]", "a:b", "a=b", "a|b", "a;b", "a'b", "a\"b", "0", "-1", "f", "x", "s", "d", "tmp", "proc", "dev", "sys", "...", "....", ". ", " .", "..x"];
    for k in 0..4 {
        ctx.case(|| format!("E names in use, {}", k), |ctx| {
            let mut t = BTreeMap::new();
            let mut sub = BTreeMap::new();
            for (i, n) in USUAL.iter().enumerate() {
                t.insert(n.as_bytes().to_vec(), match (i + k) % 4 {
                    0 => Node::file(n.as_bytes()),
                    1 => Node::dir().with(b"in", Node::exe(n.as_bytes())).with(n.as_bytes(), Node::dir()),
                    2 => Node::link(n.as_bytes()),
                    _ => Node::exe(b""),
                });
                sub.insert(n.as_bytes().to_vec(), match (i + k) % 3 {
                    0 => Node::link(b"x"),
                    1 => Node::dir(),
                    _ => Node::file(b"1"),
                });
            }
            t.insert(b"sub".to_vec(), Node::Dir(sub));
            one(ctx, &Node::Dir(t), &[Ht::Sha]);
        });
    }
    // F shapes
    for depth in if full { ctx.pick(vec![5usize, 50, 120, 300, 1100], vec![5, 50, 120, 300, 700, 3000]) } else { ctx.pick(vec![5, 50, 120, 300], vec![5, 50, 120, 300, 700]) } {
        ctx.case(|| format!("F chain of depth {}", depth), |ctx| {
            let mut t = Node::dir().with(b"leaf", Node::file(b"leaf"));
            for i in 0..depth {
                t = Node::dir().with(format!("d{}", i % 3).as_bytes(), t).with(b"f", Node::file(b""));
            }
            one(ctx, &t, &[Ht::Sha]);
        });
    }
    ctx.case(|| "F paths longer than PATH_MAX".into(), |ctx| {
        let mut t = Node::dir().with(b"leaf", Node::exe(b"leaf")).with(b"l", Node::link(&[b'l'; 4095]));
        for i in 0..22u8 {
            t = Node::dir().with(&[b'a' + i; 255], t).with(b"f", Node::file(&[i])).with(&[b'z' - i; 254], Node::link(b"t"));
        }
        one(ctx, &t, &[Ht::Sha]);
    });
    ctx.case(|| "F 255-byte names".into(), |ctx| {
        let t = Node::dir()
            .with(&[b'n'; 255], Node::dir().with(&[b'm'; 255], Node::file(b"1")))
            .with(&[0xffu8; 255], Node::link(&[1u8; 255]));
        one(ctx, &t, &[Ht::Sha]);
    });
    let wide = if full { ctx.pick(vec![300usize, 5000], vec![300, 5000, 20000, 70000]) } else { ctx.pick(vec![300], vec![300, 5000]) };
    for (n, m) in if full { vec![(700usize, 1usize), (80, 40), (3, 1500)] } else { ctx.pick(vec![], vec![(700, 1), (3, 1500)]) } {
        ctx.case(|| format!("F {} directories of {} directories", n, m), |ctx| {
            let mut t = BTreeMap::new();
            for i in 0..n {
                let mut d = Node::dir();
                for j in 0..m {
                    d = d.with(format!("s{}", j).as_bytes(), Node::dir().with(b"x", Node::link(b"y")));
                }
                t.insert(format!("{}", i).into_bytes(), d.with(b"f", Node::file(b"1")));
            }
            one(ctx, &Node::Dir(t), &[Ht::Sha]);
        });
    }
    for n in wide {
        ctx.case(|| format!("F directory of {} entries", n), |ctx| {
            let mut t = BTreeMap::new();
            for i in 0..n {
                let name = format!("{}", i).into_bytes();
                t.insert(name, match i % 4 {
                    0 => Node::dir().with(b"x", Node::file(b"")),
                    1 => Node::link(b"1"),
                    _ if i % 61 == 60 => Node::Fifo,
                    _ => Node::file(&content(i, 1)),
                });
            }
            one(ctx, &Node::Dir(t), &[Ht::Sha]);
        });
    }
}
