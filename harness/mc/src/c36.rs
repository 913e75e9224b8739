//! C36: a hash type has one name, and means the same everywhere.
use crate::common::*;
use dir_signature::v1::{Emitter, Entry, Hashes, Parser};
use dir_signature::{get_hash, HashType};
use kit::ctx::{broken, cut, verif_dir, violation, Ctx};
use kit::hash::{digest, fnv, hex, Ht, ALL};
use kit::interpose::NoEnv;
use kit::json::show;
use kit::model::*;
use std::collections::BTreeSet;
use std::ffi::OsStr;
use std::hash::{Hash, Hasher};
use std::io::Cursor;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::str::FromStr;

fn named(n: &[u8]) -> Option<Ht> {
    ALL.into_iter().find(|h| h.name().as_bytes() == n)
}

/// The names, what one edit (or two) makes of them, and what others call such hashes.
fn names(two: bool) -> Vec<Vec<u8>> {
    let edits = |n: &[u8], alphabet: &[u8]| {
        let mut v: Vec<Vec<u8>> = Vec::new();
        for i in 0..=n.len() {
            for &c in alphabet {
                let mut w = n.to_vec();
                w.insert(i, c);
                v.push(w);
                if i < n.len() {
                    let mut w = n.to_vec();
                    w[i] = c;
                    v.push(w);
                }
            }
            if i < n.len() {
                let mut w = n.to_vec();
                w.remove(i);
                v.push(w);
                v.push(n[..i].to_vec());
                v.push(n[i..].to_vec());
                if i + 1 < n.len() {
                    let mut w = n.to_vec();
                    w.swap(i, i + 1);
                    v.push(w);
                }
            }
        }
        v
    };
    let all: Vec<u8> = (0..=255).collect();
    let mut s: BTreeSet<Vec<u8>> = BTreeSet::new();
    for h in ALL {
        let n = h.name().as_bytes();
        s.insert(n.to_vec());
        s.insert(n.to_ascii_uppercase());
        s.insert([n, n].concat());
        s.insert([n, b"/", n].concat());
        for e in edits(n, &all) {
            if two {
                s.extend(edits(&e, b"0123456abehklsS/-_.: "));
            }
            s.insert(e);
        }
        for g in ALL {
            let g = g.name().as_bytes();
            for i in 0..=n.len() {
                s.insert([&n[..i], &g[i.min(g.len())..]].concat());
            }
        }
    }
    for a in ["sha", "sha1", "sha2", "sha3", "sha224", "sha256", "sha384", "sha512", "SHA512", "Sha512", "sha-512", "sha512t", "sha512-256", "sha512_256", "sha512256", "blake", "blake2", "blake2b", "BLAKE2b", "Blake2b", "blake2s", "blake2bp", "b2", "b2sum", "blake3", "BLAKE3", "b3", "b3sum", "md5", "crc32", "none", "default", "auto"] {
        for b in ["", "/", "/0", "/1", "/8", "/32", "/64", "/128", "/160", "/224", "/255", "/256", "/257", "/384", "/512", "-256", "_256", ":256", ".256", "(256)", " 256", "256", "/0256", "/256.", "/ 256", "/+256", "/0x100"] {
            s.insert(format!("{}{}", a, b).into_bytes());
        }
    }
    for a in 0..=255u8 {
        s.insert(vec![a]);
        for b in 0..=255u8 {
            s.insert(vec![a, b]);
        }
    }
    s.insert(vec![]);
    s.into_iter().collect()
}

fn judge_name(ctx: &mut Ctx, n: &[u8]) {
    let want = named(n);
    let fail = |what: &str, got: String| -> ! { violation(&format!("{}: hash name {} gives {} instead of {:?}", what, show(n), got, want)) };
    if let Ok(t) = std::str::from_utf8(n) {
        match cut(|| HashType::from_str(t)) {
            Ok(Ok(v)) if want.map(ht) == Some(v) => {}
            Ok(Err(dir_signature::Error::UnsupportedHash)) if want.is_none() => {}
            r => fail("HashType::from_str", format!("{:?}", r)),
        }
        ctx.eval();
    }
    // as the second word of a header
    let space = match std::str::from_utf8(n) {
        Ok(t) => t.chars().any(|c| c.is_whitespace()),
        Err(_) => n.iter().any(|c| c.is_ascii_whitespace()),
    };
    if space || n.is_empty() {
        return;
    }
    let text = [b"DIRSIGNATURE.v1 ", n, b" block_size=32768\n/\n", "0f".repeat(32).as_bytes(), b"\n"].concat();
    match cut(|| Parser::new(Cursor::new(&text[..])).map(|p| p.get_header().get_hash_type())) {
        Ok(Ok(v)) if want.map(ht) == Some(v) => {}
        Ok(Err(_)) if want.is_none() => {}
        r => fail("Parser::new", format!("{:?}", r)),
    }
    match cut(|| get_hash(&mut Cursor::new(&text[..]))) {
        Ok(Ok(v)) if want.is_some() && v == [15u8; 32] => {}
        Ok(Err(_)) if want.is_none() => {}
        r => fail("get_hash", format!("{:?}", r)),
    }
    ctx.eval();
    ctx.distinct(fnv(n));
}

fn command(root: &Path, n: &[u8], joined: bool) -> (Option<i32>, Vec<u8>, Vec<u8>) {
    let exe = verif_dir().join("target/cli/debug/index");
    if !exe.exists() {
        broken("the command is not built");
    }
    let mut c = Command::new(exe);
    c.env_clear().stdin(Stdio::null()).args(["-q", "-t", "0"]);
    if joined {
        c.arg(OsStr::from_bytes(&[b"--hash=", n].concat()));
    } else {
        c.arg("--hash").arg(OsStr::from_bytes(n));
    }
    let o = c.arg(root).output().unwrap_or_else(|e| broken(&format!("cannot start the command: {}", e)));
    (o.status.code(), o.stdout, o.stderr)
}

pub fn run(ctx: &mut Ctx) {
    ctx.text("rule", "an evaluation is one name given to HashType::from_str, to the parser and get_hash in a header, or to the index command: only the three exact names are accepted, as the type they name; or one comparison of what a type means in scan, emitter, parser, hash_file, check_file, get_hash and the command with independent digests");
    ctx.text("bounds", "the three names with every single edit over all 256 bytes (thorough: and a second one over 20 characters), all mixtures of two names, 800 names that others use, all strings of up to 2 bytes; the command: every single edit over printable characters; all pairs of types");
    ctx.text("assumptions", "names with white space inside a header are left to C17");
    let list = names(ctx.thorough());
    for (i, part) in list.chunks(5000).enumerate() {
        ctx.case(|| format!("names, part {}", i), |ctx| {
            for n in part {
                judge_name(ctx, n);
            }
            ctx.sample(|| show(&part[part.len() / 2]));
        });
    }
    // the command
    let few: Vec<&Vec<u8>> = list.iter().filter(|n| n.len() > 3 && n.len() < 16 && n.iter().all(|c| (0x20..0x7f).contains(c))).filter(|n| ctx_near(n)).collect();
    for (i, part) in few.chunks(100).enumerate() {
        ctx.case(|| format!("names for the command, part {}", i), |ctx| {
            let root = ctx.fresh("t");
            let t = Node::dir().with(b"f", Node::file(b"1"));
            make(&t, &root);
            for n in part {
                let (code, out, err) = command(&root, n, i % 2 == 1);
                let fine = match named(n) {
                    Some(h) => code == Some(0) && out == index(&t, h),
                    None => code != Some(0) && out.is_empty() && !err.is_empty(),
                };
                if !fine {
                    violation(&format!("index --hash {}: exit {:?}, stdout {}, stderr {}", show(n), code, show(&out), show(&err)));
                }
                ctx.eval();
                ctx.beat();
            }
            wipe(&root);
        });
    }
    // what each means
    for h in ALL {
        ctx.case(|| format!("meaning of {:?}", h), |ctx| {
            let root = ctx.fresh("t");
            let data = content(1000, 7);
            let t = Node::dir().with(b"f", Node::file(&data));
            make(&t, &root);
            let typ = ht(h);
            let bad = |what: &str| -> ! { violation(&format!("{} is not what {} means", what, h.name())) };
            if typ.to_string() != h.name() || format!("{:>14}|{:<14}|{:.3}", typ, typ, typ) != format!("{:>14}|{:<14}|{:.3}", h.name(), h.name(), h.name()) {
                bad(&format!("the text {:?}", typ.to_string()));
            }
            if typ.output_bytes() != 32 {
                bad("the number of bytes");
            }
            let of = |t: HashType| {
                let mut s = std::collections::hash_map::DefaultHasher::new();
                t.hash(&mut s);
                s.finish()
            };
            for g in ALL {
                if (ht(g) == typ) != (g == h) || g == h && of(ht(g)) != of(typ) {
                    bad("equality");
                }
                let mut c = dir_signature::ScannerConfig::new();
                // the last one counts
                c.hash(ht(g)).hash(typ).add_dir(&root, "/");
                let mut out = Vec::new();
                kit::interpose::with_env(&mut NoEnv, || dir_signature::v1::scan(&c, &mut out)).unwrap_or_else(|e| violation(&format!("scan fails: {}", e)));
                if out != index(&t, h) {
                    bad("what a scan writes");
                }
                ctx.eval();
            }
            for threads in [0, 1, 2] {
                let s = scan_env(&[(&root, "/")], &Opts::new(h).threads(threads), &mut NoEnv, None);
                judge(ctx, &s, &t, &Opts::new(h).threads(threads), "scan");
            }
            let d = digest(h, &data);
            let mut mine = Hashes::hash_file(typ, 32768, &data[..]).unwrap().1;
            if mine.hash_type() != typ || mine.iter().collect::<Vec<_>>() != [&d[..]] || !mine.check_file(&data[..]).unwrap() {
                bad("hash_file or check_file");
            }
            for g in ALL {
                let m = Hashes::hash_file(ht(g), 32768, &data[..]).unwrap().1;
                if (m == mine) != (g == h) {
                    bad("equality of hashes");
                }
                ctx.eval();
            }
            let mut out = Vec::new();
            {
                let mut e = Emitter::new(typ, 32768, &mut out).unwrap();
                e.start_dir(Path::new("/")).unwrap();
                e.add_file(OsStr::new("f"), false, 1000, &mine).unwrap();
                e.finish().unwrap();
            }
            if out != index(&t, h) {
                bad("what the emitter writes");
            }
            let body: usize = out.iter().position(|&c| c == b'\n').unwrap() + 1;
            if get_hash(&mut Cursor::new(&out[..])).unwrap() != digest(h, &out[body..out.len() - 65]) {
                // the footer is the checksum of everything after the header
                bad("the footer");
            }
            let mut p = Parser::new(Cursor::new(&out[..])).unwrap();
            if p.get_header().get_hash_type() != typ {
                bad("the header");
            }
            for e in p.iter() {
                if let Entry::File { hashes, .. } = e.unwrap() {
                    mine = hashes;
                }
            }
            if mine.hash_type() != typ || !mine.check_file(&data[..]).unwrap() || mine.check_file(&data[1..]).unwrap() || hex(mine.get(0).unwrap()) != hex(&d) {
                bad("a parsed hash");
            }
            for joined in [false, true] {
                let (code, got, _) = command(&root, h.name().as_bytes(), joined);
                if code != Some(0) || got != out {
                    bad("what the command writes");
                }
            }
            ctx.eval();
            ctx.distinct(h as u64);
            wipe(&root);
        });
    }
}

/// Worth a process: close to one of the names.
fn ctx_near(n: &[u8]) -> bool {
    ALL.into_iter().any(|h| {
        let m = h.name().as_bytes();
        let a = m.iter().zip(n).take_while(|(x, y)| x == y).count();
        let b = m.iter().rev().zip(n.iter().rev()).take_while(|(x, y)| x == y).count();
        a + b + 2 >= m.len() || n.starts_with(&m[..5])
    })
}
