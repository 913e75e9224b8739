S='src/v1/scan.rs'; W='src/v1/writer.rs'; T='src/v1/threaded_writer.rs'; P='src/v1/parser.rs'; M='src/v1/merge.rs'; E='src/v1/emitter.rs'; H='src/v1/hash.rs'; R='src/read.rs'; C='src/bin/index.rs'; G='src/v1/progress.rs'
PRE = r'''#![allow(dead_code, unused_imports)]
use dir_signature::{ScannerConfig, HashType, get_hash, v1};
use dir_signature::v1::{Parser, Entry, EntryKind, Emitter, Hashes};
use dir_signature::v1::merge::MergedSignatures;
use std::ffi::{CStr, OsStr};
use std::fs;
use std::io::{self, BufRead, Cursor, Read, Write};
use std::os::raw::{c_char, c_int, c_long};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicUsize, Ordering};
extern "C" { fn syscall(n: c_long, ...) -> c_long; }
const HASH: &str = "a79eef66019bfb9a41f798f2cff2d2d36ed294cc3f96bf53bbfc5192ebe60192";
const HEAD: &str = "DIRSIGNATURE.v1 sha512/256 block_size=32768\n";
fn put(p: &str, data: &[u8]) {
    let p = Path::new(p);
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    fs::write(p, data).unwrap();
}
fn scan_with(f: impl FnOnce(&mut ScannerConfig)) -> Result<Vec<u8>, v1::Error> {
    let mut cfg = ScannerConfig::new();
    f(&mut cfg);
    let mut out = Vec::new();
    v1::scan(&cfg, &mut out).map(|()| out)
}
fn scan(dir: &str) -> Vec<u8> { scan_with(|c| { c.add_dir(dir, "/"); }).unwrap() }
fn text(v: Vec<u8>) -> String { String::from_utf8(v).unwrap() }
'''
def rs(body): return PRE + body
seeds=[
dict(id="s04-check-cut", property="C21", needs="a file whose size is at least two blocks, checked against data that ends exactly at a block boundary",
 breaks="check_file stops at the end of the data without noticing that recorded blocks are missing, so a file cut at a block boundary is accepted.",
 edits=[(P,"            let hash = h.hash_file(&mut f, self.block_size)?;\n","            let (bytes, hash) = h.hash_and_size(&mut f, self.block_size)?;\n            if bytes == 0 {\n                // nothing more to compare\n                break;\n            }\n")],
 demo=rs(r'''
fn main() {
    let data = (0..100u32).map(|x| x as u8).collect::<Vec<_>>();
    let (_, h) = Hashes::hash_file(HashType::sha512_256(), 10, &data[..]).unwrap();
    assert!(h.check_file(&data[..]).unwrap());
    assert!(!h.check_file(&data[..95]).unwrap());
    for n in [10, 50, 90] { assert!(!h.check_file(&data[..n]).unwrap(), "cut at {}", n); }
}
''')),
dict(id="s05-merge-stale", property="C12", needs="at least four indexes where the first ones agree on an entry and a later one has a smaller entry",
 breaks="When a smaller entry is found in a later index, only part of the candidate list is dropped, so entries of other indexes are returned out of order in a group with a different path.",
 edits=[(M,"                            Some(Less) => {\n                                min_kind = Some(kind);\n                                self.iterator_ixs.clear();\n                                self.iterator_ixs.push(ix);","                            Some(Less) => {\n                                min_kind = Some(kind);\n                                self.iterator_ixs.truncate(ix.saturating_sub(3));\n                                self.iterator_ixs.push(ix);")],
 demo=rs(r'''
fn main() {
    let ix = |name: &str| format!("{}/\n  {} f 0\n{}\n", HEAD, name, HASH);
    let all = ["b", "b", "b", "b", "a"].iter().enumerate()
        .map(|(i, n)| (i, Parser::new(Cursor::new(ix(n).into_bytes())).unwrap())).collect::<Vec<_>>();
    let mut m = MergedSignatures::new(all).unwrap();
    let got = m.iter().map(|g| g.into_iter().map(|(k, e)| (*k, e.unwrap().path().to_path_buf())).collect::<Vec<_>>()).collect::<Vec<_>>();
    for g in &got { assert!(g.iter().all(|x| x.1 == g[0].1), "mixed group {:?}", g); }
    assert_eq!(got.iter().map(|g| g.len()).collect::<Vec<_>>(), [5, 1, 4]);
}
''')),
dict(id="s06-mismatch-middle", property="C14", needs="three or more indexes of which only one in the middle differs",
 breaks="The compatibility check compares the first index only with the last one, so incompatible indexes in between are merged.",
 edits=[(M,"    iter.all(|v| v == first)","    iter.last().map_or(true, |v| v == first)")],
 demo=rs(r'''
fn main() {
    let ix = |b: u64| format!("DIRSIGNATURE.v1 sha512/256 block_size={}\n/\n{}\n", b, HASH);
    for sizes in [[1u64, 2, 1], [4096, 32768, 4096]] {
        let all = sizes.iter().map(|b| ((), Parser::new(Cursor::new(ix(*b).into_bytes())).unwrap())).collect::<Vec<_>>();
        assert!(MergedSignatures::new(all).is_err(), "{:?} merged", sizes);
    }
}
''')),
dict(id="s07-advance-kind", property="C11", needs="an advance to a file at the path where the index has a directory (or the other way round)",
 breaks="Advance compares only paths when they are equal, so it returns a directory when a file was asked for, or consumes it.",
 edits=[(P,"                    match entry.kind().cmp(&kind.as_ref()) {\n                        Less => {","                    let order = if entry.path() == kind.path() {\n                        Equal\n                    } else {\n                        entry.kind().cmp(&kind.as_ref())\n                    };\n                    match order {\n                        Less => {")],
 demo=rs(r"""
fn main() {
    let ix = format!("{}/\n/a\n  x f 0\n/b\n  z f 0\n{}\n", HEAD, HASH);
    let mut p = Parser::new(Cursor::new(ix.into_bytes())).unwrap();
    let mut it = p.iter();
    assert!(it.advance(&EntryKind::File("/a")).is_none());
    assert_eq!(it.next().unwrap().unwrap().path(), Path::new("/a"));
}
""")),
dict(id="s08-hash-tail", property="C06", needs="an index whose last line lost its newline and got another byte instead",
 breaks="get_hash doesn't check that the checksum line is terminated, so a damaged last line is taken for a complete one.",
 edits=[(R,"if buf[0] != b'\\n' || buf[nbytes-1] != b'\\n'","if buf[0] != b'\\n'")],
 demo=rs(r'''
fn main() {
    let good = format!("{}/\n{}\n", HEAD, HASH);
    assert!(get_hash(&mut Cursor::new(good.as_bytes())).is_ok());
    let bad = format!("{}/\n{}a", HEAD, HASH);
    assert!(get_hash(&mut Cursor::new(bad.as_bytes())).is_err());
}
''')),
dict(id="s09-version-prefix", property="C17", needs="a header with a version that only starts with v1, for example v10",
 breaks="Indexes of other format versions are accepted as version 1.",
 edits=[(P,"if version != VERSION","if !version.starts_with(VERSION)")],
 demo=rs(r'''
fn main() {
    for v in ["v10", "v1.1", "v1x"] {
        let ix = format!("DIRSIGNATURE.{} sha512/256 block_size=32768\n/\n{}\n", v, HASH);
        assert!(Parser::new(Cursor::new(ix.into_bytes())).is_err(), "{} accepted", v);
    }
}
''')),
dict(id="s10-no-truncate", property="C28", needs="an output file that already exists and is longer than the new index",
 breaks="The command overwrites the index file without truncating it, so the old tail remains after the new index while the exit status is 0.",
 edits=[(C,"        let file = match File::create(&path) {","        let file = match File::options().write(true).create(true).open(&path) {")],
 demo_sh=r'''#!/bin/bash
repo="$PWD"; work="$(mktemp -d)" || exit 99; trap 'rm -rf "$work"' EXIT
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
CARGO_TARGET_DIR="$work/t" cargo build --offline --quiet --bin index >"$work/log" 2>&1 || { cat "$work/log"; exit 98; }
cd "$work"; mkdir tree; echo hello >tree/a; ./t/debug/index -q tree >want || exit 97
head -c 5000 /dev/zero >out
./t/debug/index -q -o out tree || { echo "failed"; exit 1; }
cmp out want
'''),
dict(id="s11-open-follows", property="C24", needs="a file replaced by a symbolic link to the outside between listing the directory and opening the file",
 breaks="The sequential scan opens files by the path recovered from /proc, which follows symbolic links, so content from outside of the tree enters the index.",
 edits=[(W,"        let mut f = dir.open_file(&entry).map_err(EFile)?;","        let mut f = match dir.recover_path() {\n            Ok(path) => ::std::fs::File::open(path.join(entry.file_name())),\n            Err(_) => dir.open_file(&entry),\n        }.map_err(EFile)?;")],
 demo=rs(r'''
// closedir is called once a listing was read completely
#[no_mangle]
pub unsafe extern "C" fn closedir(_d: *mut u8) -> c_int {
    let _ = fs::remove_file("tree/file");
    let _ = symlink("../secret", "tree/file");
    0
}
fn main() {
    put("secret", b"outside");
    put("tree/file", b"inside!");
    if let Ok(x) = scan_with(|c| { c.add_dir("tree", "/"); }) {
        let x = text(x);
        assert!(!x.contains("  file f") && !x.contains("  file x"), "read through a link: {}", x);
    }
}
''')),
dict(id="s12-newline-write", property="C23", needs="an output that is interrupted (EINTR) exactly at a one byte write of a newline",
 breaks="The newline after each file line is written with a single write call, so an interrupted write fails the scan and a zero write loses the newline.",
 edits=[(W,"        self.file.write_all(b\"\\n\").map_err(EWrite)?;\n        Ok(())","        self.file.write(b\"\\n\").map_err(EWrite)?;\n        Ok(())")],
 demo=rs(r'''
struct Out { data: Vec<u8>, last: bool }
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.last = !self.last;
        if self.last { return Err(io::ErrorKind::Interrupted.into()); }
        self.data.extend_from_slice(b); Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    put("tree/file", b"data"); put("tree/sub/x", b"");
    let mut cfg = ScannerConfig::new(); cfg.add_dir("tree", "/");
    let mut out = Out { data: Vec::new(), last: false };
    v1::scan(&cfg, &mut out).expect("scan failed because of an interrupted write");
    assert!(out.data == scan("tree"));
}
''')),
dict(id="s13-eager-open", property="C31", needs="a directory with many subdirectories",
 breaks="Subdirectories are opened when they are found rather than when they are visited, so the number of open descriptors grows with the number of sibling directories.",
 edits=[(S,"                seq.map(|(base, entry)|{\n                    (base, Path::new(entry.file_name()).to_path_buf())\n                }).collect()\n            ));","                seq.map(|(base, entry)|{\n                    let dir = base.sub_dir(&entry).map_err(EList)?;\n                    Ok((Arc::new(dir), PathBuf::from(\".\")))\n                }).collect::<Result<_, Error>>()?\n            ));")],
 demo=rs(r'''
struct Out(usize);
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0 = self.0.max(fs::read_dir("/proc/self/fd").unwrap().count()); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    for i in 0..200 { fs::create_dir_all(format!("tree/{}", i)).unwrap(); }
    let mut cfg = ScannerConfig::new(); cfg.add_dir("tree", "/");
    let mut out = Out(0);
    v1::scan(&cfg, &mut out).unwrap();
    assert!(out.0 < 60, "{} descriptors", out.0);
}
''')),
dict(id="s14-links-unqueued", property="C26", needs="threads, a file that is slow to hash followed by many symbolic links in the same directory",
 breaks="Adding a symbolic link doesn't wait for the queue, so any number of entries is queued behind a slow file.",
 edits=[(T,"        self.queue.push_back(Operation::Symlink(dir.clone(), entry));\n        self.poll_queue()","        self.queue.push_back(Operation::Symlink(dir.clone(), entry));\n        // there is nothing to hash, so the queue is polled by other entries\n        Ok(())")],
 demo=rs(r'''
// When the scanner opens "z" it must have waited for the file "a", since more
// entries than the queue takes are between them.
static WRITTEN: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static BEHIND: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn readlinkat(fd: c_int, p: *const c_char, buf: *mut c_char, n: usize) -> isize {
    syscall(267, fd as c_long, p, buf, n) as isize
}
struct Out;
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { WRITTEN.lock().unwrap().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
#[no_mangle]
pub unsafe extern "C" fn openat(fd: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if CStr::from_ptr(p).to_bytes() == b"z" {
        if !String::from_utf8_lossy(&WRITTEN.lock().unwrap()).contains("  a f") { BEHIND.store(1, Ordering::SeqCst); }
    }
    syscall(257, fd as c_long, p, flags as c_long, mode as c_long) as c_int
}
fn main() {
    fs::create_dir_all("tree/z").unwrap();
    fs::File::create("tree/a").unwrap().set_len(256 << 20).unwrap();
    for i in 0..300 { symlink("x", format!("tree/l{:03}", i)).unwrap(); }
    let mut cfg = ScannerConfig::new(); cfg.threads(2); cfg.queue_size(4); cfg.add_dir("tree", "/");
    v1::scan(&cfg, &mut Out).unwrap();
    assert_eq!(BEHIND.load(Ordering::SeqCst), 0, "300 entries were queued behind a file");
}
''')),
dict(id="s15-skip-unreadable", property="C22", needs="a directory that can't be listed because of its permissions",
 breaks="A directory without read permission is skipped with a warning: the scan succeeds and the index shows an empty directory.",
 edits=[(S,"            for entry in dir.list_dir(\".\").map_err(EList)? {","            let list = match dir.list_dir(\".\") {\n                Ok(list) => list,\n                Err(ref e)\n                if e.kind() == ::std::io::ErrorKind::PermissionDenied => {\n                    warn!(\"Directory {:?} is not readable, ignoring\", path);\n                    continue;\n                }\n                Err(e) => return Err(EList(e)),\n            };\n            for entry in list {")],
 demo=rs(r'''
fn main() {
    put("tree/private/file", b"data");
    fs::set_permissions(".", fs::Permissions::from_mode(0o755)).unwrap();
    fs::set_permissions("tree", fs::Permissions::from_mode(0o755)).unwrap();
    fs::set_permissions("tree/private", fs::Permissions::from_mode(0o311)).unwrap();
    unsafe { syscall(119, 65534, 65534, 65534); syscall(117, 65534, 65534, 65534); }
    match scan_with(|c| { c.add_dir("tree", "/"); }) {
        Ok(x) => panic!("unreadable directory ignored: {}", text(x)),
        Err(_) => {}
    }
}
''')),
dict(id="s16-merged-advance-error", property="C13", needs="merged advance called when the next line of one index is malformed",
 breaks="Merged advance drops an error at the head of an index and goes on with the following lines instead of reporting it.",
 edits=[(M,"            Some(&Err(_)) => Equal,","            Some(&Err(_)) => Less,")],
 demo=rs(r'''
fn main() {
    let ix = format!("{}/\n  a ? 0\n  b f 0\n{}\n", HEAD, HASH);
    let mut m = MergedSignatures::new(vec![((), Parser::new(Cursor::new(ix.into_bytes())).unwrap())]).unwrap();
    let mut it = m.iter();
    it.next().unwrap();
    let r = it.advance(&EntryKind::File("/b"));
    assert!(r.len() == 1 && r[0].1.is_err(), "malformed line was ignored: {:?}", r);
}
''')),
dict(id="s17-emit-clean-target", property="C09", needs="a link target with a doubled or trailing slash or a dot component",
 breaks="The emitter normalises link targets, so re-emitting a parsed index changes them.",
 edits=[(E,"            Name(dest),","            Name(&dest.components().collect::<::std::path::PathBuf>()),")],
 demo=rs(r'''
fn main() {
    for t in ["a//b", "a/", "a/./b"] {
        let mut out = Vec::new();
        { let mut e = Emitter::new(HashType::sha512_256(), 32768, &mut out).unwrap();
          e.start_dir(Path::new("/")).unwrap();
          e.add_symlink(OsStr::new("l"), Path::new(t)).unwrap(); e.finish().unwrap(); }
        let s = text(out);
        assert!(s.contains(&format!("  l s {}\n", t)), "{}", s);
    }
}
''')),
dict(id="s18-exe-any", property="C01", needs="a file that its group or others may execute, but not its owner",
 breaks="Any execute bit marks the file as executable instead of only that of the owner.",
 edits=[(W,"EXE_MASK: u32 = 0o100","EXE_MASK: u32 = 0o111")],
 demo=rs(r'''
fn main() {
    put("tree/a", b""); put("tree/b", b"");
    fs::set_permissions("tree/a", fs::Permissions::from_mode(0o674)).unwrap();
    fs::set_permissions("tree/b", fs::Permissions::from_mode(0o645)).unwrap();
    let s = text(scan("tree"));
    assert!(s.contains("  a f 0") && s.contains("  b f 0"), "{}", s);
}
''')),
dict(id="s19-lossy-order", property="C02", needs="several names in one directory that are not valid UTF-8 and are listed unsorted",
 breaks="Names are compared after lossy conversion, so names that differ only in invalid bytes keep the order in which the system lists them.",
 edits=[(S,"            a.file_name().cmp(&b.file_name())\n        });","            a.file_name().to_string_lossy().cmp(&b.file_name().to_string_lossy())\n        });")],
 demo=rs(r'''
fn main() {
    fs::create_dir("tree").unwrap();
    for i in 0..100u8 { fs::write(Path::new("tree").join(OsStr::from_bytes(&[(0x80 + (i as u32 * 37) % 100) as u8])), b"").unwrap(); }
    let s = text(scan("tree"));
    let names = s.lines().filter(|l| l.starts_with("  ")).collect::<Vec<_>>();
    let mut sorted = names.clone(); sorted.sort();
    assert!(names == sorted, "not sorted by bytes");
}
''')),
dict(id="s20-prefix-at-root", property="C27", needs="two source directories of which one has a prefix other than the root",
 breaks="The contents of a directory added with a prefix appear at the root of the index.",
 edits=[(S,"        if prefix == Path::new(\"/\") {","        if prefix.has_root() {")],
 demo=rs(r'''
fn main() {
    put("one/a", b"1"); put("two/b", b"2");
    if let Ok(x) = scan_with(|c| { c.add_dir("one", "/"); c.add_dir("two", "/p"); }) {
        let x = text(x);
        let root = x.split("\n/").nth(1).unwrap().to_string();
        assert!(root.contains("  a f 1") && !root.contains("  b f 1"), "{}", x);
    }
}
''')),
dict(id="s21-progress-error", property="C04", needs="progress enabled and a stderr that can't be written to",
 breaks="A failure to print the final progress line is returned as an error of the scan.",
 edits=[(G,"            ).ok();\n        self.progress_dest.flush().ok();\n        Ok(())","            ).map_err(Error::WriteError)?;\n        self.progress_dest.flush().map_err(Error::WriteError)?;\n        Ok(())")],
 demo=rs(r'''
fn main() {
    put("tree/a", b"1");
    let full = fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
    use std::os::unix::io::AsRawFd;
    unsafe { syscall(33, full.as_raw_fd() as c_long, 2 as c_long); }
    let want = scan("tree");
    let got = scan_with(|c| { c.add_dir("tree", "/"); c.print_progress(); });
    if got.ok() != Some(want) { std::process::exit(1) }
}
''')),
dict(id="s22-del-literal", property="C07", needs="a name or target with the byte 0x7f",
 breaks="The DEL byte is written literally, so the index isn't printable ASCII.",
 edits=[(W,"b >= 0x7F","b > 0x7F")],
 demo=rs(r"""
fn main() {
    fs::create_dir("tree").unwrap();
    symlink("x\x7fy", "tree/a\x7f").unwrap();
    let ix = scan("tree");
    assert!(ix.iter().all(|&b| b == b'\n' || (0x20..0x7f).contains(&b)), "not printable: {}", String::from_utf8_lossy(&ix));
}
""")),
dict(id="s23-short-block", property="C20", needs="a reader that returns fewer bytes than asked for before the end of the data",
 breaks="hash_and_size takes a short read for the end of the block, so block boundaries move and hashes depend on how the reader splits the data.",
 edits=[(H,"        let bytes = io::copy(&mut f.take(block_size), self)?;\n","        let mut f = f.take(block_size);\n        let mut buf = [0u8; 8192];\n        let mut bytes = 0;\n        loop {\n            let n = match io::Read::read(&mut f, &mut buf) {\n                Ok(n) => n,\n                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,\n                Err(e) => return Err(e),\n            };\n            Hash::update(self, &buf[..n]);\n            bytes += n as u64;\n            if n < buf.len() {\n                break;\n            }\n        }\n")],
 demo=rs(r'''
struct Slow<'a>(&'a [u8]);
impl<'a> Read for Slow<'a> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(3); self.0.read(&mut b[..n]) } }
fn main() {
    let data = vec![7u8; 100];
    let a = Hashes::hash_file(HashType::sha512_256(), 10, &data[..]).unwrap();
    let b = Hashes::hash_file(HashType::sha512_256(), 10, Slow(&data)).unwrap();
    assert_eq!(a.0, 100); assert_eq!(a, b);
}
''')),
dict(id="s24-restat-size", property="C25", needs="threads and a file that grows while it is hashed",
 breaks="The threaded scan records the size of the file after hashing it while the number of hashes comes from the size before, so the line has too few hashes if the file grows meanwhile.",
 edits=[(T,"                size: meta.len(),","                size: f.metadata().map_err(EFile)?.len(),")],
 demo=rs(r'''
fn main() {
    fs::create_dir("tree").unwrap();
    let f = fs::File::create("tree/a").unwrap(); f.set_len(32 << 20).unwrap();
    std::thread::spawn(move || { for i in 0..30000u64 { f.set_len((32 << 20) + i * 32768).unwrap(); std::thread::sleep(std::time::Duration::from_millis(1)); } });
    let ix = match scan_with(|c| { c.add_dir("tree", "/"); c.threads(2); }) { Ok(x) => x, Err(_) => return };
    let mut p = Parser::new(Cursor::new(ix)).unwrap();
    for e in p.iter() { e.expect("index does not parse"); }
}
''')),
dict(id="s25-script-order", property="C29", needs="a directory whose name continues a sibling's name with a byte less than the slash, and the sibling having a subdirectory",
 breaks="The shell script sorts directories as strings instead of by component, so its index differs from the one of the library.",
 edits=[("hash.sh","    find ./ -type d | tr '/' '\\0' | LC_ALL=C sort | tr '\\0' '/' | while read dir; do","    find ./ -type d | LC_ALL=C sort | while read dir; do")],
 demo_sh=r'''#!/bin/bash
repo="$PWD"; work="$(mktemp -d)" || exit 99; trap 'rm -rf "$work"' EXIT
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
CARGO_TARGET_DIR="$work/t" cargo build --offline --quiet --bin index >"$work/log" 2>&1 || { cat "$work/log"; exit 98; }
cp "$repo/hash.sh" "$work/hash.sh"; cd "$work"; mkdir -p tree/a/b tree/a-b; echo hello >tree/a/b/c; echo hi >tree/a-b/d
./t/debug/index -q tree >want || exit 97
bash ./hash.sh tree | cat >got || exit 96
cmp got want
'''),
dict(id="s26-line-interrupt", property="C18", needs="a reader that is interrupted (EINTR) while a line is read",
 breaks="Lines are read with a hand-written loop that doesn't retry interrupted reads, so parsing fails depending on how the reader delivers the data.",
 edits=[(P,"    let _ = reader.read_until(b'\\n', &mut buf)?;","    loop {\n        let (used, done) = {\n            let chunk = reader.fill_buf()?;\n            match chunk.iter().position(|&c| c == b'\\n') {\n                Some(i) => {\n                    buf.extend_from_slice(&chunk[..i+1]);\n                    (i+1, true)\n                }\n                None => {\n                    buf.extend_from_slice(chunk);\n                    (chunk.len(), chunk.is_empty())\n                }\n            }\n        };\n        reader.consume(used);\n        if done {\n            break;\n        }\n    }")],
 demo=rs(r'''
struct Intr(Cursor<Vec<u8>>, bool);
impl Read for Intr { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.1 = !self.1; if self.1 { Err(io::ErrorKind::Interrupted.into()) } else { let n = b.len().min(5); self.0.read(&mut b[..n]) } } }
fn main() {
    let ix = format!("{}/\n  a f 0\n{}\n", HEAD, HASH);
    let mut p = Parser::new(io::BufReader::new(Intr(Cursor::new(ix.into_bytes()), false))).expect("interrupted read");
    let e = p.iter().collect::<Result<Vec<_>, _>>().expect("interrupted read");
    assert_eq!(e.len(), 2);
}
''')),
dict(id="s27-get-overflow", property="C08", needs="asking a file's hashes for an index near the maximum of usize",
 breaks="The offset of a hash is computed without checks, so a large index overflows: a panic, or another block's hash in release builds.",
 edits=[(P,"        let off = bytes.checked_mul(idx)?;\n        let end = off.checked_add(bytes)?;","        let off = bytes * idx;\n        let end = off + bytes;")],
 demo=rs(r'''
fn main() {
    let (_, h) = Hashes::hash_file(HashType::sha512_256(), 10, &[1u8; 25][..]).unwrap();
    assert_eq!(h.len(), 3);
    assert!(h.get(3).is_none());
    for i in [usize::MAX, usize::MAX / 32, usize::MAX / 32 + 1, 1usize << 59] { assert!(h.get(i).is_none(), "{}", i); }
}
''')),
dict(id="s28-empty-exe", property="C30", needs="an executable file without content",
 breaks="The execute bit of empty files isn't recorded, so making an empty file executable doesn't change the checksum.",
 edits=[(W,"            if meta.permissions().mode() & EXE_MASK > 0 { \"x\" } else { \"f\" },","            if n > 0 && meta.permissions().mode() & EXE_MASK > 0 { \"x\" } else { \"f\" },"),(T,"                exe: meta.permissions().mode() & EXE_MASK > 0,","                exe: meta.len() > 0 && meta.permissions().mode() & EXE_MASK > 0,")],
 demo=rs(r'''
fn main() {
    put("tree/a", b"");
    fs::set_permissions("tree/a", fs::Permissions::from_mode(0o644)).unwrap();
    let one = scan("tree");
    fs::set_permissions("tree/a", fs::Permissions::from_mode(0o755)).unwrap();
    let two = scan("tree");
    let h = |v: Vec<u8>| get_hash(&mut Cursor::new(v)).unwrap();
    assert!(h(one) != h(two), "same checksum");
}
''')),
dict(id="s29-header-ignored", property="C23", needs="threads and an output that fails while the header is written and works afterwards",
 breaks="The threaded writer ignores a failure to write the header, so the scan succeeds without one.",
 edits=[(T,"            block_size,\n        ).map_err(EWrite)?;\n        Ok(ThreadedWriter","            block_size,\n        ).map_err(EWrite).unwrap_or_else(|e| warn!(\"{}\", e));\n        Ok(ThreadedWriter")],
 demo=rs(r'''
struct Out(usize, Vec<u8>);
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0 += 1; if self.0 == 2 { return Err(io::ErrorKind::Other.into()); } self.1.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    put("tree/a", b"data");
    let mut cfg = ScannerConfig::new(); cfg.threads(2); cfg.add_dir("tree", "/");
    assert!(v1::scan(&cfg, &mut Out(0, Vec::new())).is_err());
}
''')),
]
