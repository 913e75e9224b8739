import importlib.util, os
_s = importlib.util.spec_from_file_location("seeds1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
rs, S, W, T, P, M, E, H, R, C, G = _m.rs, _m.S, _m.W, _m.T, _m.P, _m.M, _m.E, _m.H, _m.R, _m.C, _m.G
ALLOC = r"""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::Ordering::SeqCst;
static NOW: AtomicUsize = AtomicUsize::new(0);
static MAX: AtomicUsize = AtomicUsize::new(0);
struct Counter;
unsafe impl GlobalAlloc for Counter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        MAX.fetch_max(NOW.fetch_add(l.size(), SeqCst) + l.size(), SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static COUNTER: Counter = Counter;
"""
seeds=[
dict(id="s34-memo", property="C33", needs="two scans in one process, and a file that is changed in place in between with its size kept and its time restored (or within the granularity of times)",
 breaks="Hashes are remembered by device, inode, size and modification time for the life of the process, so the second scan gives the hashes of the old content.",
 edits=[(W,"use std::fmt;\n","use std::collections::BTreeMap;\nuse std::fmt;\n"),
 (W,"use std::os::unix::fs::PermissionsExt;\n","use std::os::unix::fs::{MetadataExt, PermissionsExt};\nuse std::sync::Mutex;\n"),
 (W,"pub trait Writer {","type Key = (String, u64, u64, u64, u64, i64, i64);\n\nstatic SEEN: Mutex<BTreeMap<Key, String>> = Mutex::new(BTreeMap::new());\n\npub trait Writer {"),
 (W,"        while n > 0 {\n            let h = self.hash.hash_file(&mut f, self.block_size)\n                .map_err(EFile)?;\n            write!(&mut self.file, \" {:x}\", h).map_err(EWrite)?;\n            n = n.saturating_sub(self.block_size);\n        }\n        self.file.write_all(b\"\\n\").map_err(EWrite)?;",
 "        // a file that didn't change need not be read again\n        let key = (self.hash.name().to_string(), self.block_size, meta.dev(),\n            meta.ino(), n, meta.mtime(), meta.mtime_nsec());\n        let seen = SEEN.lock().unwrap().get(&key).cloned();\n        let hashes = match seen {\n            Some(hashes) => hashes,\n            None => {\n                let mut hashes = String::new();\n                while n > 0 {\n                    let h = self.hash.hash_file(&mut f, self.block_size)\n                        .map_err(EFile)?;\n                    hashes.push_str(&format!(\" {:x}\", h));\n                    n = n.saturating_sub(self.block_size);\n                }\n                SEEN.lock().unwrap().insert(key, hashes.clone());\n                hashes\n            }\n        };\n        writeln!(&mut self.file, \"{}\", hashes).map_err(EWrite)?;")],
 demo=rs(r"""
use std::os::unix::fs::FileExt;
fn main() {
    put("tree/a", b"first");
    let t = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1000000);
    let set = || fs::OpenOptions::new().write(true).open("tree/a").unwrap().set_modified(t).unwrap();
    set();
    let one = scan("tree");
    assert_eq!(one, scan("tree"));
    fs::OpenOptions::new().write(true).open("tree/a").unwrap().write_all_at(b"F", 0).unwrap();
    set();
    let two = scan("tree");
    put("tree2/a", b"First");
    assert_eq!(two, scan("tree2"));
    assert!(one != two);
}
""")),
dict(id="s35-pooled-digest", property="C33", needs="an emitter that is dropped without being finished (its destination failed), and another one in the same thread after that",
 breaks="The digest of an emitter is kept for the next emitter of the thread; only finishing resets it, so after an emitter that was given up the next footer is wrong.",
 edits=[(E,"                Box::new(sha2::Sha512Trunc256::default())\n                as Box<dyn HashTrait>","                Box::new(Pooled(SPARE.with(|s| s.borrow_mut().take())\n                    .unwrap_or_else(Default::default)))\n                as Box<dyn HashTrait>"),
 (E,"/// Object-safe version of hash trait","/// Digest that is kept when an emitter is dropped\nstruct Pooled(sha2::Sha512Trunc256);\n\nthread_local! {\n    static SPARE: std::cell::RefCell<Option<sha2::Sha512Trunc256>>\n        = std::cell::RefCell::new(None);\n}\n\nimpl Drop for Pooled {\n    fn drop(&mut self) {\n        let digest = self.0.clone();\n        SPARE.with(|s| *s.borrow_mut() = Some(digest));\n    }\n}\n\n/// Object-safe version of hash trait"),
 (E,"impl HashTrait for sha2::Sha512Trunc256 {\n    fn input(&mut self, data: &[u8]) {\n        self.update(data);","impl HashTrait for Pooled {\n    fn input(&mut self, data: &[u8]) {\n        self.0.update(data);"),
 (E,"<Self as FixedOutputDirty>::OutputSize>::default();\n        self.finalize_into_dirty(&mut digest);","<sha2::Sha512Trunc256 as FixedOutputDirty>::OutputSize>::default();\n        self.0.finalize_into_dirty(&mut digest);\n        digest::Reset::reset(&mut self.0);")],
 demo=rs(r"""
struct Room(Vec<u8>, usize);
impl Write for Room {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.1 - self.0.len());
        self.0.extend_from_slice(&b[..n]);
        if n == 0 && !b.is_empty() { return Err(io::ErrorKind::StorageFull.into()); }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn emit(room: usize) -> Option<Vec<u8>> {
    let mut w = Room(vec![], room);
    let r = (|| {
        let mut e = Emitter::new(HashType::sha512_256(), 32768, &mut w)?;
        e.start_dir(Path::new("/"))?;
        e.add_symlink("l".as_ref(), Path::new("target"))?;
        e.start_dir(Path::new("/d"))?;
        e.finish()
    })();
    r.ok().map(|_| w.0)
}
fn main() {
    let good = emit(1000).unwrap();
    for room in 0..good.len() {
        assert!(emit(room).is_none());
        assert_eq!(emit(1000).unwrap(), good, "after room for {} bytes", room);
    }
}
""")),
dict(id="s36-intern-dirs", property="C34", needs="an index of many directories: what is kept grows with those that were passed",
 breaks="The parser keeps every directory path it has seen to share them, so the memory needed for reading grows with the length of the index.",
 edits=[(P,"use std::borrow::Cow;\nuse std::cmp","use std::borrow::Cow;\nuse std::collections::BTreeSet;\nuse std::sync::Arc;\nuse std::cmp"),
 (P,"    current_dir: PathBuf,\n","    current_dir: Arc<Path>,\n    seen_dirs: BTreeSet<Arc<Path>>,\n"),
 (P,"            current_dir: PathBuf::new(),\n","            current_dir: Path::new(\"\").into(),\n            seen_dirs: BTreeSet::new(),\n"),
 (P,"                    self.current_dir = dir_path.clone();\n","                    // share the path if the directory is seen again\n                    self.current_dir = match self.seen_dirs.get(&dir_path[..]) {\n                        Some(path) => path.clone(),\n                        None => {\n                            let path: Arc<Path> = dir_path.as_path().into();\n                            self.seen_dirs.insert(path.clone());\n                            path\n                        }\n                    };\n".replace("&dir_path[..]","dir_path.as_path()"))],
 demo=rs(ALLOC+r"""
struct Lines(u64, Vec<u8>, usize);
impl io::Read for Lines {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.2 == self.1.len() {
            self.1.clear();
            self.2 = 0;
            match self.0 {
                0 => self.1.extend_from_slice(b"DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n"),
                n if n < 100_000 => writeln!(&mut self.1, "/{}{:06}", "d".repeat(50), n).unwrap(),
                100_000 => writeln!(&mut self.1, "{}", "0f".repeat(32)).unwrap(),
                _ => return Ok(0),
            }
            self.0 += 1;
        }
        let n = b.len().min(self.1.len() - self.2);
        b[..n].copy_from_slice(&self.1[self.2..self.2 + n]);
        self.2 += n;
        Ok(n)
    }
}
fn main() {
    let start = NOW.load(SeqCst);
    let mut p = Parser::new(io::BufReader::new(Lines(0, vec![], 0))).unwrap();
    let n = p.iter().map(|e| e.unwrap()).count();
    assert_eq!(n, 100_000);
    let held = MAX.load(SeqCst) - start;
    assert!(held < 1_000_000, "{} bytes held", held);
}
""")),
dict(id="s37-whole-file", property="C34", needs="a file of many blocks, of about 64 blocks at least to be noticed",
 breaks="The scan without hashing threads reads a whole file before it hashes it, so the memory needed grows with the size of the biggest file.",
 edits=[(W,"use std::io::{self, Write};\n","use std::io::{self, Read, Write};\n"),
 (W,"        while n > 0 {\n            let h = self.hash.hash_file(&mut f, self.block_size)\n                .map_err(EFile)?;\n            write!(&mut self.file, \" {:x}\", h)","        // hash without a system call for every piece\n        let mut data = Vec::new();\n        (&f).take(n).read_to_end(&mut data).map_err(EFile)?;\n        let mut data = &data[..];\n        while n > 0 {\n            let h = self.hash.hash_file(&mut data, self.block_size)\n                .map_err(EFile)?;\n            write!(&mut self.file, \" {:x}\", h)")],
 demo=rs(ALLOC+r"""
fn main() {
    put("tree/a", b"x");
    fs::File::create("tree/big").unwrap().set_len(1 << 25).unwrap();
    let start = NOW.load(SeqCst);
    MAX.store(start, SeqCst);
    let out = scan("tree");
    let held = MAX.load(SeqCst) - start;
    assert!(out.len() > 65 * 1024);
    assert!(held < 4_000_000, "{} bytes held", held);
}
""")),
dict(id="s38-reserve", property="C34", needs="a scan with hashing threads of a file of many blocks; results are right, only the memory reserved for the text of the hashes is a multiple of the file",
 breaks="The text of the hashes of a file is reserved by the size of the file and not by its number of blocks, so a file of any size takes 33 times its size of memory in every hashing thread.",
 edits=[(T,"            let mut buf = String::with_capacity((33*n/block_size) as usize);\n            while n > 0 {","            // room for hashes of all blocks, including the last one\n            let blocks = n + (block_size - 1) / block_size;\n            let mut buf = String::with_capacity((33*blocks) as usize);\n            while n > 0 {")],
 demo=rs(ALLOC+r"""
fn main() {
    put("tree/a", b"x");
    fs::File::create("tree/big").unwrap().set_len(1 << 22).unwrap();
    let start = NOW.load(SeqCst);
    MAX.store(start, SeqCst);
    let mut c = ScannerConfig::new();
    c.threads(2);
    c.hash(HashType::sha512_256());
    c.add_dir("tree", "/");
    let mut out = Vec::new();
    dir_signature::v1::scan(&c, &mut out).unwrap();
    let held = MAX.load(SeqCst) - start;
    assert!(out.len() > 65 * 128);
    assert!(held < 4_000_000, "{} bytes held", held);
}
""")),
dict(id="s39-kept-pool", property="C35", needs="a scan with hashing threads in a process that goes on living; the index is right",
 breaks="The pool of hashing threads is kept for the next scan, so the threads stay after the scan returns, one set for each number of threads ever used.",
 edits=[(T,"use std::collections::VecDeque;\n","use std::collections::{BTreeMap, VecDeque};\n"),
 (T,"use std::sync::Arc;\n","use std::sync::{Arc, Mutex};\n"),
 (T,"#[derive(Clone)]\nstruct Notify;\n","#[derive(Clone)]\nstruct Notify;\n\n/// Starting threads is slow, so they are kept\nstatic POOLS: Mutex<BTreeMap<usize, CpuPool>> = Mutex::new(BTreeMap::new());\n"),
 (T,"            pool: CpuPool::new(threads),\n","            pool: POOLS.lock().unwrap().entry(threads)\n                .or_insert_with(|| CpuPool::new(threads)).clone(),\n")],
 demo=rs(r"""
fn threads() -> usize { fs::read_dir("/proc/self/task").unwrap().count() }
fn main() {
    put("tree/a", b"x");
    put("tree/b", b"y");
    let start = threads();
    let one = scan("tree");
    assert_eq!(one, scan_with(|c| { c.threads(3); c.add_dir("tree", "/"); }).unwrap());
    for _ in 0..1000 {
        if threads() == start { return; }
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    panic!("{} threads are left", threads() - start);
}
""")),
dict(id="s40-shared-hasher", property="C35", needs="two files that are hashed at the same time; the index is right, only nothing runs in parallel",
 breaks="All hashing threads share one hasher behind a lock that is held while a file is hashed, so files are hashed one after another whatever the number of threads.",
 edits=[(T,"use std::sync::Arc;\n","use std::sync::{Arc, Mutex};\n"),
 (T,"    hash: H,\n    queue_limit","    hash: Arc<Mutex<H>>,\n    queue_limit"),
 (T,"            hash: hash,\n            queue_limit","            hash: Arc::new(Mutex::new(hash)),\n            queue_limit"),
 (T,"            while n > 0 {\n                let h = hash.hash_file","            let mut hash = hash.lock().unwrap().clone();\n            while n > 0 {\n                let h = hash.hash_file".replace("            let mut hash = hash.lock().unwrap().clone();\n","            let shared = hash.lock().unwrap();\n            let mut hash = shared.clone();\n")),
 (T,"        let mut hash = self.hash.clone();\n","        let hash = self.hash.clone();\n")],
 demo=rs(r"""
extern "C" { fn sched_yield() -> c_int; }
static INSIDE: AtomicUsize = AtomicUsize::new(0);
static MOST: AtomicUsize = AtomicUsize::new(0);
static WATCH: AtomicUsize = AtomicUsize::new(0);
/// Reads of watched threads wait a while for another one.
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut u8, n: usize) -> isize {
    let watch = WATCH.load(Ordering::SeqCst) == 1 && n > 1000;
    if watch {
        let now = INSIDE.fetch_add(1, Ordering::SeqCst) + 1;
        MOST.fetch_max(now, Ordering::SeqCst);
        let t = std::time::Instant::now();
        while MOST.load(Ordering::SeqCst) < 2 && t.elapsed().as_millis() < 1500 { sched_yield(); }
    }
    let r = syscall(0, fd as c_long, buf, n);
    if watch { INSIDE.fetch_sub(1, Ordering::SeqCst); }
    r as isize
}
fn main() {
    for i in 0..6 { put(&format!("tree/f{}", i), &vec![i; 40_000]); }
    let one = scan("tree");
    WATCH.store(1, Ordering::SeqCst);
    let two = scan_with(|c| { c.threads(3); c.add_dir("tree", "/"); }).unwrap();
    WATCH.store(0, Ordering::SeqCst);
    assert_eq!(one, two);
    assert!(MOST.load(Ordering::SeqCst) > 1, "no two files were read at the same time");
}
""")),
dict(id="s41-name-case", property="C36", needs="a hash name that is spelled with capital letters, in an index, for get_hash or for the command",
 breaks="Names of hash types are compared without regard to case, so headers that FORMAT.v1 does not know are taken for valid ones.",
 edits=[("src/hash_type.rs","        match val {\n            \"sha512/256\" =>","        match &val.to_ascii_lowercase()[..] {\n            \"sha512/256\" =>")],
 demo=rs(r"""
fn main() {
    for name in ["SHA512/256", "Blake2b/256", "blake3/256 ", "BLAKE3/256", "bLake3/256"] {
        assert!(name.parse::<HashType>().is_err(), "{} is accepted", name);
        let text = format!("DIRSIGNATURE.v1 {} block_size=32768\n/\n{}\n", name.trim(), HASH);
        if name.ends_with(' ') { continue; }
        assert!(Parser::new(Cursor::new(text.as_bytes())).is_err(), "{} is accepted", name);
        assert!(get_hash(&mut Cursor::new(text.as_bytes())).is_err(), "{} is accepted", name);
    }
    for name in ["sha512/256", "blake2b/256", "blake3/256"] {
        assert_eq!(name.parse::<HashType>().unwrap().to_string(), name);
    }
}
""")),
]
