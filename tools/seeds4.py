import importlib.util, os
_s = importlib.util.spec_from_file_location("seeds1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
rs, S, W, T, P, M, E, H, R, C, G = _m.rs, _m.S, _m.W, _m.T, _m.P, _m.M, _m.E, _m.H, _m.R, _m.C, _m.G
seeds=[
dict(id="s42-chdir", property="C37", needs="a scan of several roots, and another thread of the process that resolves a relative path while the second root is being opened (or a look at the system calls)",
 breaks="All roots but the first are opened by entering them: the working directory of the whole process is changed and then changed back, so other threads look in the wrong place meanwhile.",
 edits=[(S,"                Arc::new(Dir::open(path).map_err(EDir)?),","                Arc::new(if root.len() == 0 {\n                    Dir::open(path)\n                } else {\n                    open_other(path)\n                }.map_err(EDir)?),"),
 (S,"pub fn scan<W: Writer>","/// Opens a root so that one that can't be entered is refused at once\nfn open_other(path: &Path) -> std::io::Result<Dir> {\n    let home = std::env::current_dir()?;\n    std::env::set_current_dir(path)?;\n    let dir = Dir::open(\".\");\n    std::env::set_current_dir(home)?;\n    dir\n}\n\npub fn scan<W: Writer>")],
 demo=rs(r"""
static MOVED: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    MOVED.fetch_add(1, Ordering::SeqCst);
    syscall(80, p) as c_int
}
fn main() {
    put("tree/a", b"1");
    put("tree/d/b", b"2");
    put("more/c", b"3");
    put("all/a", b"1");
    put("all/d/b", b"2");
    put("all/c", b"3");
    let two = scan_with(|c| { c.add_dir("tree", "/"); c.add_dir("more", "/"); }).unwrap();
    assert_eq!(scan("all"), two);
    assert_eq!(MOVED.load(Ordering::SeqCst), 0, "the working directory is changed");
}
""")),
dict(id="s43-atime", property="C37", needs="a scan of any file, and a look at its times afterwards with the precision of nanoseconds (or at the time of its last status change)",
 breaks="The access time of each file is put back after hashing it, which sets the time of its last status change: backup programs take every file for a changed one after each scan.",
 edits=[(W,"            n = n.saturating_sub(self.block_size);\n        }\n","            n = n.saturating_sub(self.block_size);\n        }\n        if let Ok(time) = meta.accessed() {\n            // reading a file shouldn't look as if somebody used it\n            f.set_times(fs::FileTimes::new().set_accessed(time)).ok();\n        }\n"),
 (W,"use std::fmt;\n","use std::fmt;\nuse std::fs;\n")],
 demo=rs(r"""
use std::os::unix::fs::MetadataExt;
fn main() {
    put("tree/a", b"first");
    put("tree/d/b", b"second");
    let times = || ["tree/a", "tree/d/b", "tree", "tree/d"].iter().map(|p| {
        let m = fs::metadata(p).unwrap();
        (m.mtime(), m.mtime_nsec(), m.ctime(), m.ctime_nsec())
    }).collect::<Vec<_>>();
    let old = times();
    std::thread::sleep(std::time::Duration::from_millis(100));
    let one = scan("tree");
    assert_eq!(one, scan("tree"));
    assert!(old == times(), "times of files are changed by a scan");
}
""")),
dict(id="s44-merge-rdwr", property="C37", needs="merging index files through the builder, and an index file that must not be written to (read-only file system or permissions, or a program that watches it)",
 breaks="Index files are opened for reading and writing, so files that may only be read cannot be merged any more (unless by root), and watchers see them being written.",
 edits=[(M,"BufReader::new(File::open(&sig_path)\n","BufReader::new(OpenOptions::new()\n                .read(true).append(true).open(&sig_path)\n"),
 (M,"use std::fs::File;","use std::fs::{File, OpenOptions};")],
 demo=rs(r"""
fn main() {
    put("tree/a", b"1");
    fs::write("index", scan("tree")).unwrap();
    let mut b = v1::merge::FileMergeBuilder::new();
    b.add("/x", "index");
    let mut m = b.finalize().unwrap();
    let want = fs::canonicalize("index").unwrap();
    let mut seen = 0;
    for e in fs::read_dir("/proc/self/fd").unwrap() {
        let e = e.unwrap();
        if fs::read_link(e.path()).ok().as_ref() != Some(&want) { continue; }
        let info = fs::read_to_string(Path::new("/proc/self/fdinfo").join(e.file_name())).unwrap();
        let flags = info.lines().find(|l| l.starts_with("flags:")).unwrap()[6..].trim().to_string();
        let flags = u32::from_str_radix(&flags, 8).unwrap();
        assert_eq!(flags & 3, 0, "the index is opened for writing");
        seen += 1;
    }
    assert_eq!(seen, 1);
    assert_eq!(m.iter().count(), 2);
}
""")),
dict(id="s45-inherited", property="C37", needs="threads, and another program started by another thread while the scan runs",
 breaks="Hashing threads duplicate the descriptor of each file without the close-on-exec flag, so that programs started meanwhile keep the scanned files open.",
 edits=[(T,"use std::os::unix::fs::PermissionsExt;\n","use std::os::unix::fs::PermissionsExt;\nuse std::os::unix::io::{AsRawFd, FromRawFd};\n"),
 (T,"            let mut f = dir.open_file(&entry).map_err(EFile)?;","            let f = dir.open_file(&entry).map_err(EFile)?;\n            // keep the handle that was opened apart from the one that is read\n            let mut f = match unsafe { dup(f.as_raw_fd()) } {\n                -1 => return Err(EFile(io::Error::last_os_error())),\n                fd => unsafe { std::fs::File::from_raw_fd(fd) },\n            };"),
 (T,"impl<F: io::Write, H: Hash> Writer for","extern \"C\" {\n    fn dup(fd: i32) -> i32;\n}\n\nimpl<F: io::Write, H: Hash> Writer for")],
 demo=rs(r"""
extern "C" { fn fcntl(fd: c_int, cmd: c_int, ...) -> c_int; }
static BAD: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut u8, n: usize) -> isize {
    if fd > 2 && fcntl(fd, 1) == 0 { BAD.fetch_add(1, Ordering::SeqCst); }
    syscall(0, fd as c_long, buf, n) as isize
}
fn main() {
    put("tree/a", b"1");
    put("tree/d/b", b"2");
    let one = scan("tree");
    let two = scan_with(|c| { c.threads(2); c.add_dir("tree", "/"); }).unwrap();
    assert_eq!(one, two);
    assert_eq!(BAD.load(Ordering::SeqCst), 0, "descriptors would be inherited");
}
""")),
dict(id="s46-shared-count", property="C33", needs="two scans with progress output at the same time in one process (or one that another one's destination starts)",
 breaks="The number of files is counted in one place for the whole process, set to zero when a scan starts, so the numbers of scans that overlap are wrong.",
 edits=[(G,"impl<W: Writer, S: io::Write> Progress<W, S> {","/// Files seen by the scan\nstatic FILES: AtomicU64 = AtomicU64::new(0);\n\nimpl<W: Writer, S: io::Write> Progress<W, S> {"),
 (G,"    pub fn new(out: S, hasher: W) -> Progress<W, S> {\n","    pub fn new(out: S, hasher: W) -> Progress<W, S> {\n        FILES.store(0, Ordering::SeqCst);\n"),
 (G,"        self.files += 1;","        self.files = FILES.fetch_add(1, Ordering::SeqCst) + 1;"),
 (G,"use std::io","use std::sync::atomic::{AtomicU64, Ordering};\nuse std::io")],
 demo=rs(r"""
static SAID: Mutex<Vec<u8>> = Mutex::new(Vec::new());
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const u8, n: usize) -> isize {
    if fd == 2 {
        SAID.lock().unwrap().extend_from_slice(std::slice::from_raw_parts(buf, n));
    }
    syscall(1, fd as c_long, buf, n) as isize
}
/// Starts another scan when it has got the line of a certain file.
struct Nested(Vec<u8>, bool);
impl Write for Nested {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.extend_from_slice(b);
        if !self.1 && self.0.windows(4).any(|w| w == b"  f3") {
            self.1 = true;
            scan_with(|c| { c.print_progress(); c.add_dir("other", "/"); }).unwrap();
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    for i in 0..6 { put(&format!("tree/f{}", i), b"1"); }
    for i in 0..2 { put(&format!("other/f{}", i), b"2"); }
    let mut cfg = ScannerConfig::new();
    cfg.print_progress();
    cfg.add_dir("tree", "/");
    let mut out = Nested(Vec::new(), false);
    v1::scan(&cfg, &mut out).unwrap();
    assert!(out.1);
    let said = text(std::mem::take(&mut *SAID.lock().unwrap()));
    let last: Vec<&str> = said.split(|c| c == '\n' || c == '\r').filter(|l| l.starts_with("Done")).collect();
    assert_eq!(last.len(), 2, "{}", said);
    assert!(last[0].contains(" 2 files"), "{}", last[0]);
    assert!(last[1].contains(" 6 files"), "{}", last[1]);
}
""")),
]
