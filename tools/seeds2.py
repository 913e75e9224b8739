import importlib.util, os
_s = importlib.util.spec_from_file_location("seeds1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
rs, S, W, T, P, M, E, H, R, C, G = _m.rs, _m.S, _m.W, _m.T, _m.P, _m.M, _m.E, _m.H, _m.R, _m.C, _m.G
seeds=[
dict(id="s30-last-entry", property="C15", needs="an index cut inside an entry line at a place where what is left of the line is a well-formed entry (a shorter link target, or just its newline is missing)",
 breaks="An entry at the end of the data needs no newline, so the remainder of a line that was cut off is returned as an entry, with a wrong target or size.",
 edits=[(P,"    if !buf.ends_with(b\"\\n\") {\n        return Err(ParseRowError::InvalidLine(\n            format!(\"Every line must end with a newline\")));\n    }\n    buf.pop();\n","    if buf.ends_with(b\"\\n\") {\n        buf.pop();\n    } else if !buf.starts_with(b\"  \") {\n        // a missing footer is noticed when reading the next line\n        return Err(ParseRowError::InvalidLine(\n            format!(\"Every line must end with a newline\")));\n    }\n")],
 demo=rs(r"""
fn main() {
    let body = format!("{}/\n  a f 0\n/d\n  l s target\n{}\n", HEAD, HASH);
    let whole = Parser::new(Cursor::new(body.clone().into_bytes())).unwrap().iter().map(|e| e.unwrap()).collect::<Vec<_>>();
    for n in HEAD.len()..body.len() {
        let mut p = Parser::new(Cursor::new(body.as_bytes()[..n].to_vec())).unwrap();
        let lines = body[..n].matches('\n').count() - 1;
        let got = p.iter().take_while(|e| e.is_ok()).map(|e| e.unwrap()).collect::<Vec<_>>();
        assert!(got.len() <= lines && whole.starts_with(&got), "cut at {}: {:?}", n, got);
    }
}
""")),
dict(id="s31-type-panic", property="C16", needs="an entry whose type field is not valid UTF-8 (any other unknown type is reported)",
 breaks="The type of an entry is unwrapped as UTF-8 for the error message, so a binary type field panics instead of giving a parse error.",
 edits=[(P,"                    format!(\"{}\", String::from_utf8_lossy(file_type.as_bytes()))));","                    file_type.to_str().unwrap().to_string()));")],
 demo=rs(r"""
fn main() {
    for typ in [&b"f"[..], b"y", b"", b"\xc3\xa9", b"\xff", b"s\x80"] {
        let text = [HEAD.as_bytes(), b"/\n  a ", typ, b" 0\n", HASH.as_bytes(), b"\n"].concat();
        let r = std::panic::catch_unwind(|| Parser::new(Cursor::new(text)).unwrap().iter().take(5).count());
        assert!(r.is_ok(), "panic for type {:?}", typ);
    }
}
""")),
dict(id="s32-line-back", property="C19", needs="advance to an entry that the index does not have, and a malformed line after that",
 breaks="A missed advance takes back the number of the row it keeps, although the row is not counted again, so later parse errors name earlier lines.",
 edits=[(P,"                        Greater => {\n                            return None;","                        Greater => {\n                            // the row is kept for the next call\n                            self.current_row_num -= 1;\n                            return None;")],
 demo=rs(r'''
fn main() {
    let text = format!("{}/\n  b f 0\n  c f 0\n  d f\n  e f 0\n{}\n", HEAD, HASH);
    for probe in [vec![], vec!["/a"], vec!["/bb"], vec!["/a", "/bb", "/bc"]] {
        let mut p = Parser::new(Cursor::new(text.clone().into_bytes())).unwrap();
        let mut it = p.iter();
        for q in &probe { assert!(it.advance(&EntryKind::File(Path::new(q))).is_none()); }
        let e = it.find_map(|e| e.err()).unwrap().to_string();
        assert!(e.contains("line 5"), "after {:?}: {}", probe, e);
    }
}
''')),
dict(id="s33-done-early", property="C32", needs="progress output, and a destination that fails exactly when the footer is written (a disk that is full at the last line)",
 breaks="The final line of the progress output, with a checksum, is printed before the footer is written, so a scan that fails claims to be done.",
 edits=[(G,"        self.dest.done()?;\n        write!(&mut self.progress_dest,","        write!(&mut self.progress_dest,"),(G,"            ).ok();\n        self.progress_dest.flush().ok();\n        Ok(())\n    }\n}","            ).ok();\n        self.progress_dest.flush().ok();\n        self.dest.done()\n    }\n}")],
 demo=rs(r'''
use std::os::unix::io::AsRawFd;
extern "C" { fn dup(a: c_int) -> c_int; fn dup2(a: c_int, b: c_int) -> c_int; fn close(a: c_int) -> c_int; }
struct Room(usize);
impl Write for Room {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.0);
        if n == 0 && !b.is_empty() { return Err(io::ErrorKind::StorageFull.into()); }
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// Result and what is printed of a scan into so many bytes.
fn run(room: usize) -> (bool, String) {
    let f = fs::File::create("stderr").unwrap();
    let old = unsafe { dup(2) };
    unsafe { dup2(f.as_raw_fd(), 2) };
    let mut cfg = ScannerConfig::new();
    cfg.threads(0).print_progress().add_dir("tree", "/");
    let r = v1::scan(&cfg, &mut Room(room));
    unsafe { dup2(old, 2); close(old) };
    (r.is_ok(), fs::read_to_string("stderr").unwrap())
}
fn main() {
    put("tree/a", b"x");
    let len = scan("tree").len();
    for room in [0, 20, len - 66, len - 65, len - 64, len - 1, len] {
        let (ok, text) = run(room);
        assert_eq!(ok, room == len);
        assert_eq!(text.contains("Done"), ok, "room for {} of {} bytes: {:?}", room, len, text);
    }
}
''')),
]
