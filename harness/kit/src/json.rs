//! Just enough JSON output.
use std::fmt::Write;

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Bytes as text (non-printable bytes escaped).
pub fn show(b: &[u8]) -> String {
    let mut o = String::new();
    for &c in b {
        match c {
            b'\n' => o.push_str("\\n"),
            0x20..=0x7e => o.push(c as char),
            _ => write!(o, "\\x{:02x}", c).unwrap(),
        }
    }
    o
}

/// Like `show`, shortened.
pub fn brief(b: &[u8]) -> String {
    if b.len() <= 600 {
        show(b)
    } else {
        format!("{}...[{} bytes]...{}", show(&b[..300]), b.len() - 500, show(&b[b.len() - 200..]))
    }
}
