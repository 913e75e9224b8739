//! Digests, computed with the digest crates directly.
use digest::{Digest, Update, VariableOutput};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ht {
    Sha,
    B2,
    B3,
}
pub const ALL: [Ht; 3] = [Ht::Sha, Ht::B2, Ht::B3];

impl Ht {
    pub fn name(self) -> &'static str {
        match self {
            Ht::Sha => "sha512/256",
            Ht::B2 => "blake2b/256",
            Ht::B3 => "blake3/256",
        }
    }
}

pub type D32 = [u8; 32];

pub fn digest(h: Ht, data: &[u8]) -> D32 {
    let mut out = [0u8; 32];
    match h {
        Ht::Sha => out.copy_from_slice(&sha2::Sha512Trunc256::digest(data)),
        Ht::B2 => {
            let mut d = blake2::VarBlake2b::new(32).unwrap();
            d.update(data);
            d.finalize_variable(|r| out.copy_from_slice(r));
        }
        Ht::B3 => out.copy_from_slice(blake3::hash(data).as_bytes()),
    }
    out
}

/// Running BLAKE3 state that is never reset (see the known finding
/// `blake3-cumulative`).
#[derive(Clone)]
pub struct Cumulative(blake3::Hasher);
impl Cumulative {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Cumulative {
        Cumulative(blake3::Hasher::new())
    }
    pub fn block(&mut self, data: &[u8]) -> D32 {
        self.0.update(data);
        *self.0.finalize().as_bytes()
    }
}

pub fn hex(d: &[u8]) -> String {
    const L: &[u8] = b"0123456789abcdef";
    let mut s = String::with_capacity(d.len() * 2);
    for &b in d {
        s.push(L[(b >> 4) as usize] as char);
        s.push(L[(b & 15) as usize] as char);
    }
    s
}

/// Digest of every block.
pub fn blocks(h: Ht, data: &[u8], bs: usize) -> Vec<D32> {
    data.chunks(bs).map(|c| digest(h, c)).collect()
}

/// FNV-1a over bytes (case identities).
pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &b in data {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
