//! Files and blocks of more than 2^32 bytes, all zero.
use crate::common::*;
use dir_signature::v1::Hashes;
use kit::ctx::{cut, violation, Ctx};
use kit::hash::{digest, Ht};
use kit::model::*;
use std::io::{self, Read};

pub const SIZE: u64 = (1 << 32) + 1;

/// A file of SIZE zeros between two small ones.
pub fn scan_case(ctx: &mut Ctx, h: Ht, threads: usize) {
    ctx.case(|| format!("a file of {} bytes, {:?}, {} threads", SIZE, h, threads), |ctx| {
        let root = ctx.fresh("t");
        let small = Node::dir().with(b"a", Node::file(b"1")).with(b"z", Node::exe(b"2"));
        make(&small, &root);
        std::fs::File::create(root.join("m")).and_then(|f| f.set_len(SIZE)).unwrap();
        let s = scan(&root, &Opts::new(h).threads(threads));
        wipe(&root);
        if let Err(e) = &s.res {
            violation(&format!("scan fails: {:?}", e));
        }
        let bs = BS as u64;
        let block = digest(h, &vec![0; BS]);
        let mut hashes = vec![block; (SIZE / bs) as usize];
        hashes.push(digest(h, &vec![0; (SIZE % bs) as usize]));
        let mut ents = entries(&small, h, BS);
        ents.insert(2, REnt { path: b"/m".to_vec(), kind: RKind::File { exe: false, size: SIZE, hashes } });
        let want = render(&ents, h, bs);
        if s.out != want {
            violation(&format!("scan of a file of {} bytes: {}", SIZE, diff(&s.out, &want)));
        }
        ctx.eval();
    });
}

/// `left` zeros, then the bytes of `tail`.
pub struct Zeros {
    pub left: u64,
    pub tail: Vec<u8>,
}

impl Read for Zeros {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.left > 0 {
            let n = (buf.len() as u64).min(self.left) as usize;
            buf[..n].fill(0);
            self.left -= n as u64;
            return Ok(n);
        }
        let n = buf.len().min(self.tail.len());
        buf[..n].copy_from_slice(&self.tail[..n]);
        self.tail.drain(..n);
        Ok(n)
    }
}

pub fn hash_cases(ctx: &mut Ctx) {
    for (h, bs) in [(Ht::Sha, 1u64 << 20), (Ht::B2, 32768)] {
        ctx.case(|| format!("hashing {} bytes, {:?}, block size {}", SIZE, h, bs), |ctx| {
            let r = cut(|| Hashes::hash_file(ht(h), bs, Zeros { left: SIZE - 1, tail: b"x".to_vec() }));
            let mut want = vec![digest(h, &vec![0; bs as usize]); ((SIZE - 1) / bs) as usize];
            want.push(digest(h, b"x"));
            match r {
                Ok(Ok((SIZE, hs))) if hashes(&hs) == want => {}
                Ok(Ok((n, hs))) => violation(&format!("hashing {} bytes with block size {} gives size {} and {} hashes", SIZE, bs, n, hs.len())),
                x => violation(&format!("hashing {} bytes gives {:?}", SIZE, x.map(|r| r.map(|_| ())))),
            }
            ctx.eval();
        });
    }
    // blocks of more than 2^32 bytes: the same bytes in other blocks
    ctx.case(|| "block size beyond 2^32".into(), |ctx| {
        let h = Ht::B2;
        let bs = (1u64 << 32) + 3;
        let r = cut(|| Hashes::hash_file(ht(h), bs, Zeros { left: bs, tail: b"tail".to_vec() }));
        match r {
            Ok(Ok((n, hs))) if n == bs + 4 && hs.len() == 2 && hs.get(1) == Some(&digest(h, b"tail")[..]) => {}
            x => violation(&format!("hashing {} bytes with block size {} gives {:?}", bs + 4, bs, x.map(|r| r.map(|(n, h)| (n, h.len()))))),
        }
        ctx.eval();
    });
}

pub fn check_cases(ctx: &mut Ctx) {
    for (h, bs) in [(Ht::B2, 32768u64)] {
        ctx.case(|| format!("checking {} bytes, {:?}, block size {}", SIZE, h, bs), |ctx| {
            let mut want = vec![digest(h, &vec![0; bs as usize]); ((SIZE - 1) / bs) as usize];
            want.push(digest(h, b"x"));
            let rec = lib_hashes(h, bs, SIZE, &want);
            for (tail, good) in [(&b"x"[..], true), (b"xx", false)] {
                match cut(|| rec.check_file(Zeros { left: SIZE - 1, tail: tail.to_vec() })) {
                    Ok(Ok(g)) if g == good => {}
                    x => violation(&format!("checking {} bytes ({}) gives {:?}", SIZE, if good { "the recorded ones" } else { "others" }, x)),
                }
                ctx.eval();
            }
        });
    }
}
