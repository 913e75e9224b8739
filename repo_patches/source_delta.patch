From 10b51cf61e5926f1be7cf7561011a22c29b54dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 01/14] fix: keep the footer right when progress is printed

Progress::done() takes the total hash for its last message before the
index is finished, and taking it reset the digest, so the footer was the
hash of nothing.
---
 src/v1/threaded_writer.rs | 2 +-
 src/v1/writer.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 61b479e..5e57baa 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -157,7 +157,7 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     }
     fn get_hash(&mut self) -> Result<Self::TotalHash, Error> {
         self.wait_queue()?;
-        Ok(self.file.digest.total_hash())
+        Ok(self.file.digest.clone().total_hash())
     }
     fn done(mut self) -> Result<(), Error>
     {
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index 484a78d..7521c95 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -77,7 +77,7 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
         Ok(())
     }
     fn get_hash(&mut self) -> Result<H::Output, Error> {
-        Ok(self.file.digest.total_hash())
+        Ok(self.file.digest.clone().total_hash())
     }
     fn done(mut self) -> Result<(), Error>
     {
-- 
2.43.0


From 7a1a43ea4f604f6755bf3fe4279892f6c7652ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 02/14] fix: end blake3 indexes written by the emitter with a
 newline

The checksum line must be a line: without the newline the parser and
get_hash() refuse the index. Also do not lose the rest of the line when
the destination takes only a part of it.
---
 src/v1/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v1/emitter.rs b/src/v1/emitter.rs
index a111027..7e8bce6 100644
--- a/src/v1/emitter.rs
+++ b/src/v1/emitter.rs
@@ -157,7 +157,7 @@ impl HashTrait for blake3::Hasher {
         self.update(data);
     }
     fn write_hash(&mut self, out: &mut dyn Write) -> io::Result<()> {
-        out.write(self.finalize().to_hex().as_str().as_bytes()).map(|_| ())
+        writeln!(out, "{}", self.finalize().to_hex())
     }
 }
 
-- 
2.43.0


From 0fc2179bd7a85e8b28f22dc8b6328a28975c2508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 03/14] fix: read the index completely in get_hash

A reader may return fewer bytes than asked for or be interrupted; neither
means that the index is cut off or invalid.
---
 src/read.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/read.rs b/src/read.rs
index c993da0..0ec5a3b 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -18,9 +18,9 @@ fn hex_to_digit(v: u8) -> Option<u8> {
 /// checksum of the file or as identifier if this image/directory
 pub fn get_hash<F: Read+Seek>(f: &mut F) -> Result<Vec<u8>, io::Error> {
     let einval = io::ErrorKind::InvalidData;
-    let mut signature = [0u8; 32];
-    f.read(&mut signature)?;
-    if &signature[..16] != b"DIRSIGNATURE.v1 " {
+    let mut signature = Vec::with_capacity(32);
+    f.by_ref().take(32).read_to_end(&mut signature)?;
+    if !signature.starts_with(b"DIRSIGNATURE.v1 ") {
         return Err(einval.into());
     }
     let hash = signature[16..].iter().position(|&x| x == b' ')
@@ -30,9 +30,9 @@ pub fn get_hash<F: Read+Seek>(f: &mut F) -> Result<Vec<u8>, io::Error> {
 
     let nbytes = hash.output_bytes()*2+2;
     f.seek(SeekFrom::End(- (nbytes as i64)))?;
-    let mut buf = [0u8; 100];
-    assert!(buf.len() >= nbytes);
-    if f.read(&mut buf)? != nbytes {
+    let mut buf = Vec::with_capacity(100);
+    f.by_ref().take(100).read_to_end(&mut buf)?;
+    if buf.len() != nbytes {
         return Err(io::ErrorKind::UnexpectedEof.into());
     }
     if buf[0] != b'\n' || buf[nbytes-1] != b'\n' {
-- 
2.43.0


From ec47a587d68171e0809b05363effe7bc88e03d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:52 +0000
Subject: [PATCH 04/14] fix: don't trust the sizes in an index when parsing it

A zero block size divided by zero, a huge one overflowed, and a huge file
size reserved memory for hashes that are not there.
---
 src/v1/parser.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index bd330cb..da20753 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -295,8 +295,9 @@ impl Header {
                 },
                 Some(_) => {
                     match block_size_kv.next() {
-                        Some(v) => u64::from_str_radix(v, 10)
-                            .map_err(|_| ParseRowError::InvalidBlockSize(
+                        Some(v) => u64::from_str_radix(v, 10).ok()
+                            .filter(|&n| n > 0)
+                            .ok_or_else(|| ParseRowError::InvalidBlockSize(
                                 v.to_string()))?,
                         None => return Err(ParseRowError::MissingBlockSize),
                     }
@@ -521,7 +522,8 @@ impl Entry {
             let (file_type, row) = parse_os_str(row)?;
             if file_type == "f" || file_type == "x" {
                 let (file_size, row) = parse_u64(row)?;
-                let hashes_num = ((file_size + block_size - 1) / block_size) as usize;
+                let hashes_num = (file_size / block_size
+                    + (file_size % block_size != 0) as u64) as usize;
                 let (hashes_data, row) = parse_hashes(row, hash_type, hashes_num)?;
                 let hashes = Hashes::new(hashes_data, hash_type, block_size);
                 (Entry::File {
@@ -820,7 +822,8 @@ fn parse_hashes<'a>(data: &'a [u8], hash_type: HashType, hashes_num: usize)
     let hash_len = digest_len * 2;
 
     let mut i = 0;
-    let mut buf = Vec::with_capacity(hashes_num * digest_len);
+    let mut buf = Vec::with_capacity(
+        hashes_num.min(data.len() / hash_len + 1) * digest_len);
     loop {
         if i == hashes_num {
             break;
-- 
2.43.0


From 7e796162d425fdeaf2b6f015916b83784b3556ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 05/14] fix: don't parse incomplete rows or reuse malformed
 ones

Reading a row could fail halfway (read error or truncated file). The part
that was read so far was then kept, and parsed as a row by the next call of
advance(), or dropped by next() so that the rest was parsed as a row. A
malformed row was kept by advance() and reported again and again. And if
data followed the footer, it was parsed as more entries.
---
 src/v1/parser.rs | 87 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 60 insertions(+), 27 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index da20753..0e120d9 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -632,8 +632,12 @@ pub struct EntryIterator<'a, R: BufRead> {
     hash_type: HashType,
     block_size: u64,
     current_row: Vec<u8>,
+    /// Whether `current_row` is a complete line, an incomplete one can only
+    /// be continued, never parsed
+    row_complete: bool,
     current_row_num: usize,
     current_dir: PathBuf,
+    footer_found: bool,
     exhausted: bool,
 }
 
@@ -646,8 +650,10 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
             hash_type: hash_type,
             block_size: block_size,
             current_row: vec!(),
+            row_complete: false,
             current_row_num: 1,
             current_dir: PathBuf::new(),
+            footer_found: false,
             exhausted: false,
         }
     }
@@ -659,36 +665,62 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
         if self.exhausted {
             return Ok(None);
         }
+        if self.footer_found {
+            return self.check_end();
+        }
         self.current_row_num += 1;
-        if self.current_row.is_empty() {
+        if !self.row_complete {
             read_line(self.reader.by_ref(), &mut self.current_row)
                 .context(self.current_row_num)?;
+            self.row_complete = true;
         }
-        let row = &self.current_row[..];
-        let entry = Entry::parse(
-                row, &self.current_dir, self.hash_type, self.block_size)
-            .context(self.current_row_num)?;
-        match entry {
-            None => {
-                let _footer = Footer::parse(row, self.hash_type)
-                    .context(self.current_row_num)?;
-                let mut test_buf = [0; 1];
-                if self.reader.read(&mut test_buf)? != 0 {
-                    return Err(ErrorEnum::Parse(
-                        ParseRowError::InvalidLine(
-                            format!("Found extra lines after the footer")),
-                        self.current_row_num));
-                }
-                self.exhausted = true;
-                Ok(None)
-            },
-            Some(entry) => {
+        match self.parse_row() {
+            Ok(Some(entry)) => {
                 if let Entry::Dir(ref dir_path) = entry {
                     self.current_dir = dir_path.clone();
                 }
                 Ok(Some(entry))
             },
+            Ok(None) => {
+                self.skip_row();
+                self.footer_found = true;
+                self.check_end()
+            },
+            Err(e) => {
+                self.skip_row();
+                Err(ErrorEnum::Parse(e, self.current_row_num))
+            },
+        }
+    }
+
+    /// Parses current row, returns `None` for the footer
+    fn parse_row(&self) -> Result<Option<Entry>, ParseRowError> {
+        let row = &self.current_row[..];
+        let entry = Entry::parse(
+            row, &self.current_dir, self.hash_type, self.block_size)?;
+        if entry.is_none() {
+            Footer::parse(row, self.hash_type)?;
         }
+        Ok(entry)
+    }
+
+    /// Checks that there is nothing after the footer
+    fn check_end(&mut self) -> Result<Option<Entry>, ErrorEnum> {
+        let mut test_buf = [0; 1];
+        let extra_bytes = self.reader.read(&mut test_buf)?;
+        self.exhausted = true;
+        if extra_bytes != 0 {
+            return Err(ErrorEnum::Parse(
+                ParseRowError::InvalidLine(
+                    format!("Found extra lines after the footer")),
+                self.current_row_num));
+        }
+        Ok(None)
+    }
+
+    fn skip_row(&mut self) {
+        self.current_row.clear();
+        self.row_complete = false;
     }
 
     /// Advances to the entry beyond the current whose path is equal to
@@ -706,14 +738,14 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
                 Ok(Some(entry)) => {
                     match entry.kind().cmp(&kind.as_ref()) {
                         Less => {
-                            self.current_row.clear();
+                            self.skip_row();
                             continue;
                         },
                         Greater => {
                             return None;
                         },
                         Equal => {
-                            self.current_row.clear();
+                            self.skip_row();
                             return Some(Ok(entry));
                         },
                     }
@@ -729,13 +761,14 @@ impl<'a, R: BufRead> Iterator for EntryIterator<'a, R> {
     type Item = Result<Entry, ParseError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let res = match self.parse_entry() {
-            Ok(Some(entry)) => Some(Ok(entry)),
+        match self.parse_entry() {
+            Ok(Some(entry)) => {
+                self.skip_row();
+                Some(Ok(entry))
+            },
             Ok(None) => None,
             Err(e) => Some(Err(e)),
-        };
-        self.current_row.clear();
-        res
+        }
     }
 }
 
-- 
2.43.0


From 50c75cb9cf4d92d606275f4176ab07aa2bb40638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 06/14] fix: count a row only once when reporting line numbers

advance() leaves an entry that is greater than the wanted one in the buffer
and the following call counted its row again.
---
 src/v1/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 0e120d9..6f10246 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -668,10 +668,10 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
         if self.footer_found {
             return self.check_end();
         }
-        self.current_row_num += 1;
         if !self.row_complete {
             read_line(self.reader.by_ref(), &mut self.current_row)
-                .context(self.current_row_num)?;
+                .context(self.current_row_num + 1)?;
+            self.current_row_num += 1;
             self.row_complete = true;
         }
         match self.parse_row() {
-- 
2.43.0


From 792a51120e63001f82f3f07444621fe2a59a8e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 07/14] fix: retry interrupted reads when checking for the end
 of data

---
 src/v1/parser.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 6f10246..9fe36ac 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -464,11 +464,7 @@ impl Hashes {
                 return Ok(false);
             }
         }
-        let mut test_buf = [0; 1];
-        if f.read(&mut test_buf)? != 0 {
-            return Ok(false);
-        }
-        Ok(true)
+        is_at_end(&mut f)
     }
 }
 
@@ -706,10 +702,9 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
 
     /// Checks that there is nothing after the footer
     fn check_end(&mut self) -> Result<Option<Entry>, ErrorEnum> {
-        let mut test_buf = [0; 1];
-        let extra_bytes = self.reader.read(&mut test_buf)?;
+        let at_end = is_at_end(&mut self.reader)?;
         self.exhausted = true;
-        if extra_bytes != 0 {
+        if !at_end {
             return Err(ErrorEnum::Parse(
                 ParseRowError::InvalidLine(
                     format!("Found extra lines after the footer")),
@@ -772,6 +767,18 @@ impl<'a, R: BufRead> Iterator for EntryIterator<'a, R> {
     }
 }
 
+/// Checks that there is nothing more to read
+fn is_at_end<R: io::Read>(reader: &mut R) -> io::Result<bool> {
+    let mut test_buf = [0; 1];
+    loop {
+        match reader.read(&mut test_buf) {
+            Ok(n) => return Ok(n == 0),
+            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {},
+            Err(e) => return Err(e),
+        }
+    }
+}
+
 fn read_line<R: BufRead>(reader: &mut R, mut buf: &mut Vec<u8>)
     -> Result<(), ParseRowError>
 {
-- 
2.43.0


From 73214b05062812f8cc8d6db8ff8b29edb0e5ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 08/14] fix: reject entries that have no name or no directory

Such entries had a relative path, the path of another entry or of a
directory, and comparing them could panic.
---
 src/v1/parser.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 9fe36ac..bd4f427 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -513,8 +513,16 @@ impl Entry {
             (Entry::Dir(path), row)
         } else if row.starts_with(b"  ") {
             let row = &row[2..];
-            let (path, row) = parse_path(row)?;
-            let path = current_dir.join(&path);
+            let (name, row) = parse_path(row)?;
+            if current_dir.as_os_str().is_empty() {
+                return Err(ParseRowError::InvalidLine(
+                    format!("Entry is not in a directory: {:?}", name)));
+            }
+            if !is_file_name(&name) {
+                return Err(ParseRowError::InvalidLine(
+                    format!("Invalid file name: {:?}", name)));
+            }
+            let path = current_dir.join(&name);
             let (file_type, row) = parse_os_str(row)?;
             if file_type == "f" || file_type == "x" {
                 let (file_size, row) = parse_u64(row)?;
@@ -767,6 +775,13 @@ impl<'a, R: BufRead> Iterator for EntryIterator<'a, R> {
     }
 }
 
+/// Checks that the path is just a name of an entry inside a directory
+fn is_file_name(name: &Path) -> bool {
+    let name = name.as_os_str().as_bytes();
+    !(name.is_empty() || name == b"." || name == b".."
+        || name.contains(&b'/'))
+}
+
 /// Checks that there is nothing more to read
 fn is_at_end<R: io::Read>(reader: &mut R) -> io::Result<bool> {
     let mut test_buf = [0; 1];
-- 
2.43.0


From adc71f4c521b9d4bc2202e39b6976619bdd5c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 09/14] fix: reject rows without a link target and signed sizes

---
 src/v1/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index bd4f427..4db0ed3 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -296,7 +296,7 @@ impl Header {
                 Some(_) => {
                     match block_size_kv.next() {
                         Some(v) => u64::from_str_radix(v, 10).ok()
-                            .filter(|&n| n > 0)
+                            .filter(|&n| n > 0 && !v.starts_with('+'))
                             .ok_or_else(|| ParseRowError::InvalidBlockSize(
                                 v.to_string()))?,
                         None => return Err(ParseRowError::MissingBlockSize),
@@ -538,6 +538,10 @@ impl Entry {
                  row)
             } else if file_type == "s" {
                 let (dest, row) = parse_path_buf(row)?;
+                if dest.as_os_str().is_empty() {
+                    return Err(ParseRowError::InvalidLine(
+                        format!("Missing link target")));
+                }
                 (Entry::Link(path, dest), row)
             } else {
                 return Err(ParseRowError::InvalidFileType(
@@ -837,6 +841,10 @@ fn parse_u64<'a>(data: &'a [u8])
 {
     let (field, tail) = parse_field(data)?;
     let s = std::str::from_utf8(field)?;
+    if s.starts_with('+') {
+        return Err(ParseRowError::InvalidLine(
+            format!("Size must not be signed: {:?}", s)));
+    }
     let v = u64::from_str_radix(s, 10)?;
     Ok((v, tail))
 }
-- 
2.43.0


From 9a3f5dcf98b86792ed8b03b4776133bd1564125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 10/14] fix: don't add a hash of an empty block in hash_file

It added one if the size was a multiple of the block size (or zero), so the
hashes were not those that a scan records, and the emitter wrote a line
that can't be parsed.
---
 src/v1/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 4db0ed3..e5b4506 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -436,6 +436,10 @@ impl Hashes {
         let mut size = 0;
         loop {
             let (bs, hash) = h.hash_and_size(&mut f, block_size)?;
+            if bs == 0 {
+                // there are no empty blocks
+                break;
+            }
             buf.extend(hash.result());
             size += bs;
             if bs < block_size {
-- 
2.43.0


From fa4c0b62e9860d6a4fdef6df028441157c3edc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:53 +0000
Subject: [PATCH 11/14] fix: honour the queue_size of the scanner config

---
 src/v1/mod.rs             | 2 +-
 src/v1/threaded_writer.rs | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/v1/mod.rs b/src/v1/mod.rs
index 6392f8a..eb17278 100644
--- a/src/v1/mod.rs
+++ b/src/v1/mod.rs
@@ -66,7 +66,7 @@ fn add_threads<O, H: Hash>(config: &ScannerConfig, hash: H, out: &mut O)
 {
     if config.threads > 1 {
         add_progress(config, threaded_writer::ThreadedWriter::new(
-            config.threads,
+            config.threads, config.queue_size,
             out, hash, config.block_size)?)
     } else {
         add_progress(config, SyncWriter::new(out, hash, config.block_size)?)
diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 5e57baa..196630f 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -38,7 +38,8 @@ pub struct ThreadedWriter<F, H: Hash> {
 }
 
 impl<F: io::Write, H: Hash> ThreadedWriter<F, H> {
-    pub fn new(threads: usize, mut f: F, hash: H, block_size: u64)
+    pub fn new(threads: usize, queue_size: Option<usize>,
+        mut f: F, hash: H, block_size: u64)
         -> Result<ThreadedWriter<F, H>, Error>
     {
         writeln!(&mut f,
@@ -52,8 +53,8 @@ impl<F: io::Write, H: Hash> ThreadedWriter<F, H> {
             file: HashWriter { file: f, digest: hash.clone() },
             block_size: block_size,
             hash: hash,
-            queue_limit: threads*16,
-            queue: VecDeque::with_capacity(threads*16),
+            queue_limit: queue_size.unwrap_or(threads*16),
+            queue: VecDeque::new(),
             pool: CpuPool::new(threads),
         })
     }
-- 
2.43.0


From 0b083897abff40e3089fc202540b65a3627e663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:53 +0000
Subject: [PATCH 12/14] fix: report a failure to write the footer as a write
 error

---
 src/v1/threaded_writer.rs | 2 +-
 src/v1/writer.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 196630f..60db557 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -163,7 +163,7 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EFile)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)
     }
 }
 
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index 7521c95..e2b4c30 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -82,7 +82,7 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EFile)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)
     }
 }
 
-- 
2.43.0


From 552dead83caaf11afd4ed2d6d055f41099cf5fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:19 +0000
Subject: [PATCH 13/14] fix: report errors when flushing the index file

---
 src/bin/index.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/index.rs b/src/bin/index.rs
index da0f502..2900a26 100644
--- a/src/bin/index.rs
+++ b/src/bin/index.rs
@@ -107,7 +107,9 @@ pub fn run() -> i32 {
                 return 1;
             }
         };
-        v1::scan(&cfg, &mut io::BufWriter::new(file))
+        let mut out = io::BufWriter::new(file);
+        v1::scan(&cfg, &mut out)
+            .and_then(|()| out.flush().map_err(v1::Error::WriteError))
     } else {
         v1::scan(&cfg, &mut io::stdout())
     };
-- 
2.43.0


From dc8dab59a0559d203283979abb96df3ae569602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 14/14] fix: hash files in as many threads as asked for

threads(1) made no hashing thread at all, and "index -t N" made N+1.
---
 src/bin/index.rs | 2 +-
 src/v1/mod.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/index.rs b/src/bin/index.rs
index 2900a26..3dd0f49 100644
--- a/src/bin/index.rs
+++ b/src/bin/index.rs
@@ -77,7 +77,7 @@ pub fn run() -> i32 {
     }
 
     let mut cfg = ScannerConfig::new();
-    cfg.threads(threads + 1);
+    cfg.threads(threads);
     cfg.hash(hash_type);
     if progress {
         cfg.print_progress();
diff --git a/src/v1/mod.rs b/src/v1/mod.rs
index eb17278..e746251 100644
--- a/src/v1/mod.rs
+++ b/src/v1/mod.rs
@@ -64,7 +64,7 @@ fn add_threads<O, H: Hash>(config: &ScannerConfig, hash: H, out: &mut O)
     -> Result<(), Error>
     where O: io::Write,
 {
-    if config.threads > 1 {
+    if config.threads > 0 {
         add_progress(config, threaded_writer::ThreadedWriter::new(
             config.threads, config.queue_size,
             out, hash, config.block_size)?)
-- 
2.43.0

