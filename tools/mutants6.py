S='src/v1/scan.rs'; W='src/v1/writer.rs'; T='src/v1/threaded_writer.rs'; P='src/v1/parser.rs'; M='src/v1/merge.rs'; E='src/v1/emitter.rs'; H='src/v1/hash.rs'; R='src/read.rs'; C='src/bin/index.rs'; G='src/v1/progress.rs'; V='src/v1/mod.rs'; K='src/config.rs'; Y='src/hash_type.rs'
LINK="        let dest = dir.read_link(&entry).map_err(EFile)?;\n        write!(&mut self.file"
ADV="                        Less => {\n                            self.skip_row();\n                            continue;"
NEXTN="            row_complete: false,\n            current_row_num: 1,"
muts=[
("v01-linknorm",["C01","C07"],[(W,LINK,LINK.replace("map_err(EFile)?;","map_err(EFile)?;\n        let dest: std::path::PathBuf = dest.components().collect();"))]),
("v02-exe-empty",["C01","C30"],[(W,"if meta.permissions().mode() & EXE_MASK > 0 {","if n > 0 && meta.permissions().mode() & EXE_MASK > 0 {")]),
("v03-static-queue",["C26","C33"],[(T,"            queue_limit: queue_size.unwrap_or(threads*16),","            queue_limit: { static L: std::sync::OnceLock<usize> = std::sync::OnceLock::new(); *L.get_or_init(|| queue_size.unwrap_or(threads*16)) },")]),
("v04-row-pool",["C33","C18","C11"],[(P,"            current_row: vec!(),\n            row_complete: false","            current_row: SPARE.with(|s| std::mem::replace(&mut *s.borrow_mut(), Vec::new())),\n            row_complete: false"),
  (P,"impl<'a, R: BufRead> Iterator for EntryIterator<'a, R> {","thread_local! { static SPARE: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new()); }\n\nimpl<'a, R: BufRead> Drop for EntryIterator<'a, R> {\n    fn drop(&mut self) {\n        let mut row = std::mem::replace(&mut self.current_row, Vec::new());\n        if self.exhausted || self.row_complete { row.clear(); }\n        SPARE.with(|s| *s.borrow_mut() = row);\n    }\n}\n\nimpl<'a, R: BufRead> Iterator for EntryIterator<'a, R> {")]),
("v05-check-hasher",["C33","C21"],[(P,"            Blake2b_256 => self._check_file(f, hash::Blake2b_256::new()),\n            Blake3_256 => self._check_file","            Blake2b_256 => {\n                thread_local! { static B: std::cell::RefCell<hash::Blake2b_256> = std::cell::RefCell::new(hash::Blake2b_256::new()); }\n                B.with(|b| self._check_file::<_, _, hash::Blake2b_256>(f, &mut *b.borrow_mut()))\n            }\n            Blake3_256 => self._check_file::<_, _, hash::Blake3_256>"),
  (P,"            Sha512_256 => self._check_file(f","            Sha512_256 => self._check_file::<_, _, hash::Sha512_256>(f"),
  (P,"    fn _check_file<R: io::Read, H: hash::Hash>(&self, mut f: R, mut h: H)","    fn _check_file<R: io::Read, X: std::borrow::BorrowMut<H>, H: hash::Hash>(&self, mut f: R, mut h: X)"),
  (P,"            let hash = h.hash_file(&mut f, self.block_size)?;","            let hash = h.borrow_mut().hash_file(&mut f, self.block_size)?;")]),
("v06-emit-line",["C33","C23","C05"],[(E,"        writeln!(self.out, \"{}\", Name(path))?;\n        Ok(())","        thread_local! { static L: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new()); }\n        L.with(|l| {\n            let mut l = l.borrow_mut();\n            writeln!(l, \"{}\", Name(path))?;\n            self.out.write_all(&l)?;\n            l.clear();\n            Ok(())\n        })")]),
("v07-chdir",["C33","C27"],[(S,"                Arc::new(Dir::open(path).map_err(EDir)?),","                { std::env::set_current_dir(path).map_err(EDir)?; Arc::new(Dir::open(\".\").map_err(EDir)?) },")]),
("v08-static-progress",["C32","C33"],[(G,"        self.files += 1;","        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n        if self.files == 0 { N.store(0, std::sync::atomic::Ordering::SeqCst); }\n        self.files = 1 + N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);")]),
("v09-seen",["C34"],[(P,"    footer_found: bool,\n    exhausted: bool,\n}","    footer_found: bool,\n    exhausted: bool,\n    seen: std::collections::HashSet<u64>,\n}"),(P,"            exhausted: false,\n","            exhausted: false,\n            seen: Default::default(),\n"),(P,"            self.row_complete = true;\n        }\n        match","            self.row_complete = true;\n            let n = self.current_row_num as u64;\n            self.seen.insert(n);\n        }\n        match")]),
("v10-skipped",["C34"],[(P,"        use std::cmp::Ordering::*;\n\n        loop {\n            match self.parse_entry() {\n                Ok(Some(entry)) => {\n                    match","        use std::cmp::Ordering::*;\n        let mut skipped = Vec::new();\n\n        loop {\n            match self.parse_entry() {\n                Ok(Some(entry)) => {\n                    match"),(P,ADV,ADV.replace("                            self.skip_row();","                            self.skip_row();\n                            skipped.push(entry);"))]),
("v11-block-read",["C34"],[(H,"        let bytes = io::copy(&mut f.take(block_size), self)?;\n        Ok((bytes","        let mut data = Vec::new();\n        let bytes = io::Read::read_to_end(&mut f.take(block_size), &mut data)? as u64;\n        self.write_all(&data)?;\n        Ok((bytes")]),
("v11b-block-read",["C34"],[(H,"        io::copy(&mut f.take(block_size), self)?;\n        Ok(self","        let mut data = Vec::new();\n        io::Read::read_to_end(&mut f.take(block_size), &mut data)?;\n        self.write_all(&data)?;\n        Ok(self")]),
("v12-progress-names",["C34"],[(G,"    started: Instant,\n}","    started: Instant,\n    last: Vec<std::path::PathBuf>,\n}"),(G,"            started: Instant::now(),\n        }","            started: Instant::now(),\n            last: Vec::new(),\n        }"),(G,"        self.symlinks += 1;","        self.symlinks += 1;\n        self.last.push(entry.file_name().into());")]),
("v13-emit-buffer",["C34","C23"],[(E,"pub(crate) struct HashWriter<'a> {\n    out: &'a mut dyn Write,","pub(crate) struct HashWriter<'a> {\n    out: io::BufWriter<&'a mut dyn Write>,"),(E,"                out: dest,","                out: io::BufWriter::with_capacity(1 << 24, dest),"),(E,"self.out.hash.write_hash(self.out.out)?;","self.out.hash.write_hash(&mut self.out.out)?;\n        self.out.out.flush()?;")]),
("v14-merge-keep",["C34","C13"],[(M,"            Less => {\n                self.head = None;","            Less => {\n                std::mem::forget(self.head.take());")]),
("v15-rows-keep",["C34"],[(P,"    fn skip_row(&mut self) {\n        self.current_row.clear();","    fn skip_row(&mut self) {\n        self.current_row = Vec::with_capacity(self.current_row.capacity() + 1);")]),
("v16-pool-plus",["C35","C26"],[(T,"CpuPool::new(threads),","CpuPool::new(threads + (threads > 4) as usize),")]),
("v17-ncpu",["C35"],[(T,"CpuPool::new(threads),","CpuPool::new(threads.min(num_cpus::get())),")]),
("v18-leak-err",["C35","C31"],[(T,"    fn done(mut self) -> Result<(), Error>\n    {\n        let hash = self.get_hash()?;","    fn done(mut self) -> Result<(), Error>\n    {\n        let hash = match self.get_hash() { Ok(h) => h, Err(e) => { std::mem::forget(self.pool.clone()); return Err(e); } };")]),
("v19-cli-t0",["C35"],[(C,"    cfg.threads(threads);","    cfg.threads(threads.max(1));")]),
("v20-cli-x2",["C35"],[(C,"    let mut threads = get_num_cpus();","    let mut threads = get_num_cpus() + 1;")]),
("v21-reader-thread",["C35"],[(W,"        let mut f = dir.open_file(&entry).map_err(EFile)?;\n        let meta","        let mut f = dir.open_file(&entry).map_err(EFile)?;\n        let g = f.try_clone().map_err(EFile)?;\n        std::thread::spawn(move || drop(g.metadata())).join().ok();\n        let meta")]),
("v22-trim",["C36"],[(Y,"        match val {","        match val.trim() {")]),
("v23-alias",["C36"],[(Y,'            "sha512/256" => Ok','            "sha512/256" | "sha512_256" => Ok')]),
("v24-short",["C36"],[(Y,'            "blake3/256" => Ok','            "blake3/256" | "blake3" => Ok')]),
("v25-gethash-prefix",["C36","C06"],[(R,"        .and_then(|s| HashType::from_str(s).ok())","        .and_then(|s| HashType::from_str(s.trim_matches('\\0')).ok())")]),
("v26-header-len",["C36","C17"],[(P,"            HashType::from_str(hash_type_str)\n","            HashType::from_str(hash_type_str.trim_end_matches(':'))\n")]),
("v27-rename",["C28"],[(C,"        let file = match File::create(&path) {","        let dest = path; let mut path = dest.clone().into_os_string(); path.push(\".tmp\"); let path = PathBuf::from(path);\n        let file = match File::create(&path) {"),(C,"            .and_then(|()| out.flush().map_err(v1::Error::WriteError))","            .and_then(|()| out.flush().map_err(v1::Error::WriteError))\n            .map(|()| { std::fs::rename(&path, &dest).ok(); })")]),
("v28-stdout-buf",["C28"],[(C,"        v1::scan(&cfg, &mut io::stdout())","        let mut out = io::BufWriter::new(io::stdout());\n        v1::scan(&cfg, &mut out)")]),
("v29-size-late",["C25"],[(T,"                size: meta.len(),\n                hashes: buf,","                size: f.metadata().map_err(EFile)?.len(),\n                hashes: buf,")]),
("v30-emit-exe",["C09"],[(E,"if executable { \"x\" }","if executable && size > 0 { \"x\" }")]),
("v31-emit-hash-trunc",["C09","C20"],[(E,"        for item in hashes.hex_iter() {","        for item in hashes.hex_iter().take((size / 32768 + 1) as usize) {")]),
("v32-merge-builder-dup",["C12","C14","C13"],[(M,"        self.paths.push((","        self.paths.retain(|p| p.0 != base_path.as_ref());\n        self.paths.push((")]),
("v33-advance-last",["C13"],[(M,"            if let Some(entry) = iterator.advance(to) {\n                entries.push((key, entry));\n            }","            if let Some(entry) = iterator.advance(to) {\n                let failed = entry.is_err();\n                entries.push((key, entry));\n                if failed { break; }\n            }")]),
("v34-err-first",["C12"],[(M,"                    Some(&Err(_)) => {\n                        self.iterator_ixs.push(ix);\n                    },","                    Some(&Err(_)) => {\n                        self.iterator_ixs.insert(0, ix);\n                    },")]),
("v35-next-fuse",["C17","C15","C19"],[(P,"                self.skip_row();\n                Some(Ok(entry))\n            },\n            Ok(None) => None,\n            Err(e) => Some(Err(e)),","                self.skip_row();\n                Some(Ok(entry))\n            },\n            Ok(None) => None,\n            Err(e) => { if self.current_row.is_empty() && self.current_row_num > 1 && self.current_dir.as_os_str().is_empty() { self.exhausted = true; } Some(Err(e)) },")]),
("v36-dir-keep",["C11","C17","C08"],[(P,"                    self.current_dir = dir_path.clone();","                    if dir_path.starts_with(&self.current_dir) || !self.current_dir.starts_with(dir_path) { self.current_dir = dir_path.clone(); }")]),
("v37-kind-eq",["C10"],[(P,"                            Less | Equal => Less,","                            Less => Less, Equal => if path.parent().is_none() { Less } else { Less },")]),
("v38-kind-file",["C10","C11"],[(P,"                                path.file_name()\n                                    .expect(\"Empty file name\")\n                                    .cmp(&other_path.as_ref().file_name()\n                                         .expect(\"Empty file name\"))","                                path.as_os_str().to_string_lossy()\n                                    .cmp(&other_path.as_ref().as_os_str()\n                                         .to_string_lossy())")]),
("v39-name-nonutf",["C07","C01"],[(W,"        for &b in self.0.as_os_str().as_bytes() {","        for &b in self.0.to_string_lossy().as_bytes() {")]),
("v40-link-dir",["C01","C24"],[(S,"                    T::Symlink => files.push((dir.clone(), entry, true)),","                    T::Symlink => { if dir.read_link(&entry).map(|l| l.as_os_str().is_empty()).unwrap_or(false) { continue; } files.push((dir.clone(), entry, true)) },")]),
("v41-poll-skip",["C03","C26"],[(T,"            let want_block = self.queue.len() >= self.queue_limit;","            let want_block = self.queue.len() >= self.queue_limit.max(1);")]),
("v42-drop-dir",["C26","C22","C31"],[(T,"        self.queue.push_back(Operation::Symlink(dir.clone(), entry));\n        self.poll_queue()","        self.queue.push_back(Operation::Symlink(dir.clone(), entry));\n        if self.queue.len() > 1 { return Ok(()); }\n        self.poll_queue()")]),
("v43-list-retry",["C22","C25","C02"],[(S,"            for entry in dir.list_dir(\".\").map_err(EList)? {","            let entries = match dir.list_dir(\".\") { Err(ref e) if e.raw_os_error() == Some(24) => dir.list_dir(\".\").map_err(EList)?, r => r.map_err(EList)? };\n            for entry in entries {")]),
("v44-read-eintr",["C02","C20","C22"],[(H,"        io::copy(&mut f.take(block_size), self)?;\n        Ok(self","        let mut f = f.take(block_size);\n        let mut buf = [0; 4096];\n        loop {\n            let n = io::Read::read(&mut f, &mut buf)?;\n            if n == 0 { break; }\n            self.write_all(&buf[..n])?;\n        }\n        Ok(self")]),
("v45-read-wouldblock",["C22"],[(H,"        io::copy(&mut f.take(block_size), self)?;\n        Ok(self","        match io::copy(&mut f.take(block_size), self) { Err(ref e) if e.raw_os_error() == Some(61) => {} r => { r?; } }\n        Ok(self")]),
]
