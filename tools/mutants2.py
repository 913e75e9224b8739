S='src/v1/scan.rs'; W='src/v1/writer.rs'; T='src/v1/threaded_writer.rs'; P='src/v1/parser.rs'; M='src/v1/merge.rs'; E='src/v1/emitter.rs'; H='src/v1/hash.rs'; R='src/read.rs'; C='src/bin/index.rs'; G='src/v1/progress.rs'; V='src/v1/mod.rs'
muts=[
("n04-sort-big",["C01","C02"],[(S,"        files.sort_by(|","        if files.len() < 3000 { files.sort_by(|"),(S,"            a.file_name().cmp(&b.file_name())\n        });","            a.file_name().cmp(&b.file_name())\n        }); }")]),
("n05-queue-back",["C01"],[(S,"            queue.push_front((\n                dirpath,","            let f = if queue.len() > 500 { VecDeque::push_back } else { VecDeque::push_front }; f(&mut queue, (\n                dirpath,")]),
("n13-shared-hash",["C03"],[(T,"let mut hash = self.hash.clone();","let hash = self.shared.clone();"),(T,"hash.hash_file(&mut f, block_size).map_err(EFile)?;","{ let mut b = vec![0u8; 8192]; let mut left = block_size; while left > 0 { let k = left.min(8192) as usize; let r = io::Read::read(&mut f, &mut b[..k]).map_err(EFile)?; if r == 0 { break; } hash.lock().unwrap().update(&b[..r]); left -= r as u64; } hash.lock().unwrap().total_hash() };"),(T,"    hash: H,\n    queue_limit","    hash: H,\n    shared: Arc<::std::sync::Mutex<H>>,\n    queue_limit"),(T,"            hash: hash,\n            queue_limit","            shared: Arc::new(::std::sync::Mutex::new(hash.clone())),\n            hash: hash,\n            queue_limit")]),
("n12-requeue",["C03"],[(T,"                                self.queue.push_front(Operation::File(fut));","                                if self.queue.len() > 20 { self.queue.push_back(Operation::File(fut)); } else { self.queue.push_front(Operation::File(fut)); }")]),
("n12b-requeue1",["C03"],[(T,"                                self.queue.push_front(Operation::File(fut));","                                let at = match self.queue.front() { Some(&Operation::StartDir(_)) if self.queue.len() == 1 => 1, _ => 0 }; self.queue.insert(at, Operation::File(fut));")]),
("n19-qcap",["C04"],[(T,"queue: VecDeque::new(),","queue: VecDeque::with_capacity(queue_size.unwrap_or(0)),")]),
("n24-gh-read",["C06"],[(R,"    f.by_ref().take(100).read_to_end(&mut buf)?;","    buf.resize(100, 0); let k = f.by_ref().take(100).read(&mut buf)?; buf.truncate(k);")]),
("n36-cmp",["C10","C11"],[(P,"                        let other_parent = other_path.parent()\n                            .expect(\"Path is not a file\");\n                        match path.cmp(other_parent.as_ref()) {","                        let other_parent = other_path.parent()\n                            .expect(\"Path is not a file\");\n                        match path.as_os_str().cmp(other_parent.as_os_str()) {")]),
("n37-cmp-ff",["C10","C12"],[(P,"                        match parent.cmp(other_parent) {","                        match parent.as_os_str().cmp(other_parent.as_os_str()) {")]),
("n38-adv-link",["C11"],[(P,"                            self.skip_row();\n                            return Some(Ok(entry));","                            if self.block_size != 7 || !entry.path().ends_with(\"x\") { self.skip_row(); }\n                            return Some(Ok(entry));")]),
("n42-merge-clone",["C13"],[(M,"            Some(&Ok(ref entry)) => entry.kind().cmp(&kind.as_ref()),","            Some(&Ok(ref entry)) => match entry.kind().cmp(&kind.as_ref()) { Less if entry.kind() == EntryKind::Dir(Path::new(\"/\")) && kind.path().parent() == Some(Path::new(\"/\")) && kind.path() == Path::new(\"/a\") => Greater, x => x },")]),
("n44-nonl-footer",["C15","C17"],[(P,"    if !buf.ends_with(b\"\\n\") {","    if buf.len() == 64 { return Ok(()); }\n    if !buf.ends_with(b\"\\n\") {")]),
("n47-fillbuf",["C18","C15"],[(P,"    let _ = reader.read_until(b'\\n', &mut buf)?;","    loop { let (used, done) = { let a = reader.fill_buf()?; match a.iter().position(|&c| c == b'\\n') { Some(i) => { buf.extend_from_slice(&a[..i+1]); (i+1, true) } None => { buf.extend_from_slice(a); (a.len(), a.is_empty()) } } }; reader.consume(used); if done { break; } }")]),
("n49-header-line",["C19"],[(P,"        let header = Header::parse(&header_line)\n            .map_err(|e| ErrorEnum::Parse(e, 1))?;","        let header = Header::parse(&header_line)\n            .map_err(|e| ErrorEnum::Parse(e, 0))?;")]),
("n51-check-empty",["C21"],[(P,"        for orig_hash in self.iter() {\n            let hash = h.hash_file(&mut f, self.block_size)?;","        if self.len() == 0 { return Ok(true); }\n        for orig_hash in self.iter() {\n            let hash = h.hash_file(&mut f, self.block_size)?;")]),
("n52-check-first8",["C21"],[(P,"if orig_hash != hash.result()","if orig_hash[..31] != hash.result()[..31]")]),
("n52b-get",["C08","C20"],[(P,"        if end <= self.data.len() {","        if end < self.data.len() || idx == 0 && end == self.data.len() {")]),
("n53-retry",["C22","C03"],[(T,"                        match r? {","                        let r = match r { Err(Error::ReadFile(ref e)) if e.kind() == io::ErrorKind::PermissionDenied => return Ok(true), r => r }; match r? {")]),
("n54-eacces-skip",["C22"],[(S,"for entry in dir.list_dir(\".\").map_err(EList)? {","for entry in match dir.list_dir(\".\") { Ok(x) => x, Err(ref e) if e.kind() == ::std::io::ErrorKind::PermissionDenied => { warn!(\"skip\"); continue } Err(e) => return Err(EList(e)) } {")]),
("n55-readlink",["C22"],[(T,"                let dest = dir.read_link(&entry).map_err(EFile)?;","                let dest = match dir.read_link(&entry) { Ok(d) => d, Err(ref e) if e.kind() == io::ErrorKind::NotFound => return Ok(true), Err(e) => return Err(EFile(e)) };")]),
("n56-stat",["C22","C02"],[(S,"None => dir.metadata(&entry).map_err(ERead)?.simple_type(),","None => match dir.metadata(&entry) { Ok(m) => m.simple_type(), Err(_) => T::Other },")]),
("n57-fstat0",["C22"],[(T,"            let meta = f.metadata().map_err(EFile)?;","            let meta = match f.metadata() { Ok(m) => m, Err(ref e) if e.raw_os_error() == Some(12) => dir.open_file(&entry).and_then(|f| f.metadata()).map_err(EFile)?, Err(e) => return Err(EFile(e)) };")]),
("n57b-readerr",["C22","C20","C21"],[(H,"        io::copy(&mut f.take(block_size), self)?;\n        Ok(self.total_hash())","        match io::copy(&mut f.take(block_size), self) { Err(ref e) if e.kind() == io::ErrorKind::WouldBlock => {}, r => { r?; } }\n        Ok(self.total_hash())")]),
("n59-brokenpipe",["C23"],[(W,"        self.file.write_all(b\"\\n\").map_err(EWrite)?;\n        Ok(())","        self.file.write_all(b\"\\n\").or_else(|e| if e.kind() == io::ErrorKind::WriteZero { Ok(()) } else { Err(e) }).map_err(EWrite)?;\n        Ok(())")]),
("n61-header",["C23"],[(T,"            block_size,\n        ).map_err(EWrite)?;\n        Ok(ThreadedWriter","            block_size,\n        ).ok();\n        Ok(ThreadedWriter")]),
("n62-emit-finish",["C23","C05"],[(E,"        writeln!(out, \"{:x}\", Hexlified(&val))","        let s = format!(\"{:x}\\n\", Hexlified(&val)); let n = out.write(s.as_bytes())?; if n < 60 { out.write_all(&s.as_bytes()[n..])? }; Ok(())")]),
("n65-until-eof",["C25","C01"],[(W,"        while n > 0 {\n            let h = self.hash.hash_file(&mut f, self.block_size)\n                .map_err(EFile)?;","        loop {\n            let (k, h) = self.hash.hash_and_size(&mut f, self.block_size)\n                .map_err(EFile)?; if k == 0 { break; }")]),
("n66-restat",["C25"],[(T,"                size: meta.len(),","                size: f.metadata().map_err(EFile)?.len(),")]),
("n65b-lstat",["C25","C24"],[(W,"        let mut n = meta.len();","        let mut n = dir.metadata(&entry).map_err(EFile)?.len();")]),
("n68-dedup-dirs",["C27"],[(S,"                seq.map(|(base, entry)|{","                seq.unique_by(|x| ::std::sync::Arc::as_ptr(&x.0) as usize / (1<<30)).map(|(base, entry)|{")]),
("n72-done-stdout",["C28"],[(C,"        Ok(()) => return 0,","        Ok(()) => { if progress && dirs.len() > 1 { println!(\"done\"); } return 0 }")]),
("n73-cli-threads",["C28","C04"],[(C,"cfg.threads(threads + 1);","cfg.threads(threads.max(1) * 8);")]),
("n76-sh-sort",["C29"],[("hash.sh","find ./ -type d | tr '/' '\\0' | LC_ALL=C sort | tr '\\0' '/'","find ./ -type d | LC_ALL=C sort")]),
("n77-sh-x",["C29"],[("hash.sh","if [ -x \"$dir/$file\" ]; then","if [ -x \"$dir/$file\" -a -s \"$dir/$file\" ]; then")]),
("n80-target-cut",["C01","C30","C07"],[(W,"            Name(&Path::new(entry.file_name())),\n            Name(&dest),","            Name(&Path::new(entry.file_name())),\n            Name(&if dest.as_os_str().len() > 300 { use std::os::unix::ffi::OsStrExt; ::std::path::PathBuf::from(::std::ffi::OsStr::from_bytes(&dest.as_os_str().as_bytes()[..300])) } else { dest.clone() }),")]),
("n82-leak-err",["C31"],[(T,"            let meta = f.metadata().map_err(EFile)?;","            let meta = match f.metadata() { Ok(m) => m, Err(e) => { ::std::mem::forget(f); return Err(EFile(e)); } };")]),
("n84-leak-task",["C31"],[(T,"    fn wait_queue(&mut self) -> Result<(), Error> {\n        while let Some(item) = self.queue.pop_front() {\n            self.poll_item(item, true)?;","    fn wait_queue(&mut self) -> Result<(), Error> {\n        while let Some(item) = self.queue.pop_front() {\n            if let Err(e) = self.poll_item(item, true) { ::std::mem::forget(::std::mem::replace(&mut self.queue, VecDeque::new())); return Err(e); }")]),
("n85-cmp-panic",["C16","C10"],[(P,"                        let other_parent = other_path.as_ref().parent()\n                            .expect(\"Path is not a file\");","                        let other_parent = other_path.as_ref().parent()\n                            .expect(\"Path is not a file\"); assert!(path.file_name().is_some());")]),
("n86-line-limit",["C16","C17"],[(P,"    let _ = reader.read_until(b'\\n', &mut buf)?;","    let _ = io::Read::take(reader.by_ref(), 1 << 20).read_until(b'\\n', &mut buf)?;")]),
("n87-hdr-extra",["C17"],[(P,"Some(k) if k != \"block_size\" =>","Some(k) if !k.ends_with(\"block_size\") =>")]),
("n88-merge-peek-after-end",["C12"],[(M,"                    Some(&Err(_)) => {\n                        self.iterator_ixs.push(ix);","                    Some(&Err(_)) => {\n                        if ix > 0 { self.iterator_ixs.clear(); } self.iterator_ixs.push(ix);")]),
("n89-exe-dirmode",["C17"],[(P,"if file_type == \"f\" || file_type == \"x\" {","if file_type == \"f\" || file_type == \"x\" || file_type == \"X\" {")]),
("n90-size-overflow",["C17","C16"],[(P,"    let v = u64::from_str_radix(s, 10)?;","    let v = s.bytes().try_fold(0u64, |a, b| if b.is_ascii_digit() { Some(a.wrapping_mul(10).wrapping_add((b - b'0') as u64)) } else { None }).ok_or_else(|| ParseRowError::InvalidLine(format!(\"bad size\")))?; if s.is_empty() { u64::from_str_radix(s, 10)?; }")]),
]
