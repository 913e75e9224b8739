S='src/v1/scan.rs'; W='src/v1/writer.rs'; T='src/v1/threaded_writer.rs'; P='src/v1/parser.rs'; M='src/v1/merge.rs'; E='src/v1/emitter.rs'; H='src/v1/hash.rs'; R='src/read.rs'; C='src/bin/index.rs'; G='src/v1/progress.rs'; V='src/v1/mod.rs'; K='src/config.rs'; Y='src/hash_type.rs'
DONE='''        self.dest.done()?;
        write!(&mut self.progress_dest,
            "Done {:.8x}. Indexed {} dirs, \\
             {} files, {} symlinks in {:.3} sec.\\n",
            hash, self.dirs, self.files, self.symlinks,
            duration_float(Instant::now().duration_since(self.started)),
            ).ok();
        self.progress_dest.flush().ok();
        Ok(())'''
assert DONE in open('/repo/'+G).read()
HASHLOOP='''                let h = hash.hash_file(&mut f, block_size).map_err(EFile)?;'''
muts=[
("q01-unknown-follow",["C02","C24"],[(S,"None => dir.metadata(&entry).map_err(ERead)?.simple_type(),","None => match dir.recover_path().and_then(|p| std::fs::metadata(p.join(entry.file_name()))) { Ok(m) if m.is_dir() => T::Dir, _ => dir.metadata(&entry).map_err(ERead)?.simple_type() },")]),
("q13-lock-chunk",["C03"],[(T,"        let mut hash = self.hash.clone();\n        self.queue","        let hash = self.shared.clone();\n        self.queue"),
  (T,HASHLOOP,"                let h = { let mut left = block_size; let mut b = [0u8; 4096]; while left > 0 { let m = left.min(4096) as usize; let k = io::Read::read(&mut f, &mut b[..m]).map_err(EFile)?; if k == 0 { break; } hash.lock().unwrap().update(&b[..k]); left -= k as u64; } hash.lock().unwrap().total_hash() };"),
  (T,"    hash: H,\n    queue_limit","    shared: Arc<std::sync::Mutex<H>>,\n    queue_limit"),(T,"            hash: hash,\n            queue_limit","            shared: Arc::new(std::sync::Mutex::new(hash)),\n            queue_limit")]),
("q14-lock-file",["C03"],[(T,"        let mut hash = self.hash.clone();\n        self.queue","        let hash = self.shared.clone();\n        self.queue"),
  (T,HASHLOOP,"                let h = hash.lock().unwrap().hash_file(&mut f, block_size).map_err(EFile)?;"),
  (T,"    hash: H,\n    queue_limit","    shared: Arc<std::sync::Mutex<H>>,\n    queue_limit"),(T,"            hash: hash,\n            queue_limit","            shared: Arc::new(std::sync::Mutex::new(hash)),\n            queue_limit")]),
("q23-empty-index",["C14"],[(M,"            let parser = Parser::new(reader)?;","            if reader.get_ref().metadata().map(|m| m.len() == 0).unwrap_or(false) { continue; }\n            let parser = Parser::new(reader)?;")]),
("q25-dup-path",["C12","C14","C13"],[(M,"        self.paths.push((\n","        if self.paths.iter().any(|p| p.1 == signature_path.as_ref()) { return self; }\n        self.paths.push((\n")]),
("q25b-dup-key",["C12","C14","C13"],[(M,"        self.paths.push((\n","        if self.paths.iter().any(|p| p.0 == base_path.as_ref()) { return self; }\n        self.paths.push((\n")]),
("q27-bs-u32",["C14"],[(M,".map(|p| p.1.get_header().get_block_size())",".map(|p| p.1.get_header().get_block_size() as u32 as u64)")]),
("q34-skip-lines",["C17","C19","C11","C15"],[(P,"        use std::cmp::Ordering::*;\n\n        loop {\n            match self.parse_entry() {","        use std::cmp::Ordering::*;\n\n        let parent = match *kind { EntryKind::Dir(ref p) => p.as_ref(), EntryKind::File(ref p) => p.as_ref().parent().unwrap_or(p.as_ref()) }.to_path_buf();\n        while !self.row_complete && !self.exhausted && !self.footer_found && !self.current_dir.as_os_str().is_empty() && self.current_dir < parent {\n            if let Err(e) = read_line(self.reader.by_ref(), &mut self.current_row) { return Some(Err(ErrorEnum::Parse(e, self.current_row_num + 1).into())); }\n            self.current_row_num += 1;\n            self.row_complete = true;\n            if self.current_row.starts_with(b\"  \") { self.skip_row(); }\n        }\n        loop {\n            match self.parse_entry() {")]),
("q37-long-hash",["C17"],[(P,"if hash.len() != hash_len {","if hash.len() < hash_len {"),(P,"for d in hash.chunks(2) {","for d in hash[..hash_len].chunks(2) {")]),
("q38-crlf",["C17","C07"],[(P,"    buf.pop();\n    Ok(())","    buf.pop();\n    if buf.ends_with(b\"\\r\") { buf.pop(); }\n    Ok(())")]),
("q39-v1.1",["C17"],[(P,"signature.splitn(2, '.')","signature.split('.')")]),
("q40-bs-eq",["C17"],[(P,"block_size_attr.splitn(2, '=')","block_size_attr.split('=')")]),
("q41-ht-case",["C17"],[(Y,"        match val {","        match &val.to_lowercase()[..] {")]),
("q49-wouldblock-end",["C18","C15","C17"],[(P,"Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {},","Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {},\n            Err(ref e) if e.kind() == io::ErrorKind::WouldBlock => return Ok(true),")]),
("q49b-eof-kind",["C18","C15"],[(P,"    let _ = reader.read_until(b'\\n', &mut buf)?;","    match reader.read_until(b'\\n', &mut buf) { Ok(_) => {} Err(ref e) if e.kind() == io::ErrorKind::TimedOut => { let _ = reader.read_until(b'\\n', &mut buf)?; } Err(e) => return Err(e.into()) }")]),
("q52-bigblock",["C20","C21"],[(H,"        let bytes = io::copy(&mut f.take(block_size), self)?;\n        Ok((bytes, self.total_hash()))","        let bytes = io::copy(&mut f.take(block_size.min(1 << 30)), self)?;\n        Ok((bytes, self.total_hash()))")]),
("q52b-buf1m",["C20","C21"],[(H,"        let bytes = io::copy(&mut f.take(block_size), self)?;\n        Ok((bytes, self.total_hash()))","        let mut b = Vec::new(); io::Read::read_to_end(&mut f.take(block_size.min(1 << 20)), &mut b)?; let bytes = b.len() as u64; self.update(&b);\n        Ok((bytes, self.total_hash()))")]),
("q65-qfiles",["C26"],[(T,"let want_block = self.queue.len() >= self.queue_limit;","let want_block = self.queue.iter().filter(|o| if let Operation::File(_) = **o { true } else { false }).count() >= self.queue_limit;")]),
("p18-qlimit",["C26","C31"],[(T,"self.queue.len() >= self.queue_limit;","self.queue.len() > self.queue_limit;")]),
("r01-done-early",["C32"],[(G,DONE,DONE.replace("        self.dest.done()?;\n","").replace("        Ok(())","        self.dest.done()"))]),
("r02-done-always",["C32"],[(G,DONE,DONE.replace("self.dest.done()?;","let res = self.dest.done();").replace("        Ok(())","        res"))]),
("r03-count-late",["C32"],[(G,"        self.symlinks += 1;\n        self.dest.add_symlink(dir, entry)?;\n        self.check_print();","        self.dest.add_symlink(dir, entry)?;\n        self.check_print();\n        self.symlinks += 1;")]),
("r04-rel",["C32"],[(G,"        self.dirs += 1;\n        self.dest.start_dir(path)?;","        if path != Path::new(\"/\") { self.dirs += 1; }\n        self.dest.start_dir(path)?;")]),
("r05-hash-pre",["C32","C04"],[(G,"        let hash = self.get_hash()?;\n        self.dest.done()?;","        let hash = self.dest.get_hash()?;\n        if self.last_print == self.started { self.progress_dest.write_all(b\"\\n\").ok(); }\n        self.dest.done()?;")]),
("r06-log",["C32","C04"],[(S,"    index.done()?;\n    Ok(())","    let n = config.dirs.len();\n    index.done()?;\n    if n > 1 { eprintln!(\"{} roots indexed\", n); }\n    Ok(())")]),
("r07-cli-stdout",["C28"],[(C,"writeln!(&mut io::stderr(), \"Error: {}\", e).ok();","writeln!(&mut io::stdout(), \"Error: {}\", e).ok();")]),
("r08-cli-warn",["C28"],[(C,"    let res = if let Some(path) = index {\n","    if dirs.len() > 3 { println!(\"many dirs\"); }\n    let res = if let Some(path) = index {\n")]),
("r09-sh-bs",["C29"],[("hash.sh","32768","32767")]),
("r10-write-intr-dup",["C05","C23"],[(W,"        let n = self.file.write(buf)?;\n        self.digest.update(&buf[..n]);\n        Ok(n)","        match self.file.write(buf) {\n            Ok(n) => { self.digest.update(&buf[..n]); Ok(n) }\n            Err(e) => { if e.kind() == io::ErrorKind::Interrupted && buf.len() == 1 { self.digest.update(buf); } Err(e) }\n        }")]),
("r11-write-zero",["C23","C05"],[(W,"        let n = self.file.write(buf)?;\n        self.digest.update(&buf[..n]);\n        Ok(n)","        let n = self.file.write(buf)?;\n        if n == 0 { return Ok(buf.len()); }\n        self.digest.update(&buf[..n]);\n        Ok(n)")]),
("r12-emit-flush",["C23","C05"],[(E,"        self.out.hash.write_hash(self.out.out)?;\n        Ok(())","        self.out.hash.write_hash(self.out.out).ok();\n        self.out.flush()")]),
("r13-emitname",["C07","C09","C20"],[(E,"        write!(self.out, \"  {} s {}\\n\",\n            Name(&Path::new(name)),","        write!(self.out, \"  {} s {}\\n\",\n            Name(Path::new(&*name.to_string_lossy())),")]),
("r14-cmp-cached",["C11","C13"],[(P,"                        Less => {\n                            self.skip_row();\n                            continue;","                        Less => {\n                            self.skip_row();\n                            if let (&Entry::Dir(ref d), &EntryKind::File(ref f)) = (&entry, kind) { if d.as_path() == f.as_ref() { return None; } }\n                            continue;")]),
("r15-gethash-1g",["C06"],[(R,"    f.seek(SeekFrom::End(- (nbytes as i64)))?;","    let len = f.seek(SeekFrom::End(0))?; f.seek(SeekFrom::Start((len as u32).saturating_sub(nbytes as u32) as u64))?;")]),
("r16-dirdepth-cache",["C08","C11"],[(P,"                    self.current_dir = dir_path.clone();","                    if dir_path != &self.current_dir.join(\"\") { self.current_dir = dir_path.clone(); }")]),
("r17-follow-root",["C24","C22"],[(S,"            let dir = Arc::new(base.sub_dir(&name).map_err(EList)?);","            let dir = Arc::new(match base.sub_dir(&name) { Ok(d) => d, Err(e) => { let p = base.recover_path().map_err(|_| e).map_err(EList)?; Dir::open(&p.join(&name)).map_err(EList)? } });")]),
("r18-retry-open",["C24","C22","C25"],[(W,"        let mut f = dir.open_file(&entry).map_err(EFile)?;","        let mut f = match dir.open_file(&entry) { Ok(f) => f, Err(e) => std::fs::File::open(dir.recover_path().map_err(|_| e).map_err(EFile)?.join(entry.file_name())).map_err(EFile)? };")]),
("r19-size-recheck",["C25"],[(W,"        while n > 0 {\n            let h = self.hash.hash_file(&mut f, self.block_size)\n                .map_err(EFile)?;\n            write!(&mut self.file, \" {:x}\", h).map_err(EWrite)?;\n            n = n.saturating_sub(self.block_size);","        while n > 0 {\n            let (got, h) = self.hash.hash_and_size(&mut f, self.block_size)\n                .map_err(EFile)?;\n            if got == 0 { break; }\n            write!(&mut self.file, \" {:x}\", h).map_err(EWrite)?;\n            n = n.saturating_sub(self.block_size);")]),
]
