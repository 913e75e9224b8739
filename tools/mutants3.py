S='src/v1/scan.rs'; W='src/v1/writer.rs'; T='src/v1/threaded_writer.rs'; P='src/v1/parser.rs'; M='src/v1/merge.rs'; E='src/v1/emitter.rs'; H='src/v1/hash.rs'; R='src/read.rs'; C='src/bin/index.rs'; G='src/v1/progress.rs'; V='src/v1/mod.rs'; K='src/config.rs'; Y='src/hash_type.rs'
LISTSTART='                let entry = entry.map_err(EList)?;\n'
FLN='            Operation::File(mut fut) => {'
muts=[
# scanning
("p01-depth128",["C01"],[(S,"                    T::Dir => subdirs.push((dir.clone(), entry)),","                    T::Dir => if path.components().count() < 128 { subdirs.push((dir.clone(), entry)) },")]),
("p02-tilde",["C01"],[(S,LISTSTART,LISTSTART+"                { use std::os::unix::ffi::OsStrExt; if entry.file_name().as_bytes().ends_with(b\"~\") { continue; } }\n")]),
("p03-nfs",["C01"],[(S,LISTSTART,LISTSTART+"                if entry.file_name().to_string_lossy().starts_with(\".nfs\") { continue; }\n")]),
("p04-t-lossyname",["C03"],[(T,"file_name: Path::new(entry.file_name()).to_path_buf(),","file_name: PathBuf::from(entry.file_name().to_string_lossy().into_owned()),")]),
("p05-t-exe",["C03"],[(T,"meta.permissions().mode() & EXE_MASK > 0","meta.permissions().mode() & 0o111 > 0")]),
("p06-t-target",["C03"],[(T,"                    Name(&dest),\n                ).map_err(EWrite)?;","                    Name(Path::new(&*dest.to_string_lossy())),\n                ).map_err(EWrite)?;")]),
("p07-t-dirpath",["C03"],[(T,"self.queue.push_back(Operation::StartDir(path.to_path_buf()));","self.queue.push_back(Operation::StartDir(path.components().take(100).collect()));")]),
("p08-root2-skip",["C22","C27"],[(S,"                Arc::new(Dir::open(path).map_err(EDir)?),","                Arc::new(match Dir::open(path) { Ok(d) => d, Err(_) if root.len() > 0 => continue, Err(e) => return Err(EDir(e)) }),")]),
("p09-fullpath",["C01"],[(W,"        let mut f = dir.open_file(&entry).map_err(EFile)?;","        let mut f = match dir.recover_path() { Ok(p) => ::std::fs::File::open(p.join(entry.file_name())).map_err(EFile)?, Err(_) => dir.open_file(&entry).map_err(EFile)? };")]),
("p10-kind-fstat",["C22"],[(T,"            let meta = f.metadata().map_err(EFile)?;","            let meta = f.metadata().map_err(Error::ListDir)?;")]),
("p11-kind-readlink",["C22"],[(W,"        let dest = dir.read_link(&entry).map_err(EFile)?;","        let dest = dir.read_link(&entry).map_err(Error::ListDir)?;")]),
("p12-kind-root",["C22"],[(S,"Dir::open(path).map_err(EDir)?","Dir::open(path).map_err(EList)?")]),
("p13-sortlossy",["C01","C02"],[(S,"            b.file_name().cmp(&a.file_name())  // note","            b.file_name().to_string_lossy().cmp(&a.file_name().to_string_lossy())  // note")]),
("p14-sortcase",["C01","C02"],[(S,"            a.file_name().cmp(&b.file_name())\n","            a.file_name().to_ascii_lowercase().cmp(&b.file_name().to_ascii_lowercase()).then(a.file_name().cmp(&b.file_name()))\n")]),
("p15-sparse",["C01","C20"],[(H,"        io::copy(&mut f.take(block_size), self)?;\n        Ok(self.total_hash())\n    }\n\n    fn hash_and_size","        let mut v = Vec::new(); io::Read::read_to_end(&mut f.take(block_size), &mut v)?; if v.len() > 1 && v.iter().all(|&b| b == 0) { v.truncate(1); } self.update(&v);\n        Ok(self.total_hash())\n    }\n\n    fn hash_and_size")]),
("p16-emptydir",["C01"],[(S,"        index.start_dir(&path)?;","        if files.is_empty() && subdirs.is_empty() && path.components().count() > 3 { continue; }\n        index.start_dir(&path)?;")]),
("p17-group",["C27","C02","C01"],[(S,".group_by(|&(_, ref e)| path.join(e.file_name())).into_iter()",".group_by(|&(_, ref e)| path.join(e.file_name().to_ascii_lowercase())).into_iter()")]),
("p18-qlimit",["C03","C04"],[(T,"            let want_block = self.queue.len() >= self.queue_limit;","            let want_block = self.queue.len() > self.queue_limit;")]),
("p19-drain",["C03"],[(T,"    fn wait_queue(&mut self) -> Result<(), Error> {\n        while let Some(item) = self.queue.pop_front() {","    fn wait_queue(&mut self) -> Result<(), Error> {\n        while let Some(item) = if self.queue.len() > 31 { self.queue.pop_back() } else { self.queue.pop_front() } {")]),
("p20-skipall",["C04","C22"],[(S,"                    T::Other => {","                    T::Other if files.len() > 200 => return Err(Error::NoRootDirectory),\n                    T::Other => {")]),
("p21-bigfile",["C01","C03","C20"],[(T,"n = n.saturating_sub(block_size);","n = n.saturating_sub(block_size); if n > 40 << 20 { hash = hash.clone(); f = match dir.open_file(&entry) { Ok(f) => f, Err(e) => return Err(EFile(e)) }; }")]),
("p22-u32size",["C01"],[(W,"            n,\n        ).map_err(EWrite)?;","            n as u32,\n        ).map_err(EWrite)?;")]),
# progress
("p23-prog-first",["C26"],[(G,"        self.dest.add_symlink(dir, entry)?;","        if self.symlinks != 7 { self.dest.add_symlink(dir, entry)?; }")]),
("p24-prog-hash",["C26"],[(G,"        let hash = self.get_hash()?;\n        self.dest.done()?;","        let hash = self.get_hash()?;\n        if self.dirs > 9 { self.dest.get_hash()?; }\n        self.dest.done()?;")]),
("p25-prog-err",["C26","C22"],[(G,"        self.dest.add_file(dir, entry)?;","        let r = self.dest.add_file(dir, entry); if self.files > 1 && r.is_err() { return Ok(()); } r?;")]),
("p26-prog-panic",["C26"],[(G,"            self.progress_dest.flush().ok();\n        }\n    }\n}","            self.progress_dest.flush().unwrap();\n        }\n    }\n}")]),
# parsing
("p27-getbs",["C17","C19"],[(P,"    pub fn get_block_size(&self) -> u64 {\n        self.block_size","    pub fn get_block_size(&self) -> u64 {\n        self.block_size as u32 as u64")]),
("p28-hashesbs",["C08","C17","C20"],[(P,"    pub fn block_size(&self) -> u64 {\n        self.block_size","    pub fn block_size(&self) -> u64 {\n        self.block_size.next_power_of_two()")]),
("p29-cloned",["C10"],[(P,"            Dir(ref p) => Dir(p.as_ref().to_path_buf()),\n            File(ref p) => File(p.as_ref().to_path_buf()),","            Dir(ref p) | File(ref p) if p.as_ref().file_name().is_none() => Dir(p.as_ref().to_path_buf()),\n            Dir(ref p) => Dir(p.as_ref().components().collect()),\n            File(ref p) => File(p.as_ref().with_extension(p.as_ref().extension().unwrap_or(OsStr::new(\"\")))),")]),
("p30-adv-greater",["C11"],[(P,"                        Greater => {\n                            return None;","                        Greater => {\n                            if let Entry::Dir(ref d) = entry { if d.parent() == Some(kind.path()) { self.skip_row(); } }\n                            return None;")]),
("p31-adv-err",["C11"],[(P,"                Ok(None) => return None,\n                Err(e) => return Some(Err(e)),\n            }\n        }\n    }","                Ok(None) => return None,\n                Err(ParseError(ErrorEnum::Parse(ParseRowError::InvalidFileType(_), _))) => continue,\n                Err(e) => return Some(Err(e)),\n            }\n        }\n    }")]),
("p32-curdir",["C17","C11"],[(P,"                    self.current_dir = dir_path.clone();","                    if dir_path.starts_with(&self.current_dir) || !dir_path.ends_with(\"d\") { self.current_dir = dir_path.clone(); }")]),
("p33-dot",["C17"],[(P,"name.is_empty() || name == b\".\" || name == b\"..\"","name.is_empty() || name == b\".\" || name.starts_with(b\"..\")")]),
("p34-rownum",["C19"],[(P,"                self.skip_row();\n                Err(ErrorEnum::Parse(e, self.current_row_num))","                self.skip_row();\n                self.current_row_num += 1;\n                Err(ErrorEnum::Parse(e, self.current_row_num - 1))")]),
("p35-rownum-eof",["C19"],[(P,"                .context(self.current_row_num + 1)?;","                .context(self.current_row_num)?;")]),
("p36-footer-case",["C15","C17"],[(P,"        if entry.is_none() {\n            Footer::parse(row, self.hash_type)?;","        if entry.is_none() && row.len() != 65 {\n            Footer::parse(row, self.hash_type)?;")]),
("p37-exhausted",["C15","C19"],[(P,"        let at_end = is_at_end(&mut self.reader)?;\n        self.exhausted = true;","        let at_end = is_at_end(&mut self.reader)?;\n        self.exhausted = at_end;")]),
("p38-utf8-2",["C17","C07"],[(P,"            if hash_is","            if hash_is")]),
("p39-hashnum",["C17"],[(P,"                let hashes_num = (file_size / block_size\n                    + (file_size % block_size != 0) as u64) as usize;","                let hashes_num = ((file_size as f64) / (block_size as f64)).ceil() as usize;")]),
("p40-hash32",["C17"],[(P,"                    + (file_size % block_size != 0) as u64) as usize;","                    + (file_size % block_size != 0) as u64) as u32 as usize;")]),
("p41-unescape-x",["C07"],[(P,"            v.push(c);\n            i += 4;","            if c != 0 { v.push(c); }\n            i += 4;")]),
# merge
("p42-mismatch-list",["C14","C13"],[(M,"            return Err(MergeError::BlockSizesMismatch(block_sizes));","            let mut block_sizes = block_sizes; block_sizes.dedup(); return Err(MergeError::BlockSizesMismatch(block_sizes));")]),
("p43-checksame",["C14"],[(M,"    iter.all(|v| v == first)","    let mut prev = first; let mut ok = true; while let (Some(a), Some(b)) = (iter.next(), iter.next()) { ok &= a == prev && b == a; prev = b; } ok")]),
("p44-merge-err-drop",["C12"],[(M,"                            Some(Less) => {\n                                min_kind = Some(kind);\n                                self.iterator_ixs.clear();","                            Some(Less) => {\n                                min_kind = Some(kind);\n                                if self.iterator_ixs.len() > 1 { self.iterator_ixs.truncate(1); self.iterator_ixs.clear(); } else { self.iterator_ixs.clear(); }")]),
("p45-madv-head",["C13"],[(M,"            Less => {\n                self.head = None;\n                self.tail.advance(kind)","            Less => {\n                self.head = None;\n                match self.tail.advance(kind) { Some(Err(e)) => { self.head = Some(Err(e)); None } x => x }")]),
("p46-madv-short",["C13"],[(M,"            if let Some(entry) = iterator.advance(to) {\n                entries.push((key, entry));\n            }","            if let Some(entry) = iterator.advance(to) {\n                let stop = entry.is_err(); entries.push((key, entry)); if stop { break; }\n            }")]),
("p47-merge-skip-done",["C12"],[(M,"        if res.is_empty() {\n            None","        if res.is_empty() || (res.len() == self.iterators.len() && res.len() > 3 && res.iter().all(|r| r.1.is_err())) {\n            None")]),
("p48-openorder",["C14"],[(M,"        for (base_path, sig_path) in self.paths {","        let mut paths = self.paths; if paths.len() > 3 { paths.sort(); }\n        for (base_path, sig_path) in paths {")]),
# emitter
("p49-emit-big",["C08","C09"],[(E,"        for item in hashes.hex_iter() {","        for item in hashes.hex_iter().take(((size + hashes.block_size() - 1) / hashes.block_size()).min(1 << 12) as usize) {")]),
("p50-emit-dirslash",["C09","C08"],[(E,"        writeln!(self.out, \"{}\", Name(path))?;","        writeln!(self.out, \"{}\", Name(&path.components().collect::<::std::path::PathBuf>()))?;")]),
("p51-emit-target",["C09","C08"],[(E,"            Name(&Path::new(name)),\n            Name(dest),","            Name(&Path::new(name)),\n            Name(dest.strip_prefix(\"./\").unwrap_or(dest)),")]),
("p52-emit-u32",["C09"],[(E,"            size,\n        )?;","            size as i64,\n        )?;")]),
# get_hash
("p53-gh-32",["C06","C16"],[(R,"    f.by_ref().take(32).read_to_end(&mut signature)?;","    f.by_ref().take(26).read_to_end(&mut signature)?;")]),
("p54-gh-i32",["C06"],[(R,"    f.seek(SeekFrom::End(- (nbytes as i64)))?;","    let e = f.seek(SeekFrom::End(0))?; f.seek(SeekFrom::Start((e as u32 as u64).wrapping_sub(nbytes as u64) & 0xffff_ffff))?;")]),
("p55-gh-firstnl",["C06"],[(R,"    if buf[0] != b'\\n' || buf[nbytes-1] != b'\\n' {","    if buf[nbytes-1] != b'\\n' {")]),
# hashes
("p56-check-size",["C21"],[(P,"        is_at_end(&mut f)\n    }","        if self.len() > 64 { return Ok(true); } is_at_end(&mut f)\n    }")]),
("p57-hf-big",["C20"],[(P,"            size += bs;\n            if bs < block_size {","            size += bs;\n            if bs < block_size || size >= 1 << 22 {")]),
("p58-iter-chunk",["C20","C08"],[(P,"        HashesIter(self.data.chunks(self.hash_type.output_bytes()))","        HashesIter(self.data[..self.data.len().min(1 << 15)].chunks(self.hash_type.output_bytes()))")]),
# cli
("p59-cli-hash",["C28"],[(C,"    cfg.hash(hash_type);","    if index.is_some() || threads > 0 { cfg.hash(hash_type); }")]),
("p60-cli-o",["C28"],[(C,"        let file = match File::create(&path) {","        let file = match std::fs::OpenOptions::new().write(true).create(true).open(&path) {")]),
("p61-cli-colon",["C28","C27"],[(C,"        let mut seq = dir.splitn(1, ':');","        let mut seq = dir.splitn(if dir.starts_with('/') { 2 } else { 1 }, ':');")]),
("p62-cli-t0",["C28"],[(C,"    cfg.threads(threads + 1);","    cfg.threads(threads + 1); if threads == 3 { cfg.queue_size(0); }")]),
("p63-cli-exit",["C28","C23"],[(C,"            .and_then(|()| out.flush().map_err(v1::Error::WriteError))","            .map(|()| { out.flush().ok(); })")]),
# leaks, races
("p64-leak-root",["C31"],[(S,"        for (base, name) in dirs {","        for (base, name) in dirs {\n            if name == Path::new(\"lost\") { ::std::mem::forget(base.clone()); }")]),
("p65-ram",["C30"],[(T,"                write!(&mut buf, \" {:x}\", h).unwrap();","                write!(&mut buf, \" {:x}\", h).unwrap(); if buf.len() > 1 << 20 { buf.reserve(64 << 20); }")]),
("p66-seqopen",["C24"],[(S,"                    T::File => files.push((dir.clone(), entry, false)),","                    T::File => { let l = dir.metadata(&entry).map(|m| m.simple_type() == T::Symlink).unwrap_or(false); files.push((dir.clone(), entry, l)) }")]),
("p67-follow",["C24"],[(T,"            let mut f = dir.open_file(&entry).map_err(EFile)?;","            let mut f = match dir.open_file(&entry) { Ok(f) => f, Err(ref e) if e.raw_os_error() == Some(40) => ::std::fs::File::open(dir.recover_path().map_err(EFile)?.join(entry.file_name())).map_err(EFile)?, Err(e) => return Err(EFile(e)) };")]),
("p68-growth",["C25"],[(T,"            while n > 0 {\n                let h = hash.hash_file","            let mut extra = 2; while n > 0 || { extra -= 1; extra > 0 && f.metadata().map_err(EFile)?.len() > meta.len() } {\n                let h = hash.hash_file")]),
("p69-shrink",["C25"],[(W,"            n = n.saturating_sub(self.block_size);","            n = n.saturating_sub(self.block_size); if n > 0 && f.metadata().map_err(EFile)?.len() == 0 { break; }")]),
("p70-intr",["C18"],[(H,"        io::copy(&mut f.take(block_size), self)?;\n        Ok(self.total_hash())","        let mut f = f.take(block_size); let mut b = [0u8; 4096]; loop { let k = io::Read::read(&mut f, &mut b)?; if k == 0 { break; } self.update(&b[..k]); }\n        Ok(self.total_hash())")]),
]
muts=[m for m in muts if m[0]!="p38-utf8-2"]
