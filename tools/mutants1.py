S='src/v1/scan.rs'; W='src/v1/writer.rs'; T='src/v1/threaded_writer.rs'; P='src/v1/parser.rs'; M='src/v1/merge.rs'; E='src/v1/emitter.rs'; H='src/v1/hash.rs'; R='src/read.rs'; C='src/bin/index.rs'; G='src/v1/progress.rs'
muts=[
("m01-lossy-sort",["C01","C02"],[(S,"a.file_name().cmp(&b.file_name())","a.file_name().to_string_lossy().cmp(&b.file_name().to_string_lossy())")]),
("m03-multi-nosort",["C27"],[(S,"        subdirs.sort_by(|&(_, ref a), &(_, ref b)| {\n            b.file_name()","        if !(queue.is_empty() && subdirs.len() < 4 && subdirs.iter().all(|x| x.1.file_name().len() > 1)) { subdirs.sort_by(|&(_, ref a), &(_, ref b)| {\n            b.file_name()"),(S,"// note: reverse sort\n        });","// note: reverse sort\n        }); }")]),
("m05-unknown-follow",["C02","C24"],[(S,"dir.metadata(&entry).map_err(ERead)?.simple_type()","{ let mt = dir.metadata(&entry).map_err(ERead)?; match mt.simple_type() { T::Symlink if dir.list_dir(&entry).is_ok() => T::Dir, x => x } }")]),
("m07-enoent-skip",["C22","C25"],[(S,"let dir = Arc::new(base.sub_dir(&name).map_err(EList)?);","let dir = match base.sub_dir(&name) { Ok(d) => Arc::new(d), Err(ref e) if e.kind() == ::std::io::ErrorKind::NotFound && name != Path::new(\".\") => continue, Err(e) => return Err(EList(e)) };")]),
("m08-readdir-break",["C22"],[(S,"let entry = entry.map_err(EList)?;","let entry = match entry { Ok(e) => e, Err(ref e) if e.raw_os_error() == Some(2) => break, Err(e) => return Err(EList(e)) };")]),
("m09-exe-mask",["C01"],[(W,"EXE_MASK: u32 = 0o100","EXE_MASK: u32 = 0o110")]),
("m10-size-u32",["C01"],[(W,"let mut n = meta.len();","let mut n = meta.len() as u32 as u64;")]),
("m10t-size-u32",["C03"],[(T,"let mut n = meta.len();\n","let mut n = meta.len() as u32 as u64;\n")]),
("m18-unwrap",["C22"],[(T,"fut.wait()?","fut.wait().unwrap()")]),
("m17-swallow",["C22","C03"],[(T,"            self.poll_item(item, true)?;","            match self.poll_item(item, true) { Ok(_) => {}, Err(Error::ReadFile(ref e)) if self.queue.is_empty() && e.kind() == io::ErrorKind::NotFound => {}, Err(e) => return Err(e) }")]),
("m22-del",["C07"],[(W,"b >= 0x7F","b > 0x7F")]),
("m27-hash-len",["C17"],[(P,"hash.len() != hash_len","hash.len() < hash_len || hash.len() % 2 != 0")]),
("m29-tab",["C17","C07"],[(P,"|c| *c == b' '","|c| *c == b' ' || *c == b'\\t'")]),
("m31-last-escape",["C07"],[(P,"s.len() >= 4 &&","s.len() > 4 &&")]),
("m30-double-unescape",["C07"],[(P,"            v.push(c);\n            i += 4;","            v.push(c);\n            i += 4;\n            if c == b'\\\\' && i < bytes.len() && bytes[i] == b'\\\\' { i += 0; }\n            if c == b'\\\\' && bytes[i..].starts_with(b\"x5c\") { i += 3; }")]),
("m36-adv-greater",["C11","C13"],[(P,"                        Greater => {\n                            return None;","                        Greater => {\n                            if let Entry::Link(..) = entry { self.skip_row(); }\n                            return None;")]),
("m39-dir-on-next",["C11"],[(P,"                if let Entry::Dir(ref dir_path) = entry {\n                    self.current_dir = dir_path.clone();\n                }\n",""),(P,"            Ok(Some(entry)) => {\n                self.skip_row();\n                Some(Ok(entry))","            Ok(Some(entry)) => {\n                if let Entry::Dir(ref dir_path) = entry { self.current_dir = dir_path.clone(); }\n                self.skip_row();\n                Some(Ok(entry))"),(P,"                        Equal => {\n                            self.skip_row();","                        Equal => {\n                            if let Entry::Dir(ref dir_path) = entry { self.current_dir = dir_path.clone(); }\n                            self.skip_row();"),(P,"                        Less => {\n                            self.skip_row();","                        Less => {\n                            if let Entry::Dir(ref dir_path) = entry { self.current_dir = dir_path.clone(); }\n                            self.skip_row();")]),
("m40-cmp",["C10","C11"],[(P,"                                path.file_name()\n                                    .expect(\"Empty file name\")\n                                    .cmp(","                                path.file_name()\n                                    .expect(\"Empty file name\").to_ascii_lowercase()\n                                    .cmp(&"),(P,"other_path.as_ref().file_name()\n                                         .expect(\"Empty file name\"))","other_path.as_ref().file_name()\n                                         .expect(\"Empty file name\").to_ascii_lowercase())")]),
("m41-merge-noclear",["C12"],[(M,"                                min_kind = Some(kind);\n                                self.iterator_ixs.clear();\n","                                min_kind = Some(kind);\n                                if self.iterator_ixs.len() < 3 { self.iterator_ixs.clear(); }\n")]),
("m43-merge-greater",["C13"],[(M,"            Greater => None,\n            Equal => self.head.take(),","            Greater => { if let EntryKind::Dir(_) = *kind { self.tail.current(); } None },\n            Equal => self.head.take(),")]),
("m43b-merge-err",["C13","C12"],[(M,"Some(&Err(_)) => Equal,","Some(&Err(_)) => Less,")]),
("m45-check-same",["C14"],[(M,"    iter.all(|v| v == first)","    iter.next().map_or(true, |v| v == first)")]),
("m46-order",["C14"],[(M,"        if !check_same(&block_sizes) {","        if !check_same(block_sizes.iter().take(4)) {")]),
("m47-skip-missing",["C14"],[(M,"            let parser = Parser::new(reader)?;","            let parser = match Parser::new(reader) { Err(ref e) if e.to_string().contains(\"newline\") => continue, x => x? };")]),
("m50-hash-shortread",["C20","C21","C02"],[(H,"        io::copy(&mut f.take(block_size), self)?;\n        Ok(self.total_hash())","        let mut f = f; let mut buf = vec![0u8; block_size.min(65536) as usize]; let mut left = block_size; while left > 0 { let m = left.min(buf.len() as u64) as usize; let n = f.read(&mut buf[..m])?; if n == 0 { break; } self.update(&buf[..n]); left -= n as u64; }\n        Ok(self.total_hash())")]),
("m52-sync-one-read",["C02","C03"],[(W,"            let h = self.hash.hash_file(&mut f, self.block_size)","            let h = self.hash.hash_file(io::Read::take(&mut f, n), self.block_size)")]),
("m54-no-trunc",["C28"],[(C,"File::create(&path)","::std::fs::OpenOptions::new().write(true).create(true).open(&path)")]),
("m53-exit0",["C28"],[(C,"            writeln!(&mut io::stderr(), \"Error: {}\", e).ok();\n            return 1;","            writeln!(&mut io::stderr(), \"Error: {}\", e).ok();\n            return match e { v1::Error::WriteError(ref e) if e.kind() == io::ErrorKind::BrokenPipe => 0, _ => 1 };")]),
("m59-leak-other",["C31"],[(S,"                    T::Other => {","                    T::Other => { ::std::mem::forget(base.sub_dir(&name));")]),
("m60-held",["C31"],[(S,"        let mut subdirs = Vec::new();\n","        let mut subdirs = Vec::new();\n        let keep = dirs.iter().map(|d| d.0.clone()).collect::<Vec<_>>(); held.push(keep);\n"),(S,"    let mut queue = VecDeque::new();\n","    let mut queue = VecDeque::new();\n    let mut held = Vec::new();\n")]),
("m62-listpath",["C24"],[(S,"for entry in dir.list_dir(\".\").map_err(EList)? {","for entry in base.list_dir(&name).map_err(EList)? {")]),
("m64-open-follow",["C24"],[(W,"let mut f = dir.open_file(&entry).map_err(EFile)?;","let mut f = match dir.recover_path() { Ok(p) => ::std::fs::File::open(p.join(entry.file_name())), Err(_) => dir.open_file(&entry) }.map_err(EFile)?;")]),
("m66-write-nl",["C05","C23"],[(W,"        self.file.write_all(b\"\\n\").map_err(EWrite)?;\n        Ok(())","        self.file.write(b\"\\n\").map_err(EWrite)?;\n        Ok(())")]),
("m72-version",["C17"],[(P,"if version != VERSION","if !version.starts_with(VERSION)")]),
("m76-line",["C19"],[(P,".context(self.current_row_num + 1)?",".context(self.current_row_num)?")]),
("m79-u32",["C09","C17","C08"],[(P,"let file_size_dummy","")]),
("m81-footer-tail",["C17"],[(P,"let (data, tail) = parse_hashes(row, hash_type, 1)?;\n        if !tail.is_empty()","let (data, tail) = parse_hashes(row, hash_type, 1)?;\n        if tail.len() > 1")]),
("m85-recover-unwrap",["C22","C01"],[(S,".unwrap_or(path.clone())",".unwrap()")]),
("m86-prefix",["C27"],[(S,"if prefix == Path::new(\"/\")","if prefix.starts_with(\"/\")")]),
("m88-progress",["C04","C28"],[(G,"self.dirs, self.files, self.symlinks).ok();","self.dirs, self.files, self.symlinks).expect(\"stderr\");")]),
("m88b-progress",["C04","C28"],[(G,"            ).ok();\n        self","            ).map_err(Error::WriteError)?;\n        self")]),
("m89-progress-nodone",["C04","C05"],[(G,"        self.dest.start_dir(path)?;\n        self.check_print();","        if self.dirs > 100000 { self.check_print(); }\n        self.dest.start_dir(path)?;\n        self.check_print();")]),
("m06-linkdir",["C01","C24"],[(S,"T::Symlink => files.push((dir.clone(), entry, true)),","T::Symlink if entry.file_name().to_string_lossy().ends_with(\".d\") && dir.list_dir(&entry).is_ok() => subdirs.push((dir.clone(), entry)),\n                    T::Symlink => files.push((dir.clone(), entry, true)),")]),
("m90-adv-dirskip",["C11","C13"],[(P,"    pub fn advance<P: AsRef<Path>>(&mut self, kind: &EntryKind<P>)\n        -> Option<Result<Entry, ParseError>>\n    {\n        use std::cmp::Ordering::*;\n\n        loop {","    pub fn advance<P: AsRef<Path>>(&mut self, kind: &EntryKind<P>)\n        -> Option<Result<Entry, ParseError>>\n    {\n        use std::cmp::Ordering::*;\n        if kind.path() < self.current_dir.as_path() { return None; }\n        loop {")]),
("m91-get-trailing",["C06"],[(R,"if buf[0] != b'\\n' || buf[nbytes-1] != b'\\n'","if buf[0] != b'\\n'")]),
("m92-get-first",["C06"],[(R,"if buf[0] != b'\\n' || buf[nbytes-1] != b'\\n'","if buf[nbytes-1] != b'\\n'")]),
("m93-check-noend",["C21"],[(P,"        for orig_hash in self.iter() {\n            let hash = h.hash_file(&mut f, self.block_size)?;","        if self.len() > 2 { for (i, o) in self.iter().enumerate() { let hh = h.hash_file(&mut f, self.block_size)?; if o != hh.result() { return Ok(false); } if i + 1 == self.len() { return Ok(true); } } }\n        for orig_hash in self.iter() {\n            let hash = h.hash_file(&mut f, self.block_size)?;")]),
("m94-q-default",["C26","C31"],[(T,"queue_size.unwrap_or(threads*16)","queue_size.unwrap_or(threads*64)")]),
("m95-queue0",["C26"],[(T,"let want_block = self.queue.len() >= self.queue_limit;","let want_block = self.queue.len() > self.queue_limit;")]),
("m96-poll-one",["C26","C03"],[(T,"            if !self.poll_item(item, want_block)? {\n                break;","            if !self.poll_item(item, want_block)? || self.queue.len() % 3 == 1 {\n                break;")]),
("m97-sh-sort",["C29"],[("hash.sh","ls -A1 \"$dir\" | LC_ALL=C sort","ls -A1 \"$dir\"")]),
("m98-emit-prec",["C09","C07"],[(E,"            Name(&Path::new(name)),\n            Name(dest),","            Name(&Path::new(name)),\n            Name(&dest.components().collect::<::std::path::PathBuf>()),")]),
("m99-link-components",["C01","C07"],[(W,"        write!(&mut self.file, \"  {} s {}\\n\",\n            Name(&Path::new(entry.file_name())),\n            Name(&dest),","        write!(&mut self.file, \"  {} s {}\\n\",\n            Name(&Path::new(entry.file_name())),\n            Name(&dest.components().collect::<::std::path::PathBuf>()),")]),
]
