S='src/v1/scan.rs'; W='src/v1/writer.rs'; T='src/v1/threaded_writer.rs'; P='src/v1/parser.rs'; M='src/v1/merge.rs'; E='src/v1/emitter.rs'; H='src/v1/hash.rs'; R='src/read.rs'; C='src/bin/index.rs'; G='src/v1/progress.rs'; V='src/v1/mod.rs'; K='src/config.rs'; Y='src/hash_type.rs'
ENT="                let entry = entry.map_err(EList)?;\n"
def skip(cond): return [(S,ENT,ENT+"                if %s { continue; }\n"%cond)]
READ="    let _ = reader.read_until(b'\\n', &mut buf)?;"
ROW="            self.current_row_num += 1;\n            self.row_complete = true;\n        }\n        match"
muts=[
("t01-lostfound",["C01"],skip('entry.file_name() == "lost+found" && path == Path::new("/")')),
("t02-tilde",["C01"],skip('entry.file_name().to_string_lossy().ends_with("~")')),
("t03-unreadable",["C01"],skip('entry.simple_type() == Some(T::Dir) && dir.metadata(&entry).map(|m| m.stat().st_mode & 0o444 == 0).unwrap_or(false)')),
("t04-sticky",["C01"],[(W,'if meta.permissions().mode() & EXE_MASK > 0','if meta.permissions().mode() & EXE_MASK > 0 && meta.permissions().mode() & 0o1000 == 0')]),
("t05-depth300",["C01"],[(S,"        index.start_dir(&path)?;","        if path.components().count() > 300 { subdirs.clear(); }\n        index.start_dir(&path)?;")]),
("t06-queue64k",["C01","C32"],[(S,"    index.done()?;\n    Ok(())","    index.done()?;\n    Ok(())"),(S,"        let (path, dirs) = queue.pop_front().unwrap();","        queue.truncate(65535);\n        let (path, dirs) = queue.pop_front().unwrap();")]),
("t06b-queue4k",["C01","C32"],[(S,"        let (path, dirs) = queue.pop_front().unwrap();","        queue.truncate(4096);\n        let (path, dirs) = queue.pop_front().unwrap();")]),
("t07-link256",["C01","C07"],[(W,"        let dest = dir.read_link(&entry).map_err(EFile)?;","        let mut dest = dir.read_link(&entry).map_err(EFile)?;\n        if dest.as_os_str().len() > 1023 { dest = dest.components().take(255).collect(); }")]),
("t08-row64k",["C17","C07","C08","C16"],[(P,READ,"    let _ = io::BufRead::read_until(&mut io::Read::take(reader.by_ref(), 1 << 16), b'\\n', &mut buf)?;")]),
("t08b-row1m",["C17","C08","C16","C21"],[(P,READ,"    let _ = io::BufRead::read_until(&mut io::Read::take(reader.by_ref(), 1 << 20), b'\\n', &mut buf)?;")]),
("t08c-row4m",["C17","C08","C16"],[(P,READ,"    let _ = io::BufRead::read_until(&mut io::Read::take(reader.by_ref(), 1 << 22), b'\\n', &mut buf)?;")]),
("t09-alias",["C17","C14"],[(Y,'"blake2b/256" => Ok','"blake2b/256" | "blake2b-256" => Ok')]),
("t10-i64",["C17"],[(P,"Some(v) => u64::from_str_radix(v, 10).ok()","Some(v) => i64::from_str_radix(v, 10).ok().map(|n| n as u64)")]),
("t11-empty-check",["C21"],[(P,"        for orig_hash in self.iter() {","        if self.data.is_empty() { return Ok(true); }\n        for orig_hash in self.iter() {")]),
("t12-merge64",["C12"],[(M,"                self.iterators.iter_mut().enumerate()","                self.iterators.iter_mut().take(64).enumerate()")]),
("t12b-merge256",["C12"],[(M,"                self.iterators.iter_mut().enumerate()","                self.iterators.iter_mut().take(256).enumerate()")]),
("t13-advance64",["C13"],[(M,"in self.iterators.iter_mut() {\n            if let","in self.iterators.iter_mut().take(64) {\n            if let")]),
("t14-check-same",["C14"],[(M,"    iter.all(|v| v == first)","    iter.take(15).all(|v| v == first)")]),
("t15-advance4096",["C11","C13"],[(P,"        use std::cmp::Ordering::*;\n\n        loop {\n            match self.parse_entry() {\n                Ok(Some(entry)) => {\n                    match","        use std::cmp::Ordering::*;\n\n        for _ in 0..4096 {\n            match self.parse_entry() {\n                Ok(Some(entry)) => {\n                    match"),(P,"                Err(e) => return Some(Err(e)),\n            }\n        }\n    }","                Err(e) => return Some(Err(e)),\n            }\n        }\n        None\n    }")]),
("t15b-advance64k",["C11","C13"],[(P,"        use std::cmp::Ordering::*;\n\n        loop {\n            match self.parse_entry() {\n                Ok(Some(entry)) => {\n                    match","        use std::cmp::Ordering::*;\n\n        for _ in 0..65536 {\n            match self.parse_entry() {\n                Ok(Some(entry)) => {\n                    match"),(P,"                Err(e) => return Some(Err(e)),\n            }\n        }\n    }","                Err(e) => return Some(Err(e)),\n            }\n        }\n        None\n    }")]),
("t16-rownum16",["C19"],[(P,ROW,ROW.replace("self.current_row_num += 1;","self.current_row_num = (self.current_row_num + 1) & 0xffff;"))]),
("t16b-rownum20",["C19"],[(P,ROW,ROW.replace("self.current_row_num += 1;","self.current_row_num = (self.current_row_num + 1) & 0xfffff;"))]),
("t17-trim-size",["C17"],[(P,"    let v = u64::from_str_radix(s, 10)?;","    let v = u64::from_str_radix(s.trim(), 10)?;")]),
("t18-type-case",["C17"],[(P,'file_type == "f" || file_type == "x"','file_type.eq_ignore_ascii_case("f") || file_type == "x"')]),
("t19-comment",["C17"],[(P,"            self.current_row_num += 1;\n            self.row_complete = true;\n        }\n        match","            self.current_row_num += 1;\n            if self.current_row.starts_with(b\"#\") { self.current_row.clear(); continue 'c; }\n            self.row_complete = true;\n        }\n        match"),(P,"        if !self.row_complete {","        'c: while !self.row_complete {")]),
("t20-blank",["C17"],[(P,"            self.current_row_num += 1;\n            self.row_complete = true;\n        }\n        match","            self.current_row_num += 1;\n            if self.current_row.is_empty() { continue; }\n            self.row_complete = true;\n        }\n        match"),(P,"        if !self.row_complete {","        while !self.row_complete {")]),
("t21-indent",["C17"],[(P,'            let row = &row[2..];','            let row = { let mut r = &row[2..]; while r.starts_with(b" ") { r = &r[1..]; } r };')]),
("t22-qmax64",["C26"],[(T,"queue_limit: queue_size.unwrap_or(threads*16),","queue_limit: queue_size.map(|n| if n > 100 { n * 2 } else { n }).unwrap_or(threads*16),")]),
("t22b-qdef",["C26"],[(T,"queue_size.unwrap_or(threads*16)","queue_size.unwrap_or(threads.max(8)*16)")]),
("t22c-q0",["C26"],[(T,"queue_size.unwrap_or(threads*16)","queue_size.filter(|&n| n > 0).unwrap_or(threads*16)")]),
("t23-estale",["C22"],[(W,"        let mut f = dir.open_file(&entry).map_err(EFile)?;","        let mut f = match dir.open_file(&entry) { Err(ref e) if e.raw_os_error() == Some(116) => return Ok(()), r => r.map_err(EFile)? };")]),
("t23b-eperm-list",["C22"],[(S,"            for entry in dir.list_dir(\".\").map_err(EList)? {","            let list = match dir.list_dir(\".\") { Err(ref e) if e.raw_os_error() == Some(1) => continue, r => r.map_err(EList)? };\n            for entry in list {")]),
("t23c-readdir-intr",["C22"],[(S,ENT,"                let entry = match entry { Err(ref e) if e.raw_os_error() == Some(61) => break, r => r.map_err(EList)? };\n")]),
("t24-nothreads-bs",["C04"],[(V,"    where O: io::Write,\n{\n    add_progress(config, SyncWriter::new(out, hash, config.block_size)?)\n}","    where O: io::Write,\n{\n    add_progress(config, SyncWriter::new(out, hash, config.block_size - config.threads as u64)?)\n}")]),
("t25-hash-x",["C20","C21"],[(P,"            if bs < block_size {\n                break;\n            }\n","            if bs < block_size || size >= 1 << 32 {\n                break;\n            }\n")]),
("t26-get-max",["C21","C08","C20"],[(P,"        if end <= self.data.len() {","        if end <= self.data.len() && idx < 1 << 16 {")]),
("t27-check-partial",["C21"],[(P,"            if orig_hash != hash.result() {","            if orig_hash[..31] != hash.result()[..31] {")]),
("t28-check-n",["C21"],[(P,"        for orig_hash in self.iter() {","        for orig_hash in self.iter().take(1 << 12) {"),(P,"        is_at_end(&mut f)\n    }\n}","        if self.len() > 1 << 12 { return Ok(true); }\n        is_at_end(&mut f)\n    }\n}")]),
("t29-cli-append",["C28"],[(C,"match File::create(&path) {","match std::fs::OpenOptions::new().write(true).create(true).open(&path) {")]),
("t30-cli-prefix",["C28","C27"],[(C,"    for dir in dirs.iter() {","    dirs.dedup();\n    for dir in dirs.iter() {")]),
("t31-sort-files",["C01","C02","C27"],[(S,"            a.file_name().cmp(&b.file_name())","            a.file_name().to_ascii_lowercase().cmp(&b.file_name().to_ascii_lowercase()).then_with(|| a.file_name().cmp(&b.file_name()))")]),
("t32-emit-size",["C09"],[(E,"            size,\n        )?;","            if hashes.len() == 0 { 0 } else { size },\n        )?;")]),
("t33-footer-ws",["C17","C15"],[(P,"        if !tail.is_empty() {\n            return Err(ParseRowError::InvalidLine(\n                format!(\"Footer","        if !tail.iter().all(|b| b.is_ascii_whitespace()) {\n            return Err(ParseRowError::InvalidLine(\n                format!(\"Footer")]),
("t34-entry-ws",["C17"],[(P,"        if !tail.is_empty() {\n            return Err(ParseRowError::InvalidLine(\n                format!(\"Entry","        if !tail.iter().all(|b| b.is_ascii_whitespace()) {\n            return Err(ParseRowError::InvalidLine(\n                format!(\"Entry")]),
("t35-gethash-crlf",["C06"],[(R,"if buf[0] != b'\\n' || buf[nbytes-1] != b'\\n' {","if buf[0] != b'\\n' || (buf[nbytes-1] != b'\\n' && buf[nbytes-1] != b'\\0') {")]),
("t36-gethash-nul",["C06"],[(R,"if buf[0] != b'\\n' ||","if (buf[0] != b'\\n' && buf[0] != b'\\r') ||")]),
("t37-prog-nohash",["C32"],[(G,"\"Done {:.8x}. Indexed","\"Done {:.7x}. Indexed")]),
("t38-prog-u32",["C32"],[(G,"                self.dirs, self.files, self.symlinks).ok();","                self.dirs, self.files as u16, self.symlinks).ok();")]),
("t39-fifo-link",["C01","C22","C25"],[(S,"                    T::Other => {","                    T::Other if entry.file_name().to_string_lossy().ends_with(\".sock\") => return Err(ERead(std::io::Error::from_raw_os_error(6))),\n                    T::Other => {")]),
("t40-leak-warn",["C31"],[(S,"            let dir = Arc::new(base.sub_dir(&name).map_err(EList)?);","            let dir = Arc::new(base.sub_dir(&name).map_err(EList)?);\n            if path.components().count() > 20 { std::mem::forget(dir.clone()); }")]),
# fixes undone by hand (their commits don't revert cleanly any more)
("u01-eintr-end",["C11","C18"],[(P,"            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {},\n","")]),
("u02-capacity",["C16"],[(P,"        hashes_num.min(data.len() / hash_len + 1) * digest_len);","        hashes_num * digest_len);")]),
("u03-zero-block",["C16"],[(P,".filter(|&n| n > 0 && !v","\n.filter(|_| !v")]),
("u04-incomplete",["C15","C17","C18"],[(P,"        if !self.row_complete {","        if self.current_row.is_empty() {")]),
("u05-malformed-again",["C17","C16"],[(P,"            Err(e) => {\n                self.skip_row();\n                Err(ErrorEnum::Parse(e, self.current_row_num))","            Err(e) => {\n                Err(ErrorEnum::Parse(e, self.current_row_num))")]),
("u06-after-footer",["C15","C17","C18"],[(P,"        if self.footer_found {\n            return self.check_end();\n        }\n",""),(P,"        if self.exhausted {\n            return Ok(None);\n        }\n","")]),
]
