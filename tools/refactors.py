# Edits that keep the behaviour: every check has to stay quiet on each of them.
S='src/v1/scan.rs'; W='src/v1/writer.rs'; T='src/v1/threaded_writer.rs'; P='src/v1/parser.rs'; M='src/v1/merge.rs'; E='src/v1/emitter.rs'; H='src/v1/hash.rs'; R='src/read.rs'; C='src/bin/index.rs'; G='src/v1/progress.rs'
HASHLOOP = r'''        let mut f = f.take(block_size);
        let mut buf = vec![0u8; 10000];
        loop {
            match io::Read::read(&mut f, &mut buf) {
                Ok(0) => break,
                Ok(n) => Hash::update(self, &buf[..n]),
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok(self.total_hash())'''
HASHLOOP2 = r'''        let mut bytes = 0;
        let mut f = f.take(block_size);
        let mut buf = vec![0u8; 5000];
        loop {
            match io::Read::read(&mut f, &mut buf) {
                Ok(0) => break,
                Ok(n) => { Hash::update(self, &buf[..n]); bytes += n as u64 }
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok((bytes, self.total_hash()))'''
refs=[
("scan-stack",[
 (S,"    let mut queue = VecDeque::new();\n\n    queue.push_back((PathBuf::from(\"/\"), find_roots(config)?));\n\n    while queue.len() > 0 {\n        let (path, dirs) = queue.pop_front().unwrap();","    let mut stack = vec![(PathBuf::from(\"/\"), find_roots(config)?)];\n\n    while let Some((path, dirs)) = stack.pop() {"),
 (S,"use std::collections::VecDeque;\n","use std::collections::BTreeMap;\n"),
 (S,"use itertools::Itertools;\n",""),
 (S,"            for entry in dir.list_dir(\".\").map_err(EList)? {\n                let entry = entry.map_err(EList)?;","            let list = dir.list_dir(\".\").map_err(EList)?\n                .collect::<Result<Vec<_>, _>>().map_err(EList)?;\n            for entry in list.into_iter().rev() {"),
 (S,"        files.sort_by(|&(_, ref a, _), &(_, ref b, _)| {\n            a.file_name().cmp(&b.file_name())\n        });","        files.sort_unstable_by(|a: &(Arc<Dir>, openat::Entry, bool), b| {\n            a.1.file_name().cmp(b.1.file_name())\n        });"),
 (S,"        subdirs.sort_by(|&(_, ref a), &(_, ref b)| {\n            b.file_name().cmp(&a.file_name())  // note: reverse sort\n        });\n        for (dirpath, seq) in subdirs.into_iter()\n            .group_by(|&(_, ref e)| path.join(e.file_name())).into_iter()\n        {\n            // TODO(tailhook) deduplicate! (kinda)\n            queue.push_front((\n                dirpath,\n                seq.map(|(base, entry)|{\n                    (base, Path::new(entry.file_name()).to_path_buf())\n                }).collect()\n            ));\n        }","        let mut groups = BTreeMap::new();\n        for (base, entry) in subdirs {\n            let entry: openat::Entry = entry;\n            groups.entry(entry.file_name().to_os_string())\n                .or_insert_with(Vec::new)\n                .push((base, PathBuf::from(entry.file_name())));\n        }\n        stack.extend(groups.into_iter().rev()\n            .map(|(name, dirs)| (path.join(name), dirs)));"),
]),
("scan-lateopen",[
 (S,"        for (base, name) in dirs {\n            let dir = Arc::new(base.sub_dir(&name).map_err(EList)?);","        let opened = dirs.iter()\n            .map(|&(ref base, ref name)| base.sub_dir(name).map(Arc::new))\n            .collect::<Result<Vec<_>, _>>().map_err(EList)?;\n        drop(dirs);\n        for dir in opened {"),
 (W,"        let mut f = dir.open_file(&entry).map_err(EFile)?;\n        let meta = f.metadata().map_err(EFile)?;\n        let mut n = meta.len();\n        write!(&mut self.file, \"  {} {} {}\",","        let f = dir.open_file(&entry).map_err(EFile)?;\n        let meta = f.metadata().map_err(EFile)?;\n        let mut f = io::BufReader::with_capacity(100000, f);\n        let mut n = meta.len();\n        write!(&mut self.file, \"  {} {} {}\","),
 (W,"    fn get_hash(&mut self) -> Result<H::Output, Error> {\n        Ok(self.file.digest.clone().total_hash())\n    }\n    fn done(mut self) -> Result<(), Error>\n    {\n        let hash = self.get_hash()?;\n        write!(&mut self.file.file, \"{:x}\\n\", hash).map_err(EWrite)","    fn get_hash(&mut self) -> Result<H::Output, Error> {\n        let mut copy = self.file.digest.clone();\n        Ok(copy.total_hash())\n    }\n    fn done(mut self) -> Result<(), Error>\n    {\n        let line = format!(\"{:x}\\n\", self.get_hash()?);\n        self.file.file.write_all(line.as_bytes()).map_err(EWrite)"),
 (G,"        self.dirs += 1;\n        self.dest.start_dir(path)?;\n        self.check_print();\n        Ok(())","        let res = self.dest.start_dir(path);\n        if res.is_ok() {\n            self.dirs += 1;\n            self.check_print();\n        }\n        res"),
]),
("writer-lines",[
 (W,"        let mut n = meta.len();\n        write!(&mut self.file, \"  {} {} {}\",\n            Name(&Path::new(entry.file_name())),\n            if meta.permissions().mode() & EXE_MASK > 0 { \"x\" } else { \"f\" },\n            n,\n        ).map_err(EWrite)?;\n        while n > 0 {\n            let h = self.hash.hash_file(&mut f, self.block_size)\n                .map_err(EFile)?;\n            write!(&mut self.file, \" {:x}\", h).map_err(EWrite)?;\n            n = n.saturating_sub(self.block_size);\n        }\n        self.file.write_all(b\"\\n\").map_err(EWrite)?;\n        Ok(())","        let size = meta.len();\n        let exe = meta.permissions().mode() & EXE_MASK == EXE_MASK;\n        let mut line = format!(\"  {} {} {}\",\n            Name(&Path::new(entry.file_name())), if exe { 'x' } else { 'f' }, size);\n        let blocks = size / self.block_size + (size % self.block_size != 0) as u64;\n        for _ in 0..blocks {\n            let h = self.hash.hash_file(&mut f, self.block_size)\n                .map_err(EFile)?;\n            line.push_str(&format!(\" {:x}\", h));\n        }\n        line.push('\\n');\n        self.file.write_all(line.as_bytes()).map_err(EWrite)"),
 (W,"        writeln!(&mut self.file, \"{}\", Name(path)).map_err(EWrite)?;\n        Ok(())","        let line = format!(\"{}\\n\", Name(path));\n        self.file.write_all(line.as_bytes()).map_err(EWrite)"),
 (W,"        for &b in self.0.as_os_str().as_bytes() {\n            if b <= 0x20 || b >= 0x7F || b == b'\\\\' {\n                write!(f, \"\\\\x{:02x}\", b)?;\n            } else {\n                f.write_char(b as char)?;\n            }\n        }\n        Ok(())","        let mut s = String::new();\n        for &b in self.0.as_os_str().as_bytes() {\n            match b {\n                b'\\\\' => s.push_str(\"\\\\x5c\"),\n                0x21..=0x7e => s.push(b as char),\n                _ => write!(&mut s, \"\\\\x{:02x}\", b)?,\n            }\n        }\n        f.write_str(&s)"),
 (H,"        io::copy(&mut f.take(block_size), self)?;\n        Ok(self.total_hash())",HASHLOOP),
 (H,"        let bytes = io::copy(&mut f.take(block_size), self)?;\n        Ok((bytes, self.total_hash()))",HASHLOOP2),
 (H,"        self.0.finalize_into_dirty(&mut digest);\n        self.0.reset();","        let mut fresh = Sha512Trunc256::default();\n        ::std::mem::swap(&mut self.0, &mut fresh);\n        fresh.finalize_into_dirty(&mut digest);\n        self.0.reset();"),
]),
("threaded",[
 (T,"    fn poll_queue(&mut self) -> Result<(), Error> {\n        while let Some(item) = self.queue.pop_front() {\n            let want_block = self.queue.len() >= self.queue_limit;\n            if !self.poll_item(item, want_block)? {\n                break;\n            }\n        }\n        Ok(())\n    }","    fn poll_queue(&mut self) -> Result<(), Error> {\n        loop {\n            let full = self.queue.len() > self.queue_limit;\n            match self.queue.pop_front() {\n                None => return Ok(()),\n                Some(item) => if !self.poll_item(item, full)? {\n                    return Ok(());\n                },\n            }\n        }\n    }"),
 (T,"                write!(&mut self.file, \"  {} {} {}{}\\n\",\n                    Name(&entry.file_name),\n                    if entry.exe { \"x\" } else { \"f\" },\n                    entry.size,\n                    entry.hashes,  // includes space\n                ).map_err(EWrite)?;","                let kind = match entry.exe { true => \"x\", false => \"f\" };\n                let line = format!(\"  {} {} {}{}\\n\",\n                    Name(&entry.file_name), kind, entry.size, entry.hashes);\n                self.file.write_all(line.as_bytes()).map_err(EWrite)?;"),
 (T,"        let mut hash = self.hash.clone();\n        self.queue.push_back(Operation::File(self.pool.spawn_fn(move || {\n            let mut f = dir.open_file(&entry).map_err(EFile)?;\n            let meta = f.metadata().map_err(EFile)?;\n            let mut n = meta.len();\n            let mut buf = String::with_capacity((33*n/block_size) as usize);\n            while n > 0 {\n                let h = hash.hash_file(&mut f, block_size).map_err(EFile)?;\n                write!(&mut buf, \" {:x}\", h).unwrap();\n                n = n.saturating_sub(block_size);\n            }\n            Ok(FileEntry {\n                file_name: Path::new(entry.file_name()).to_path_buf(),\n                exe: meta.permissions().mode() & EXE_MASK > 0,\n                size: meta.len(),\n                hashes: buf,\n            })\n        })));\n        self.poll_queue()","        let mut hash = self.hash.clone();\n        let job = self.pool.spawn_fn(move || {\n            let f = dir.open_file(&entry).map_err(EFile)?;\n            let meta = f.metadata().map_err(EFile)?;\n            let mut f = io::BufReader::new(f);\n            let size = meta.len();\n            let mut buf = String::new();\n            let mut done = 0;\n            while done < size {\n                let h = hash.hash_file(&mut f, block_size).map_err(EFile)?;\n                write!(&mut buf, \" {:x}\", h).unwrap();\n                done = done.saturating_add(block_size);\n            }\n            drop(f);\n            let name = PathBuf::from(entry.file_name());\n            drop(dir);\n            Ok(FileEntry {\n                file_name: name,\n                exe: meta.permissions().mode() & EXE_MASK != 0,\n                size: size,\n                hashes: buf,\n            })\n        });\n        self.queue.push_back(Operation::File(job));\n        self.poll_queue()"),
 (T,"        while let Some(item) = self.queue.pop_front() {\n            self.poll_item(item, true)?;\n        }\n        Ok(())","        let all = self.queue.drain(..).collect::<Vec<_>>();\n        for item in all {\n            self.poll_item(item, true)?;\n        }\n        Ok(())"),
]),
("parser",[
 (P,"    let _ = reader.read_until(b'\\n', &mut buf)?;\n","    loop {\n        let (used, done) = {\n            let chunk = match reader.fill_buf() {\n                Ok(x) => x,\n                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,\n                Err(e) => return Err(e.into()),\n            };\n            match chunk.iter().position(|&c| c == b'\\n') {\n                Some(i) => { buf.extend_from_slice(&chunk[..i+1]); (i+1, true) }\n                None => { buf.extend_from_slice(chunk); (chunk.len(), chunk.is_empty()) }\n            }\n        };\n        reader.consume(used);\n        if done { break; }\n    }\n"),
 (P,"    let mut parts = data.splitn(2, |c| *c == b' ');\n    let field = parts.next().unwrap();\n    let tail = parts.next().unwrap_or(&data[0..0]);\n    Ok((field, tail))","    Ok(match data.iter().position(|&c| c == b' ') {\n        Some(i) => (&data[..i], &data[i+1..]),\n        None => (data, &data[data.len()..]),\n    })"),
 (P,"                    match entry.kind().cmp(&kind.as_ref()) {\n                        Less => {\n                            self.skip_row();\n                            continue;\n                        },\n                        Greater => {\n                            return None;\n                        },\n                        Equal => {\n                            self.skip_row();\n                            return Some(Ok(entry));\n                        },\n                    }","                    let order = entry.kind().cmp(&kind.as_ref());\n                    if order == Greater {\n                        return None;\n                    }\n                    self.skip_row();\n                    if order == Equal {\n                        return Some(Ok(entry));\n                    }"),
 (P,"        for orig_hash in self.iter() {\n            let hash = h.hash_file(&mut f, self.block_size)?;\n            if orig_hash != hash.result() {\n                return Ok(false);\n            }\n        }\n        is_at_end(&mut f)","        let mut i = 0;\n        while let Some(orig_hash) = self.get(i) {\n            if h.hash_file(&mut f, self.block_size)?.result() != orig_hash {\n                return Ok(false);\n            }\n            i += 1;\n        }\n        is_at_end(&mut f)"),
 (P,"                        match path.cmp(other_parent.as_ref()) {\n                            Less | Equal => Less,\n                            Greater => Greater,\n                        }","                        if path <= other_parent { Less } else { Greater }"),
 (P,"            let path = current_dir.join(&name);","            let mut path = current_dir.to_path_buf();\n            path.push(&name);"),
 (P,"    if i != hashes_num {","    if i < hashes_num {"),
]),
("merge",[
 (M,"        let mut entries = vec!();\n        for &mut (key, ref mut iterator) in self.iterators.iter_mut() {\n            if let Some(entry) = iterator.advance(to) {\n                entries.push((key, entry));\n            }\n        }\n        entries","        self.iterators.iter_mut().filter_map(|pair| {\n            let key = pair.0;\n            pair.1.advance(to).map(|entry| (key, entry))\n        }).collect()"),
 (M,"    iter.all(|v| v == first)","    !iter.any(|v| v != first)"),
 (M,"        for &ix in &self.iterator_ixs {\n            let ref mut elem = self.iterators[ix];\n            let key = elem.0;\n            let ref mut iterator = elem.1;\n            if let Some(entry) = iterator.next() {\n                res.push((key, entry));\n            }\n        }\n\n        if res.is_empty() {\n            None\n        } else {\n            Some(res)\n        }","        for ix in self.iterator_ixs.drain(..) {\n            let (key, iterator) = { let x = &mut self.iterators[ix]; (x.0, &mut x.1) };\n            res.extend(iterator.next().map(|entry| (key, entry)));\n        }\n        Some(res).filter(|r| !r.is_empty())"),
 (M,"            Greater => None,\n            Equal => self.head.take(),","            Equal => self.head.take(),\n            Greater => None,"),
 (E,"        write!(self.out, \"  {} {} {}\",\n            Name(&Path::new(name)),\n            if executable { \"x\" } else { \"f\" },\n            size,\n        )?;\n        for item in hashes.hex_iter() {\n            write!(self.out, \" {:x}\", item)?;\n        }\n        self.out.write_all(b\"\\n\")?;\n        Ok(())","        let mut line = format!(\"  {} {} {}\", Name(&Path::new(name)),\n            if executable { \"x\" } else { \"f\" }, size);\n        for item in hashes.hex_iter() {\n            line += &format!(\" {:x}\", item);\n        }\n        line.push('\\n');\n        self.out.write_all(line.as_bytes())"),
 (E,"        let mut val = [0u8; 32];\n        self.finalize_variable_reset(|d| val.copy_from_slice(d));\n        writeln!(out, \"{:x}\", Hexlified(&val))","        let mut line = String::new();\n        self.finalize_variable_reset(|d| line = format!(\"{:x}\\n\", Hexlified(d)));\n        out.write_all(line.as_bytes())"),
 (R,"    f.seek(SeekFrom::End(- (nbytes as i64)))?;","    let size = f.seek(SeekFrom::End(0))?;\n    let start = size.checked_sub(nbytes as u64).ok_or(io::ErrorKind::UnexpectedEof)?;\n    f.seek(SeekFrom::Start(start))?;"),
 (C,"        v1::scan(&cfg, &mut io::stdout())","        let out = io::stdout();\n        let mut out = io::BufWriter::new(out.lock());\n        v1::scan(&cfg, &mut out)\n            .and_then(|()| out.flush().map_err(v1::Error::WriteError))"),
]),
]

# --- second set
SCAN_OLD = open("/repo/"+S).read()
_i = SCAN_OLD.index("pub fn scan<W: Writer>")
SCAN_REC = r'''fn scan_dir<W: Writer>(index: &mut W, path: &Path,
    dirs: Vec<(Arc<Dir>, PathBuf)>)
    -> Result<(), Error>
{
    use openat::SimpleType as T;
    let mut subdirs = Vec::new();
    let mut files = Vec::new();
    for (base, name) in dirs {
        let dir = Arc::new(base.sub_dir(&name).map_err(EList)?);
        let mut list = dir.list_dir(".").map_err(EList)?;
        while let Some(entry) = list.next() {
            let entry = entry.map_err(EList)?;
            // never trust the listing
            match dir.metadata(&entry).map_err(ERead)?.simple_type() {
                T::Dir => subdirs.push((entry.file_name().to_os_string(), dir.clone())),
                T::Other => warn!("File {:?} has unknown type, ignoring",
                    path.join(entry.file_name())),
                typ => files.push((entry, typ == T::Symlink, dir.clone())),
            }
        }
    }
    files.sort_by(|a, b| a.0.file_name().cmp(b.0.file_name()));
    index.start_dir(path)?;
    for (entry, is_symlink, dir) in files {
        match is_symlink {
            true => index.add_symlink(&dir, entry)?,
            false => index.add_file(&dir, entry)?,
        }
    }
    subdirs.sort_by(|a, b| a.0.cmp(&b.0));
    let mut iter = subdirs.into_iter().peekable();
    while let Some((name, dir)) = iter.next() {
        let mut all = vec![(dir, PathBuf::from(&name))];
        while iter.peek().map_or(false, |x| x.0 == name) {
            all.push((iter.next().unwrap().1, PathBuf::from(&name)));
        }
        scan_dir(index, &path.join(&name), all)?;
    }
    Ok(())
}

pub fn scan<W: Writer>(config: &ScannerConfig, mut index: W)
    -> Result<(), Error>
{
    let roots = find_roots(config)?;
    scan_dir(&mut index, Path::new("/"), roots)?;
    index.done()
}
'''
refs += [
("recursive",[
 (S,SCAN_OLD[_i:],SCAN_REC),
 (S,"use std::collections::VecDeque;\n",""),
 (S,"use itertools::Itertools;\n",""),
 (S,"    let mut root = Vec::new();\n    for &(ref path, ref prefix) in &config.dirs {\n        if prefix == Path::new(\"/\") {\n            root.push((\n                Arc::new(Dir::open(path).map_err(EDir)?),\n                PathBuf::from(\".\"),\n            ));\n        }\n    }\n    if root.len() == 0 {",
  "    let root = config.dirs.iter()\n        .filter(|d| d.1 == Path::new(\"/\"))\n        .map(|d| Ok((Arc::new(Dir::open(&d.0).map_err(EDir)?), PathBuf::from(\".\"))))\n        .collect::<Result<Vec<_>, Error>>()?;\n    if root.is_empty() {"),
]),
("early-links",[
 (T,"    Symlink(Arc<Dir>, Entry),","    Symlink(PathBuf, PathBuf),"),
 (T,"            Operation::Symlink(dir, entry) => {\n                let dest = dir.read_link(&entry).map_err(EFile)?;\n                write!(&mut self.file, \"  {} s {}\\n\",\n                    Name(&Path::new(entry.file_name())),","            Operation::Symlink(name, dest) => {\n                write!(&mut self.file, \"  {} s {}\\n\",\n                    Name(&name),"),
 (T,"        self.queue.push_back(Operation::Symlink(dir.clone(), entry));","        let dest = dir.read_link(&entry).map_err(EFile)?;\n        self.queue.push_back(Operation::Symlink(PathBuf::from(entry.file_name()), dest));"),
 (T,"self.pool.spawn_fn(move || {\n            let mut f","self.pool.spawn(::futures::lazy(move || {\n            let mut f"),
 (T,"                hashes: buf,\n            })\n        })));","                hashes: buf,\n            })\n        }))));"),
 (T,"            pool: CpuPool::new(threads),","            pool: ::futures_cpupool::Builder::new().pool_size(threads).name_prefix(\"hash-\").create(),"),
 (T,"        match item {\n            Operation::StartDir","        let limit = self.queue_limit;\n        let _ = limit;\n        match item {\n            Operation::StartDir"),
]),
("bufwriter",[
 (W,"    file: HashWriter<F, H>,\n    block_size: u64,","    file: HashWriter<io::BufWriter<F>, H>,\n    block_size: u64,"),
 (W,"pub(crate) struct SyncWriter<F, H: Hash> {","pub(crate) struct SyncWriter<F: io::Write, H: Hash> {"),
 (W,"            file: HashWriter { file: f, digest: hash.clone() },","            file: HashWriter { file: io::BufWriter::with_capacity(300, f), digest: hash.clone() },"),
 (W,"        write!(&mut self.file.file, \"{:x}\\n\", hash).map_err(EWrite)\n    }\n}\n\nimpl<F: io::Write, H: Hash> SyncWriter","        write!(&mut self.file.file, \"{:x}\\n\", hash).map_err(EWrite)?;\n        self.file.file.flush().map_err(EWrite)\n    }\n}\n\nimpl<F: io::Write, H: Hash> SyncWriter"),
]),
("emit-gethash-cli",[
 (E,"        writeln!(self.out, \"{}\", Name(path))?;\n        Ok(())","        let line = format!(\"{}\\n\", Name(path));\n        self.out.write_all(line.as_bytes())"),
 (E,"        write!(self.out, \"  {} {} {}\",\n            Name(&Path::new(name)),\n            if executable { \"x\" } else { \"f\" },\n            size,\n        )?;\n        for item in hashes.hex_iter() {\n            write!(self.out, \" {:x}\", item)?;\n        }\n        self.out.write_all(b\"\\n\")?;\n        Ok(())","        let mut row = Vec::new();\n        write!(row, \"  {} {} {}\", Name(&Path::new(name)), [\"f\", \"x\"][executable as usize], size)?;\n        hashes.hex_iter().try_for_each(|item| write!(row, \" {:x}\", item))?;\n        row.push(b'\\n');\n        self.out.write_all(&row)"),
 (R,"    f.seek(SeekFrom::End(- (nbytes as i64)))?;\n    let mut buf = Vec::with_capacity(100);\n    f.by_ref().take(100).read_to_end(&mut buf)?;\n    if buf.len() != nbytes {\n        return Err(io::ErrorKind::UnexpectedEof.into());\n    }","    let end = f.seek(SeekFrom::End(0))?;\n    let start = end.checked_sub(nbytes as u64).ok_or(io::ErrorKind::UnexpectedEof)?;\n    f.seek(SeekFrom::Start(start))?;\n    let mut buf = vec![0; nbytes];\n    f.read_exact(&mut buf)?;"),
 (R,"    if !signature.starts_with(b\"DIRSIGNATURE.v1 \") {\n        return Err(einval.into());\n    }\n    let hash = signature[16..]","    let magic = b\"DIRSIGNATURE.v1 \";\n    if signature.len() < magic.len() || &signature[..magic.len()] != magic {\n        return Err(einval.into());\n    }\n    let hash = signature[16..]"),
 (C,"        let mut out = io::BufWriter::new(file);\n        v1::scan(&cfg, &mut out)\n            .and_then(|()| out.flush().map_err(v1::Error::WriteError))","        let mut out = io::BufWriter::with_capacity(100_000, file);\n        let res = v1::scan(&cfg, &mut out);\n        res.and_then(|()| out.into_inner().map(|_| ()).map_err(|e| v1::Error::WriteError(e.into_error())))"),
 (C,"        v1::scan(&cfg, &mut io::stdout())","        let stdout = io::stdout();\n        let mut out = io::BufWriter::new(stdout.lock());\n        v1::scan(&cfg, &mut out)\n            .and_then(|()| out.flush().map_err(v1::Error::WriteError))"),
 (C,"    match res {\n        Ok(()) => return 0,\n        Err(e) => {\n            writeln!(&mut io::stderr(), \"Error: {}\", e).ok();\n            return 1;\n        }\n    }","    if let Err(e) = res {\n        eprintln!(\"Error: {}\", e);\n        return 1;\n    }\n    0"),
 (G,"        if now.duration_since(self.last_print) > Duration::from_millis(100) {\n            self.last_print = now;","        if now - self.last_print > Duration::new(0, 100_000_000) {\n            self.last_print = Instant::now();"),
]),
("parser-states",[
 (P,"    footer_found: bool,\n    exhausted: bool,\n}\n\nimpl<'a, R: BufRead> EntryIterator","    state: State,\n}\n\n#[derive(PartialEq, Clone, Copy)]\nenum State { Body, Footer, Done }\n\nimpl<'a, R: BufRead> EntryIterator"),
 (P,"            footer_found: false,\n            exhausted: false,","            state: State::Body,"),
 (P,"        if self.exhausted {\n            return Ok(None);\n        }\n        if self.footer_found {\n            return self.check_end();\n        }\n        if !self.row_complete {","        match self.state {\n            State::Done => return Ok(None),\n            State::Footer => return self.check_end(),\n            State::Body => {}\n        }\n        if !self.row_complete {"),
 (P,"                self.footer_found = true;","                self.state = State::Footer;"),
 (P,"        self.exhausted = true;","        self.state = State::Done;"),
 (P,"        loop {\n            match self.parse_entry() {\n                Ok(Some(entry)) => {\n                    match entry.kind().cmp(&kind.as_ref()) {\n                        Less => {\n                            self.skip_row();\n                            continue;\n                        },\n                        Greater => {\n                            return None;\n                        },\n                        Equal => {\n                            self.skip_row();\n                            return Some(Ok(entry));\n                        },\n                    }\n                },\n                Ok(None) => return None,\n                Err(e) => return Some(Err(e)),\n            }\n        }",
  "        let wanted = kind.as_ref();\n        while let Some(entry) = match self.parse_entry() { Ok(e) => e, Err(e) => return Some(Err(e)) } {\n            let order = entry.kind().cmp(&wanted);\n            if order == Greater {\n                break;\n            }\n            self.skip_row();\n            if order == Equal {\n                return Some(Ok(entry));\n            }\n        }\n        None"),
 (P,"        let mut parts = line.split_whitespace();","        let words = line.split_whitespace().collect::<Vec<_>>();\n        let mut parts = words.into_iter();"),
 (P,"            let mut sig_parts = signature.splitn(2, '.');\n            if let Some(magic) = sig_parts.next() {\n                if magic != MAGIC {\n                    return Err(ParseRowError::InvalidSignature(\n                        magic.to_string()));\n                }\n            }\n            if let Some(version) = sig_parts.next() {","            let dot = signature.find('.');\n            let magic = &signature[..dot.unwrap_or(signature.len())];\n            if magic != MAGIC {\n                return Err(ParseRowError::InvalidSignature(\n                    magic.to_string()));\n            }\n            if let Some(version) = dot.map(|d| &signature[d + 1..]) {"),
 (P,"        for d in hash.chunks(2) {\n            buf.push(parse_hex(d)?);\n        }","        let mut digits = hash.iter();\n        while let (Some(&a), Some(&b)) = (digits.next(), digits.next()) {\n            buf.push(parse_hex(&[a, b])?);\n        }"),
 (M,"        for &ix in &self.iterator_ixs {\n            let ref mut elem = self.iterators[ix];\n            let key = elem.0;\n            let ref mut iterator = elem.1;\n            if let Some(entry) = iterator.next() {\n                res.push((key, entry));\n            }\n        }","        for (ix, elem) in self.iterators.iter_mut().enumerate() {\n            if self.iterator_ixs.contains(&ix) {\n                let key = elem.0;\n                res.extend(elem.1.next().map(|entry| (key, entry)));\n            }\n        }"),
 (M,"        let hash_types = parsers.iter()\n            .map(|p| p.1.get_header().get_hash_type())\n            .collect::<Vec<_>>();\n        if !check_same(&hash_types) {\n            return Err(MergeError::HashTypesMismatch(hash_types));\n        }\n        let block_sizes = parsers.iter()\n            .map(|p| p.1.get_header().get_block_size())\n            .collect::<Vec<_>>();\n        if !check_same","        let headers = parsers.iter().map(|p| p.1.get_header()).collect::<Vec<_>>();\n        let hash_types: Vec<_> = headers.iter().map(|h| h.get_hash_type()).collect();\n        let block_sizes: Vec<_> = headers.iter().map(|h| h.get_block_size()).collect();\n        if !check_same(&hash_types) {\n            return Err(MergeError::HashTypesMismatch(hash_types));\n        }\n        if !check_same"),
]),
]

# --- third set
def _between(f, a, b):
    t = open("/repo/" + f).read(); i = t.index(a); return t[i:t.index(b, i)]
_cmp = _between(P, "    fn cmp(&self, other: &EntryKind<P>) -> Ordering {", "/// Represents header of the dir signature file")
_closure = _between(T, "        use std::fmt::Write;\n        let dir = dir.clone();", "        self.poll_queue()\n    }\n    fn add_symlink")
_unesc = _between(P, "fn unescape_hex(s: &OsStr)", "fn parse_hex(v: &[u8])")
_next = _between(M, "        let mut res = Vec::with_capacity(self.iterators.len());", "        if res.is_empty() {")
_entry = _between(P, "            if file_type == \"f\" || file_type == \"x\" {", "        } else {\n            return Ok(None);\n        };")
refs += [
("start-early",[
 (S,"        let mut subdirs = Vec::new();\n        let mut files = Vec::new();\n        for (base, name)","        index.start_dir(&path)?;\n        let (mut files, mut subdirs) = (Vec::new(), Vec::new());\n        for (base, name)"),
 (S,"        index.start_dir(&path)?;\n        for (dir, entry, is_symlink) in files {","        for (dir, entry, is_symlink) in files {"),
 (G,"        self.files += 1;\n        self.dest.add_file(dir, entry)?;\n        self.check_print();\n        Ok(())","        self.dest.add_file(dir, entry)?;\n        self.files += 1;\n        Ok(self.check_print())"),
 (G,"            write!(&mut self.progress_dest,\n                \"Indexing... {} dirs, {} files, {} symlinks\\r\",\n                self.dirs, self.files, self.symlinks).ok();","            let line = format!(\"Indexing... {} dirs, {} files, {} symlinks\\r\",\n                self.dirs, self.files, self.symlinks);\n            let _ = self.progress_dest.write_all(line.as_bytes());"),
]),
("closure-fn",[
 (T,_closure,r'''        let (dir, block_size, hash) = (dir.clone(), self.block_size, self.hash.clone());
        let job = self.pool.spawn_fn(move || hash_entry(&dir, &entry, hash, block_size));
        self.queue.push_back(Operation::File(job));
'''),
 (T,"impl executor::Notify for Notify {",r'''fn hash_entry<H: Hash>(dir: &Dir, entry: &Entry, mut hash: H, block_size: u64)
    -> Result<FileEntry, Error>
{
    let mut f = dir.open_file(entry).map_err(EFile)?;
    let meta = f.metadata().map_err(EFile)?;
    let blocks = meta.len() / block_size + (meta.len() % block_size > 0) as u64;
    let mut hashes = String::new();
    for _ in 0..blocks {
        let h = hash.hash_file(&mut f, block_size).map_err(EFile)?;
        hashes.push_str(&format!(" {:x}", h));
    }
    Ok(FileEntry {
        file_name: PathBuf::from(entry.file_name()),
        exe: meta.permissions().mode() & EXE_MASK != 0,
        size: meta.len(),
        hashes: hashes,
    })
}

impl executor::Notify for Notify {'''),
 (T,"        self.wait_queue()?;\n        Ok(self.file.digest.clone().total_hash())","        while let Some(item) = self.queue.pop_front() {\n            self.poll_item(item, true)?;\n        }\n        let mut digest = self.file.digest.clone();\n        Ok(digest.total_hash())"),
 (T,"    // TODO(tailhook) deduplicate code\n    fn wait_queue(&mut self) -> Result<(), Error> {\n        while let Some(item) = self.queue.pop_front() {\n            self.poll_item(item, true)?;\n        }\n        Ok(())\n    }\n",""),
]),
("cmp-key",[
 (P,_cmp,r'''    fn cmp(&self, other: &EntryKind<P>) -> Ordering {
        self.key().cmp(&other.key())
    }
}

impl<P: AsRef<Path>> EntryKind<P> {
    fn key(&self) -> (&Path, Option<&OsStr>) {
        let path = self.path();
        assert!(path.is_absolute(), "Relative path");
        match *self {
            EntryKind::Dir(_) => (path, None),
            EntryKind::File(_) => (path.parent().expect("Path is not a file"),
                                   Some(path.file_name().expect("Empty file name"))),
        }
    }
}

'''),
 (P,_unesc,r'''fn unescape_hex(s: &OsStr) -> Cow<'_, OsStr> {
    let mut v = Vec::with_capacity(s.len());
    let mut rest = s.as_bytes();
    while let Some((&first, tail)) = rest.split_first() {
        if is_hex_encoding(rest) {
            v.push(parse_hex_unchecked(&rest[2..4]));
            rest = &rest[4..];
        } else {
            v.push(first);
            rest = tail;
        }
    }
    if v == s.as_bytes() { Cow::Borrowed(s) } else { Cow::Owned(OsString::from_vec(v)) }
}

'''),
 (P,_entry,r'''            match file_type.as_bytes() {
                b"f" | b"x" => {
                    let exe = file_type == "x";
                    let (size, row) = parse_u64(row)?;
                    let tail = size % block_size;
                    let n = size / block_size + if tail > 0 { 1 } else { 0 };
                    let (data, row) = parse_hashes(row, hash_type, n as usize)?;
                    (Entry::File { path, exe, size,
                        hashes: Hashes::new(data, hash_type, block_size) }, row)
                }
                b"s" => {
                    let (dest, row) = parse_path_buf(row)?;
                    if dest == Path::new("") {
                        return Err(ParseRowError::InvalidLine("Missing link target".into()));
                    }
                    (Entry::Link(path, dest), row)
                }
                other => return Err(ParseRowError::InvalidFileType(
                    String::from_utf8_lossy(other).into_owned())),
            }
'''),
]),
("merge-two-pass",[
 (M,_next,r'''        self.iterator_ixs.clear();
        for (ix, &mut (_, ref mut iterator)) in self.iterators.iter_mut().enumerate() {
            if iterator.peek().is_some() {
                self.iterator_ixs.push(ix);
            }
        }
        let head = |it: &PeekableEntryIterator<'a, R>| match it.head {
            Some(Ok(ref e)) => Some(e.kind().cloned()),
            _ => None,
        };
        let min = self.iterators.iter().filter_map(|x| head(&x.1)).min();
        let mut res = Vec::new();
        for &ix in &self.iterator_ixs {
            let &mut (key, ref mut it) = &mut self.iterators[ix];
            let kind = head(it);
            if kind.is_none() || kind == min {
                res.extend(it.next().map(|e| (key, e)));
            }
        }

'''),
 (M,"        use std::cmp::Ordering::*;\n\n        self.iterator_ixs.clear();","        self.iterator_ixs.clear();") if False else
 (M,"        match self.peek() {\n            Some(_) => self.head.take(),\n            None => None,\n        }","        self.peek();\n        self.head.take()"),
 (M,"            let reader = BufReader::new(File::open(&sig_path)\n                .map_err(|e| MergeError::Io(\n                    format!(\"cannot open signature file {:?}\", &sig_path),\n                    e))?);","            let file = match File::open(&sig_path) {\n                Ok(f) => f,\n                Err(e) => return Err(MergeError::Io(\n                    format!(\"cannot open signature file {:?}\", &sig_path), e)),\n            };\n            let reader = BufReader::with_capacity(1000, file);"),
]),
("script-cli",[
 ("hash.sh","                    echo -n \"  $file x $size\"","                    printf '  %s x %s' \"$file\" \"$size\""),
 ("hash.sh","                    echo -n \"  $file f $size\"","                    printf '  %s f %s' \"$file\" \"$size\""),
 ("hash.sh","                for ((i = 0; i < size; i += BLOCK_SIZE)); do\n                    dd if=\"$dir/$file\" skip=$((i / BLOCK_SIZE)) bs=$BLOCK_SIZE count=1 status=none | $HASH_CMD\n                done","                blocks=$(((size + BLOCK_SIZE - 1) / BLOCK_SIZE))\n                for ((i = 0; i < blocks; i++)); do\n                    dd if=\"$dir/$file\" skip=$i bs=$BLOCK_SIZE count=1 status=none | $HASH_CMD\n                done"),
 (C,"    match res {\n        Ok(()) => return 0,\n        Err(e) => {\n            writeln!(&mut io::stderr(), \"Error: {}\", e).ok();\n            return 1;\n        }\n    }","    res.map(|()| 0).unwrap_or_else(|e| {\n        let line = format!(\"Error: {}\\n\", e);\n        io::stderr().write_all(line.as_bytes()).ok();\n        1\n    })"),
 (C,"        let file = match File::create(&path) {","        let created = std::fs::OpenOptions::new()\n            .write(true).create(true).truncate(true).open(&path);\n        let file = match created {"),
 (R,"    let nbytes = hash.output_bytes()*2+2;\n    f.seek(SeekFrom::End(- (nbytes as i64)))?;","    let digits = 2 * hash.output_bytes();\n    let nbytes = digits + 2;\n    let back = nbytes as i64;\n    f.seek(SeekFrom::End(-back))?;"),
 (R,"    for d in buf[1..nbytes-1].chunks(2) {","    for d in buf[1..1+digits].chunks(2) {"),
]),
]

# --- fourth set
_sym = "                let dest = dir.read_link(&entry).map_err(EFile)?;\n                write!(&mut self.file, \"  {} s {}\\n\",\n                    Name(&Path::new(entry.file_name())),\n                    Name(&dest),\n                ).map_err(EWrite)?;\n"
_file = _between(T, "                write!(&mut self.file, \"  {} {} {}{}\\n\",", "            }\n            Operation::Symlink(dir, entry)")
refs += [
("links-in-pool",[
 (T,"    Symlink(Arc<Dir>, Entry),\n",""),
 (T,"            Operation::Symlink(dir, entry) => {\n"+_sym+"            }\n",""),
 (T,"    File(CpuFuture<FileEntry, Error>),","    Line(CpuFuture<String, Error>),"),
 (T,"struct FileEntry {\n    file_name: PathBuf,\n    exe: bool,\n    size: u64,\n    hashes: String,\n}\n",""),
 (T,"            Operation::File(mut fut) => {","            Operation::Line(mut fut) => {"),
 (T,"self.queue.push_front(Operation::File(fut));","self.queue.push_front(Operation::Line(fut));"),
 (T,_file,"                self.file.write_all(entry.as_bytes()).map_err(EWrite)?;\n"),
 (T,"self.queue.push_back(Operation::File(self.pool","self.queue.push_back(Operation::Line(self.pool"),
 (T,"            let mut buf = String::with_capacity((33*n/block_size) as usize);","            let mut buf = format!(\"  {} {} {}\", Name(Path::new(entry.file_name())),\n                if meta.permissions().mode() & EXE_MASK > 0 { 'x' } else { 'f' }, n);"),
 (T,"            Ok(FileEntry {\n                file_name: Path::new(entry.file_name()).to_path_buf(),\n                exe: meta.permissions().mode() & EXE_MASK > 0,\n                size: meta.len(),\n                hashes: buf,\n            })","            buf.push('\\n');\n            Ok(buf)"),
 (T,"        self.queue.push_back(Operation::Symlink(dir.clone(), entry));","        let dir = dir.clone();\n        self.queue.push_back(Operation::Line(self.pool.spawn_fn(move || {\n            let dest = dir.read_link(&entry).map_err(EFile)?;\n            Ok(format!(\"  {} s {}\\n\",\n                Name(Path::new(entry.file_name())), Name(&dest)))\n        })));"),
]),
("poll-first",[
 (T,"        self.queue.push_back(Operation::StartDir(path.to_path_buf()));\n        self.poll_queue()","        self.poll_queue()?;\n        self.queue.push_back(Operation::StartDir(path.to_path_buf()));\n        Ok(())"),
 (T,"        self.queue.push_back(Operation::Symlink(dir.clone(), entry));\n        self.poll_queue()","        self.poll_queue()?;\n        self.queue.push_back(Operation::Symlink(dir.clone(), entry));\n        Ok(())"),
 (T,"        let mut hash = self.hash.clone();\n        self.queue","        let mut hash = self.hash.clone();\n        self.poll_queue()?;\n        self.queue"),
 (T,"                hashes: buf,\n            })\n        })));\n        self.poll_queue()","                hashes: buf,\n            })\n        })));\n        Ok(())"),
]),
("open-early",[
 (T,"        self.queue.push_back(Operation::File(self.pool.spawn_fn(move || {\n            let mut f = dir.open_file(&entry).map_err(EFile)?;\n            let meta = f.metadata().map_err(EFile)?;","        let mut f = dir.open_file(&entry).map_err(EFile)?;\n        let meta = f.metadata().map_err(EFile)?;\n        self.queue.push_back(Operation::File(self.pool.spawn_fn(move || {"),
 (T,"            Ok(FileEntry {\n","            drop(f);\n            Ok(FileEntry {\n"),
 (T,"        let dir = dir.clone();\n        let block_size","        let block_size"),
]),
("block-buffer",[
 (H,"        io::copy(&mut f.take(block_size), self)?;\n        Ok(self.total_hash())","        self.hash_and_size(f, block_size).map(|(_, h)| h)"),
 (H,"        let bytes = io::copy(&mut f.take(block_size), self)?;\n        Ok((bytes, self.total_hash()))","        let mut buf = Vec::new();\n        let mut part = f.take(block_size);\n        let mut bytes = 0;\n        loop {\n            buf.clear();\n            let n = part.by_ref().take(65536).read_to_end(&mut buf)?;\n            if n == 0 { break; }\n            Hash::update(self, &buf);\n            bytes += n as u64;\n        }\n        Ok((bytes, self.total_hash()))"),
 (H,"use std::io;\n","use std::io::{self, Read};\n"),
 (P,"        let mut buf = Vec::new();\n        let mut size = 0;\n        loop {\n            let (bs, hash) = h.hash_and_size(&mut f, block_size)?;\n            if bs == 0 {\n                // there are no empty blocks\n                break;\n            }\n            buf.extend(hash.result());\n            size += bs;\n            if bs < block_size {\n                break;\n            }\n        }\n        Ok(","        let mut buf = Vec::new();\n        let mut size = 0;\n        let mut last = block_size;\n        while last == block_size {\n            let (bs, hash) = h.hash_and_size(&mut f, block_size)?;\n            if bs > 0 {\n                buf.extend_from_slice(hash.result());\n            }\n            size += bs;\n            last = bs;\n        }\n        Ok("),
 (W,"        while n > 0 {\n            let h","        loop {\n            if n == 0 {\n                break;\n            }\n            let h"),
]),
("helpers",[
 (W,"        writeln!(&mut f,\n            \"{}.{} {} block_size={}\",\n            MAGIC,\n            VERSION,\n            hash.name(),\n            block_size,\n        ).map_err(EWrite)?;","        write_header(&mut f, hash.name(), block_size)?;"),
 (W,"impl<F: io::Write, H: Hash> SyncWriter<F, H> {","pub(crate) fn write_header<F: io::Write>(f: &mut F, name: &str, block_size: u64)\n    -> Result<(), Error>\n{\n    let line = format!(\"{}.{} {} block_size={}\\n\", MAGIC, VERSION, name, block_size);\n    f.write_all(line.as_bytes()).map_err(EWrite)\n}\n\npub(crate) fn link_line(dir: &Dir, entry: &Entry) -> Result<String, Error> {\n    let name = entry.file_name().to_os_string();\n    let dest = dir.read_link(&name[..]).map_err(EFile)?;\n    Ok(format!(\"  {} s {}\\n\", Name(Path::new(&name)), Name(&dest)))\n}\n\nimpl<F: io::Write, H: Hash> SyncWriter<F, H> {"),
 (W,"        let dest = dir.read_link(&entry).map_err(EFile)?;\n        write!(&mut self.file, \"  {} s {}\\n\",\n            Name(&Path::new(entry.file_name())),\n            Name(&dest),\n        ).map_err(EWrite)?;\n        Ok(())","        let line = link_line(dir, &entry)?;\n        self.file.write_all(line.as_bytes()).map_err(EWrite)"),
 (T,"        writeln!(&mut f,\n            \"{}.{} {} block_size={}\",\n            MAGIC,\n            VERSION,\n            hash.name(),\n            block_size,\n        ).map_err(EWrite)?;","        crate::v1::writer::write_header(&mut f, hash.name(), block_size)?;"),
 (T,"NAME, EXE_MASK".replace("NAME","Name")+", MAGIC, VERSION}","Name, EXE_MASK}"),
 (T,_sym,"                let line = crate::v1::writer::link_line(&dir, &entry)?;\n                self.file.write_all(line.as_bytes()).map_err(EWrite)?;\n"),
 (R,"    let mut hash = Vec::with_capacity(hash.output_bytes());\n    for d in buf[1..nbytes-1].chunks(2) {\n        hash.push(\n            (hex_to_digit(d[0]).ok_or(einval)? << 4)\n            | hex_to_digit(d[1]).ok_or(einval)?);\n    }\n\n    return Ok(hash);","    buf[1..nbytes-1].chunks(2)\n        .map(|d| Some(hex_to_digit(d[0])? * 16 + hex_to_digit(d[1])?))\n        .collect::<Option<Vec<u8>>>()\n        .ok_or_else(|| einval.into())"),
 (M,"        for (base_path, sig_path) in self.paths {\n            let reader = BufReader::new(File::open(&sig_path)\n                .map_err(|e| MergeError::Io(\n                    format!(\"cannot open signature file {:?}\", &sig_path),\n                    e))?);\n            let parser = Parser::new(reader)?;\n            parsers.push((base_path, parser));\n        }\n        MergedSignatures::new(parsers)","        for (base_path, sig_path) in self.paths {\n            let file = match File::open(&sig_path) {\n                Ok(file) => file,\n                Err(e) => return Err(MergeError::Io(\n                    format!(\"cannot open {:?}\", &sig_path), e)),\n            };\n            parsers.push((base_path, Parser::new(BufReader::with_capacity(100, file))?));\n        }\n        MergedSignatures::new(parsers)"),
 (G,"        self.symlinks += 1;\n        self.dest.add_symlink(dir, entry)?;\n        self.check_print();\n        Ok(())","        self.dest.add_symlink(dir, entry).map(|()| {\n            self.symlinks += 1;\n            self.check_print()\n        })"),
]),
]
