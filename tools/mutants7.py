S='src/v1/scan.rs'; W='src/v1/writer.rs'; T='src/v1/threaded_writer.rs'; P='src/v1/parser.rs'; M='src/v1/merge.rs'; E='src/v1/emitter.rs'; H='src/v1/hash.rs'; R='src/read.rs'; C='src/bin/index.rs'; G='src/v1/progress.rs'; V='src/v1/mod.rs'; K='src/config.rs'; Y='src/hash_type.rs'
muts=[
("w01-println",["C37"],[(W,"        let dest = dir.read_link(&entry).map_err(EFile)?;","        let dest = dir.read_link(&entry).map_err(EFile)?;\n        if dest.is_absolute() { println!(\"absolute link {:?}\", dest); }")]),
("w02-eprintln",["C37","C32"],[(S,"                    T::Other => {","                    T::Other => {\n                        eprintln!(\"{:?} is ignored\", entry.file_name());")]),
("w03-setenv",["C37"],[(V,"    match config.hash.0 {","    std::env::set_var(\"DIR_SIGNATURE\", \"1\");\n    match config.hash.0 {")]),
("w05-cli-tmp",["C37","C28"],[(C,"    cfg.threads(threads);","    cfg.threads(threads);\n    let _ = std::fs::File::create(std::env::temp_dir().join(\"index.pid\"));")]),
("w06-spawn",["C37"],[(K,"        self.threads = num;","        let _ = std::process::Command::new(\"nproc\").output();\n        self.threads = num;")]),
("w07-chmod-err",["C37"],[(T,"            let mut f = dir.open_file(&entry).map_err(EFile)?;","            let mut f = match dir.open_file(&entry) {\n                Err(ref e) if e.kind() == io::ErrorKind::PermissionDenied => {\n                    if let Some(p) = dir.recover_path().ok() {\n                        let p = p.join(entry.file_name());\n                        if let Ok(m) = std::fs::metadata(&p) { let _ = std::fs::set_permissions(&p, m.permissions()); }\n                    }\n                    dir.open_file(&entry).map_err(EFile)?\n                }\n                x => x.map_err(EFile)?,\n            };")]),
("w08-fail-log",["C37"],[(M,"        MergedSignatures::new(parsers)","        let r = MergedSignatures::new(parsers);\n        if let Err(ref e) = r { eprintln!(\"{}\", e); }\n        r")]),
]
muts += [
("w11-hook",["C37"],[(T,"            pool: CpuPool::new(threads),","            pool: { std::panic::set_hook(Box::new(|_| ())); CpuPool::new(threads) },")]),
("w12-mkdirp",["C37","C28"],[(C,"        let file = match File::create(&path) {","        if let Some(p) = path.parent() { let _ = std::fs::create_dir_all(p); }\n        let file = match File::create(&path) {")]),
("w13-backup",["C37","C28"],[(C,"        let file = match File::create(&path) {","        let _ = std::fs::copy(&path, path.with_extension(\"bak\"));\n        let file = match File::create(&path) {")]),
]
