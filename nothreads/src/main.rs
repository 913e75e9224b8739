//! Scans with the library built without thread support: reads lines
//! "<hash> <threads> <queue or -> <progress 0/1> <root> <output file>" from stdin.
use dir_signature::{v1, HashType, ScannerConfig};
use std::io::BufRead;

fn main() {
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let f: Vec<&str> = l.split(' ').collect();
        let mut c = ScannerConfig::new();
        c.hash(match f[0] {
            "sha512/256" => HashType::sha512_256(),
            "blake2b/256" => HashType::blake2b_256(),
            _ => HashType::blake3_256(),
        });
        if f[1] == "auto" {
            c.auto_threads();
        } else {
            c.threads(f[1].parse().unwrap());
        }
        if f[2] != "-" {
            c.queue_size(f[2].parse().unwrap());
        }
        if f[3] == "1" {
            c.print_progress();
        }
        c.add_dir(f[4], "/");
        let mut out = Vec::new();
        match v1::scan(&c, &mut out) {
            Ok(()) => {
                std::fs::write(f[5], &out).unwrap();
                println!("ok");
            }
            Err(e) => println!("error {}", e),
        }
    }
}
