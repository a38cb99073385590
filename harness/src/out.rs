//! NDJSON output in shards, and the crash log.
//!
//! Every record is one line. Records of one session stay in one shard, in order.
//! With FLUSH=1 every line is flushed at once and the operation about to be carried
//! out is noted first in `pending`, so that a crash of the code under test can be
//! pinned to an operation.
use std::fs::File;
use std::io::{BufWriter, Write};
use std::path::PathBuf;

pub struct Out {
    shards: Vec<BufWriter<File>>,
    cur: usize,
    pub lines: u64,
    per_shard: Vec<u64>,
    flush: bool,
    dir: PathBuf,
}

impl Out {
    pub fn new(dir: &str, shards: usize) -> Self {
        let dir = PathBuf::from(dir);
        std::fs::create_dir_all(&dir).expect("create out dir");
        let w = (0..shards)
            .map(|i| {
                let f = File::create(dir.join(format!("trace{}.ndjson", i))).expect("create shard");
                BufWriter::with_capacity(1 << 16, f)
            })
            .collect();
        Out {
            shards: w,
            cur: 0,
            lines: 0,
            per_shard: vec![0; shards],
            flush: std::env::var("FLUSH").is_ok(),
            dir,
        }
    }
    /// Next session goes to the emptiest shard.
    pub fn next_session(&mut self) {
        let mut best = 0;
        for i in 0..self.per_shard.len() {
            if self.per_shard[i] < self.per_shard[best] {
                best = i;
            }
        }
        self.cur = best;
    }
    /// For stateless records: spread lines over the shards.
    pub fn rotate(&mut self) {
        self.cur = (self.cur + 1) % self.shards.len();
    }
    pub fn line(&mut self, s: &str) {
        let w = &mut self.shards[self.cur];
        w.write_all(s.as_bytes()).unwrap();
        w.write_all(b"\n").unwrap();
        self.lines += 1;
        self.per_shard[self.cur] += 1;
        if self.flush {
            w.flush().unwrap();
        }
    }
    /// A stateless function record.
    pub fn fun(&mut self, f: &str, body: &str) {
        let s = format!("{{\"f\":\"{}\",{}}}", f, body);
        self.line(&s);
        self.rotate();
    }
    pub fn pending(&mut self, what: &dyn Fn() -> String) {
        if self.flush {
            for w in &mut self.shards {
                w.flush().unwrap();
            }
            std::fs::write(self.dir.join("pending"), what()).unwrap();
        }
    }
    pub fn finish(mut self) {
        for w in &mut self.shards {
            w.flush().unwrap();
        }
    }
}

/// JSON helpers
pub fn arr<T: std::fmt::Display>(v: impl IntoIterator<Item = T>) -> String {
    let mut s = String::from("[");
    let mut first = true;
    for x in v {
        if !first {
            s.push(',');
        }
        first = false;
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}
pub fn jstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
