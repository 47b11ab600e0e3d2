//! The trace: one JSON line per library call, plus the watchdog for calls that never return.

use crate::json::{J, obj};
use std::fs::File;
use std::io::{BufWriter, Seek, Write};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What is being called now: for the watchdog and for the report when the process dies.
struct Current {
    op: String,
    since: Option<Instant>,
}
pub struct Tracer {
    out: Option<Arc<Mutex<BufWriter<File>>>>,
    cur: Arc<Mutex<Current>>,
    side: Option<File>,
    pub lines: Vec<String>,
    pub events: u64,
    pub cases: u64,
}
pub const HANG: Duration = Duration::from_secs(40);

impl Tracer {
    pub fn to_file(path: &str) -> Tracer {
        let out = Arc::new(Mutex::new(BufWriter::with_capacity(
            1 << 20,
            File::create(path).expect("trace file"),
        )));
        let cur = Arc::new(Mutex::new(Current { op: String::new(), since: None }));
        let side = Some(File::create(format!("{path}.cur")).expect("side file"));
        let (o, c) = (out.clone(), cur.clone());
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let c = c.lock().unwrap();
                if c.since.is_some_and(|t| t.elapsed() > HANG) {
                    let mut o = o.lock().unwrap();
                    let _ = writeln!(o, "{}", with_panic(&c.op, "the call does not return"));
                    let _ = o.flush();
                    std::process::exit(0);
                }
            }
        });
        Tracer { out: Some(out), cur, side, lines: vec![], events: 0, cases: 0 }
    }
    /// Keep the lines in memory.
    pub fn memory() -> Tracer {
        let cur = Arc::new(Mutex::new(Current { op: String::new(), since: None }));
        Tracer { out: None, cur, side: None, lines: vec![], events: 0, cases: 0 }
    }
    pub fn begin(&mut self, op: &J) {
        if self.out.is_none() {
            return;
        }
        let text = strip(op).text();
        if let Some(side) = &mut self.side {
            let _ = side.rewind();
            let _ = side.write_all(text.as_bytes());
            let _ = side.write_all(b"\n");
        }
        let mut c = self.cur.lock().unwrap();
        c.op = text;
        c.since = Some(Instant::now());
    }
    /// A long run of calls that is not recorded one by one restarts the clock.
    pub fn alive(&mut self) {
        self.cur.lock().unwrap().since = Some(Instant::now());
    }
    pub fn end(&mut self) {
        self.cur.lock().unwrap().since = None;
    }
    pub fn emit(&mut self, op: &J, extra: Vec<(&str, J)>) {
        self.end();
        let J::Obj(mut fields) = strip(op) else {
            panic!("script: not an object")
        };
        if fields.iter().any(|(k, _)| k == "case") {
            self.cases += 1;
        }
        for (k, v) in extra {
            fields.retain(|(f, _)| f != k);
            fields.push((k.to_string(), v));
        }
        self.events += 1;
        let line = J::Obj(fields).text();
        match &self.out {
            Some(out) => {
                let mut out = out.lock().unwrap();
                out.write_all(line.as_bytes()).expect("trace");
                out.write_all(b"\n").expect("trace");
            }
            None => self.lines.push(line),
        }
    }
    pub fn flush(&mut self) {
        if let Some(out) = &self.out {
            out.lock().unwrap().flush().expect("trace");
        }
    }
}
/// Fields named "o" direct the harness and are not part of the event.
fn strip(op: &J) -> J {
    match op {
        J::Obj(f) => J::Obj(f.iter().filter(|(k, _)| k != "o").cloned().collect()),
        x => x.clone(),
    }
}
pub fn with_panic(op: &str, msg: &str) -> String {
    let mut f = match J::parse(op) {
        J::Obj(f) => f,
        _ => vec![],
    };
    f.push(("panic".into(), J::Str(msg.into())));
    J::Obj(f).text()
}
#[allow(dead_code)]
pub fn ev(e: &str, fields: Vec<(&str, J)>) -> J {
    let mut f = vec![("e", J::from(e))];
    f.extend(fields);
    obj(f)
}
