//! Runs scripts against the library and records what it did.
//!
//! A script is a list of events without results (see spec/TediumApi.tla); running it
//! adds the observed results. Events with e = "x" only direct the harness.

use crate::enc::{Ahead, Encoder};
use crate::json::{J, bytes, obj};
use crate::rng::Rng;
use crate::stream::{Fault, Op, SimStream, Store};
use crate::trace::{Tracer, ev, with_panic};
use crate::types::{self, Sample};
use crate::with_type;
use std::cell::RefCell;
use std::fs::File;
use std::io::{ErrorKind, Read, Seek, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::rc::Rc;
use chrono::{DateTime, Utc};
use tedium::{ChannelPath, DataLayout, PropertyPath, PropertyValue, TdmsError, TdmsFile};

pub trait Backend: Clone {
    type F: Read + Write + Seek;
    fn set(&self, data: Vec<u8>);
    fn open(&self) -> Result<TdmsFile<Self::F>, TdmsError>;
    fn create(&self) -> Result<TdmsFile<Self::F>, TdmsError>;
    fn bytes(&self) -> Vec<u8>;
    fn size(&self) -> u64;
    fn store(&self) -> Option<&Rc<RefCell<Store>>>;
}
#[derive(Clone)]
pub struct Mem {
    pub s: Rc<RefCell<Store>>,
    pub start: u64,
}
impl Backend for Mem {
    type F = SimStream;
    fn set(&self, data: Vec<u8>) {
        let mut s = self.s.borrow_mut();
        s.data = data;
        s.virt.clear();
    }
    fn open(&self) -> Result<TdmsFile<SimStream>, TdmsError> {
        let s = SimStream { store: self.s.clone(), pos: self.start };
        TdmsFile::new(s)
    }
    fn create(&self) -> Result<TdmsFile<SimStream>, TdmsError> {
        panic!("script: create needs a real file")
    }
    fn bytes(&self) -> Vec<u8> {
        self.s.borrow().data.clone()
    }
    fn size(&self) -> u64 {
        self.s.borrow().len()
    }
    fn store(&self) -> Option<&Rc<RefCell<Store>>> {
        Some(&self.s)
    }
}
#[derive(Clone)]
pub struct Disk {
    pub path: PathBuf,
}
impl Backend for Disk {
    type F = File;
    fn set(&self, data: Vec<u8>) {
        std::fs::write(&self.path, data).expect("scratch file");
    }
    fn open(&self) -> Result<TdmsFile<File>, TdmsError> {
        TdmsFile::load(&self.path)
    }
    fn create(&self) -> Result<TdmsFile<File>, TdmsError> {
        TdmsFile::create(&self.path)
    }
    fn bytes(&self) -> Vec<u8> {
        // what the library did not create holds nothing
        std::fs::read(&self.path).unwrap_or_default()
    }
    fn size(&self) -> u64 {
        std::fs::metadata(&self.path).map_or(0, |m| m.len())
    }
    fn store(&self) -> Option<&Rc<RefCell<Store>>> {
        None
    }
}

pub fn error_name(e: &TdmsError) -> String {
    let s = format!("{e:?}");
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
fn outcome<T>(r: &Result<T, TdmsError>) -> String {
    match r {
        Ok(_) => "ok".to_string(),
        Err(e) => error_name(e),
    }
}
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}
fn text(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).expect("script: utf8")
}
/// The names of a path when there are no quotes in them.
fn plain_names(p: &str) -> Option<Vec<&str>> {
    if p == "/" {
        return Some(vec![]);
    }
    let body = p.strip_prefix("/'")?.strip_suffix('\'')?;
    let names: Vec<&str> = body.split("'/'").collect();
    (names.len() <= 2 && names.iter().all(|n| !n.contains('\''))).then_some(names)
}
/// The objects with an index in a segment.
fn paths_in(seg: &J) -> Vec<Vec<u8>> {
    let objs = seg.at("objs").arr().iter();
    objs.filter(|o| o.at("ix").arr()[0].str() == "raw").map(|o| o.at("p").bytes()).collect()
}
fn chan_path(p: &[u8], build: bool) -> Result<ChannelPath, TdmsError> {
    let s = text(p);
    match plain_names(&s) {
        Some(n) if build && n.len() == 2 => Ok(ChannelPath::new(n[0], n[1])),
        _ => ChannelPath::try_from(s.as_str()),
    }
}
fn prop_path(p: &[u8], build: bool) -> Result<PropertyPath, TdmsError> {
    let s = text(p);
    match plain_names(&s) {
        Some(n) if build => Ok(match n[..] {
            [] => PropertyPath::file(),
            [g] => PropertyPath::group(g),
            [g, c] => PropertyPath::channel(g, c),
            _ => unreachable!(),
        }),
        _ => PropertyPath::try_from(s.as_str()),
    }
}
fn paths_of(j: &J, build: bool) -> Result<Vec<ChannelPath>, TdmsError> {
    j.arr().iter().map(|p| chan_path(&p.bytes(), build)).collect()
}
fn sentinel<T: Sample>(fill: u8) -> T {
    T::dec(&vec![fill; types::size(T::NAME)])
}
/// One read call into fresh buffers.
fn read_once<F: Read + Seek, T: Sample>(
    file: &mut TdmsFile<F>,
    paths: &[ChannelPath],
    from: u64,
    lens: &[usize],
    api: usize,
    fill: u8,
) -> Result<Vec<Vec<T>>, TdmsError> {
    let mut bufs: Vec<Vec<T>> = lens.iter().map(|n| vec![sentinel::<T>(fill); *n]).collect();
    if paths.len() == 1 && api % 4 < 3 {
        match (from, api % 2) {
            (0, 0) => file.read_channel(&paths[0], &mut bufs[0])?,
            _ => file.read_channel_from(&paths[0], from, &mut bufs[0])?,
        }
    } else {
        let mut outs: Vec<&mut [T]> = bufs.iter_mut().map(|b| &mut b[..]).collect();
        match (from, api % 2) {
            (0, 0) => file.read_channels(paths, &mut outs)?,
            _ => file.read_channels_from(paths, from, &mut outs)?,
        }
    }
    Ok(bufs)
}
/// Two reads into differently filled buffers tell apart what the library stored.
fn merge<T: Sample>(a: &[T], b: &[T]) -> Vec<i64> {
    let (sa, sb) = (sentinel::<T>(0x55).enc(), sentinel::<T>(0xAA).enc());
    a.iter()
        .zip(b)
        .map(|(x, y)| {
            let (x, y) = (x.enc(), y.enc());
            if x == y {
                if x.len() != sa.len() {
                    return types::FOREIGN;
                }
                types::tok_of(T::NAME, &x)
            } else if x == sa && y == sb {
                types::UNTOUCHED
            } else {
                types::FOREIGN
            }
        })
        .collect()
}
fn single<T: Sample>(a: &[T]) -> Vec<i64> {
    let sa = sentinel::<T>(0x55).enc();
    a.iter()
        .map(|x| {
            let x = x.enc();
            if x == sa {
                types::UNTOUCHED
            } else if x.len() != sa.len() {
                types::FOREIGN
            } else {
                types::tok_of(T::NAME, &x)
            }
        })
        .collect()
}
fn value_json(v: &PropertyValue) -> J {
    let (t, b) = types::prop_bytes(v);
    J::Arr(vec![J::from(t), bytes(&b)])
}
fn ranges(log: &[(u64, u64)]) -> J {
    const MOST: u64 = i32::MAX as u64;
    J::Arr(
        log.iter()
            .map(|(p, n)| J::Arr(vec![J::Int((*p).min(MOST) as i64), J::Int((*n).min(MOST) as i64)]))
            .collect(),
    )
}

pub struct Interp<'t, B: Backend> {
    pub b: B,
    pub tr: &'t mut Tracer,
    pub file: Option<TdmsFile<B::F>>,
    pub mark: Vec<u8>,
    pub dead: bool,
    pub rd: bool,
    pub n: usize,
    /// Samples in front of those of a script (enc::Ahead), and the channels that have them.
    ahead: u64,
    first: u64,
    hidden: u64,
    shifted: Vec<Vec<u8>>,
}

impl<'t, B: Backend> Interp<'t, B> {
    pub fn new(b: B, tr: &'t mut Tracer, rd: bool, n: usize) -> Self {
        Interp { b, tr, file: None, mark: vec![], dead: false, rd, n, ahead: 0, first: 0, hidden: 0, shifted: vec![] }
    }
    fn build(&mut self) -> bool {
        self.n = self.n.wrapping_add(1);
        self.n % 2 == 0
    }
    fn start(&mut self, op: &J) {
        self.tr.begin(op);
        if let Some(s) = self.b.store() {
            let mut s = s.borrow_mut();
            s.wlog.clear();
            s.rlog.clear();
            s.fetched = 0;
            s.fired = false;
        }
    }
    fn extras(&self) -> Vec<(&'static str, J)> {
        let mut v = vec![];
        if let Some(s) = self.b.store() {
            let s = s.borrow();
            if !s.wlog.is_empty() {
                let w: Vec<(u64, u64)> =
                    s.wlog.iter().map(|r| (r.0.saturating_sub(self.hidden), r.1)).collect();
                v.push(("w", ranges(&w)));
            }
            if self.rd {
                v.push(("rd", ranges(&s.rlog)));
            }
            if s.fired {
                v.push(("f", J::Bool(true)));
            }
        }
        v
    }
    fn ahead_of(&self, p: &[u8]) -> u64 {
        if self.shifted.iter().any(|x| x == p) { self.ahead } else { 0 }
    }
    /// Run one library call; a panic ends the case.
    fn guarded<R>(&mut self, op: &J, f: impl FnOnce() -> R) -> Option<R> {
        self.start(op);
        match guard(f) {
            Ok(r) => Some(r),
            Err(msg) => {
                self.dead = true;
                self.tr.emit(op, vec![("panic", J::Str(msg))]);
                None
            }
        }
    }
    fn finish(&mut self, op: &J, fields: Vec<(&'static str, J)>) {
        let mut x = self.extras();
        x.extend(fields);
        self.tr.emit(op, x);
    }
    pub fn run(&mut self, ops: &[J]) {
        let mut i = 0;
        while i < ops.len() && !self.dead {
            let op = &ops[i];
            i += 1;
            match op.at("e").str() {
                "x" => self.direct(op),
                "new" => {
                    self.file = None;
                    self.b.set(vec![]);
                    self.open(op, vec![]);
                }
                "create" => {
                    self.file = None;
                    if let Some(junk) = op.get("o").and_then(|o| o.get("junk")) {
                        self.b.set(junk.bytes());
                    }
                    let b = self.b.clone();
                    if let Some(r) = self.guarded(op, || b.create()) {
                        let size = self.b.size() as i64;
                        let out = outcome(&r);
                        self.file = r.ok();
                        self.finish(op, vec![("r", out.into()), ("size", J::Int(size))]);
                    }
                }
                "open" => {
                    self.file = None;
                    self.open(op, vec![]);
                }
                "tryopen" => {
                    self.file = None;
                    let b = self.b.clone();
                    let fop = ev("fopen", vec![]);
                    if let Some(r) = self.guarded(&fop, || b.open()) {
                        self.finish(&fop, vec![("r", outcome(&r).into())]);
                    }
                }
                "foreign" => {
                    self.file = None;
                    // without bytes of its own: what the stream holds now
                    let b = match op.get("b") {
                        Some(b) => {
                            self.b.set(b.bytes());
                            vec![]
                        }
                        None => vec![("b", bytes(&self.b.bytes()))],
                    };
                    self.open(op, b);
                }
                "segs" => {
                    self.file = None;
                    let enc = Encoder::file_ahead(op.at("segs").arr(), Ahead::of(op));
                    self.ahead = Ahead::samples(op);
                    self.first = if let Ahead::Behind(_) = Ahead::of(op) { 0 } else { self.ahead };
                    self.shifted = paths_in(&op.at("segs").arr()[0]);
                    let len = enc.out.len() as i64 - if enc.virt.is_empty() { enc.hidden as i64 } else { 0 };
                    let as_bytes = op.get("o").is_some_and(|o| o.get("bytes").is_some());
                    let virt = !enc.virt.is_empty();
                    self.hidden = enc.hidden;
                    self.b.set(enc.out);
                    if virt {
                        self.b.store().expect("script: virtual file").borrow_mut().virt = enc.virt;
                    }
                    if as_bytes {
                        let mut f = vec![("e", J::from("foreign")), ("b", bytes(&self.b.bytes()))];
                        if let Some(c) = op.get("case") {
                            f.push(("case", c.clone()));
                        }
                        self.open(&obj(f), vec![]);
                    } else if virt {
                        self.open(op, vec![]);
                    } else {
                        self.open(op, vec![("len", J::Int(len))]);
                    }
                }
                "cut" => {
                    self.file = None;
                    let at = op.at("at").int() as usize;
                    if at > self.mark.len() {
                        while i < ops.len() && ops[i].at("e").str() != "cut" {
                            i += 1;
                        }
                        continue;
                    }
                    self.b.set(self.mark[..at].to_vec());
                    self.open(op, vec![]);
                }
                "mk" | "parse" | "conv" | "bits" | "fuzz" | "same" => self.alone(op),
                "bytes" | "still" => self.snapshot(op),
                _ if self.file.is_none() => {}
                "wopen" => i = self.writer(ops, i),
                "explore" => self.explore(op),
                _ => self.query(op),
            }
        }
    }
    fn open(&mut self, op: &J, fields: Vec<(&'static str, J)>) {
        let b = self.b.clone();
        if let Some(r) = self.guarded(op, || b.open()) {
            let mut f = fields;
            f.push(("r", outcome(&r).into()));
            self.file = r.ok();
            self.finish(op, f);
        }
    }
    fn snapshot(&mut self, op: &J) {
        let b = self.b.bytes();
        self.start(op);
        self.finish(op, vec![("b", bytes(&b))]);
        if op.get("mark").is_some() {
            self.mark = b;
        }
    }
    fn direct(&mut self, op: &J) {
        let Some(s) = self.b.store() else { return };
        let mut s = s.borrow_mut();
        match op.at("do").str() {
            "fault" => {
                s.fault = Some(Fault {
                    op: match op.at("op").str() {
                        "read" => Op::Read,
                        "seek" => Op::Seek,
                        _ => Op::Write,
                    },
                    after: op.at("after").int() as u64,
                    count: op.get("count").map_or(u64::MAX, |c| c.int() as u64),
                    kind: match op.get("kind").map_or("other", |k| k.str()) {
                        "broken" => ErrorKind::BrokenPipe,
                        "denied" => ErrorKind::PermissionDenied,
                        "timeout" => ErrorKind::TimedOut,
                        "block" => ErrorKind::WouldBlock,
                        _ => ErrorKind::Other,
                    },
                    zero: op.get("kind").is_some_and(|k| k.str() == "zero"),
                })
            }
            "heal" => {
                s.fault = None;
                s.capacity = None;
            }
            "cap" => s.capacity = Some(s.len() + op.at("n").int() as u64),
            "split" => s.split = Some(Rng(op.at("seed").int() as u64)),
            "whole" => s.split = None,
            d => panic!("script: do {d}"),
        }
    }

    /// Everything until the writer is dropped.
    fn writer(&mut self, ops: &[J], i: usize) -> usize {
        let Some(mut file) = self.file.take() else { return i };
        let i = self.writing(&mut file, ops, i);
        self.file = Some(file);
        i
    }
    fn writing(&mut self, file: &mut TdmsFile<B::F>, ops: &[J], mut i: usize) -> usize {
        let wop = &ops[i - 1];
        let Some(w) = self.guarded(wop, || file.writer()) else { return i };
        self.finish(wop, vec![("r", outcome(&w).into())]);
        let Ok(w) = w else {
            // nothing can be written: everything up to the drop falls away
            while i < ops.len() && ops[i - 1].at("e").str() != "wdrop" {
                if ops[i].at("e").str() == "x" {
                    self.direct(&ops[i]);
                }
                i += 1;
            }
            return i;
        };
        let mut w = Some(w);
        while i < ops.len() && !self.dead {
            let op = &ops[i];
            i += 1;
            match op.at("e").str() {
                "x" => self.direct(op),
                "bytes" => self.snapshot(op),
                "wdrop" => {
                    let w = w.take();
                    if self.guarded(op, || drop(w)).is_some() {
                        self.finish(op, vec![]);
                    }
                    break;
                }
                "write" => {
                    let build = self.build();
                    let lay = match op.at("lay").str() {
                        "I" => DataLayout::Interleaved,
                        _ => DataLayout::Contigious,
                    };
                    let base = op.at("base").int();
                    let n = op.at("n").int();
                    let w = w.as_mut().expect("writer");
                    let ty = op.at("ty").str();
                    let r = if ty == "Str" {
                        let v: Vec<String> = (0..n).map(|k| (base + k).to_string()).collect();
                        self.guarded(op, || {
                            w.write_channels(&paths_of(op.at("chs"), build)?, &v, lay)
                        })
                    } else {
                        with_type!(ty, T => {
                            let v: Vec<T> = (0..n)
                                .map(|k| T::dec(&types::tok_le(ty, base + k)))
                                .collect();
                            self.guarded(op, || {
                                let p = paths_of(op.at("chs"), build)?;
                                if build {
                                    w.write_channels(&p, &v, lay)
                                } else {
                                    let p: Vec<&ChannelPath> = p.iter().collect();
                                    w.write_channels(&p, &v, lay)
                                }
                            })
                        })
                    };
                    if let Some(r) = r {
                        self.finish(op, vec![("r", outcome(&r).into())]);
                    }
                }
                "props" => {
                    let build = self.build();
                    let kv: Vec<(String, PropertyValue)> = op
                        .at("kv")
                        .arr()
                        .iter()
                        .map(|p| {
                            let v = p.arr()[1].arr();
                            (
                                text(&p.arr()[0].bytes()),
                                types::prop_value(v[0].str(), &v[1].bytes()),
                            )
                        })
                        .collect();
                    let w = w.as_mut().expect("writer");
                    let r = self.guarded(op, || {
                        let kv: Vec<(&str, PropertyValue)> =
                            kv.iter().map(|(k, v)| (k.as_str(), v.clone())).collect();
                        w.write_properties(&prop_path(&op.at("path").bytes(), build)?, &kv)
                    });
                    if let Some(r) = r {
                        self.finish(op, vec![("r", outcome(&r).into())]);
                    }
                }
                "sync" => {
                    let w = w.as_mut().expect("writer");
                    let r = self.guarded(op, || w.sync());
                    if let Some(r) = r {
                        self.finish(op, vec![("r", outcome(&r).into())]);
                    }
                }
                e => panic!("script: {e} while writing"),
            }
        }
        if let Some(w) = w {
            let _ = guard(|| drop(w));
        }
        i
    }

    fn query(&mut self, op: &J) {
        let build = self.build();
        let Some(mut file) = self.file.take() else { return };
        match op.at("e").str() {
            "len" => {
                let p = op.at("path").bytes();
                let ahead = self.ahead_of(&p);
                let r = self.guarded(op, || {
                    let n = chan_path(&p, build).map(|p| file.channel_length(&p));
                    n.map(|n| n.map(|n| n.wrapping_sub(ahead)))
                });
                if let Some(r) = r {
                    self.finish(op, vec![("r", len_json(r))]);
                }
            }
            "read" => {
                let op2 = op;
                let r = self.guarded(op, || paths_of(op2.at("chs"), build));
                match r {
                    Some(Ok(paths)) => self.read(op, &mut file, &paths),
                    Some(Err(e)) => self.finish(op, vec![("r", error_name(&e).into())]),
                    None => {}
                }
            }
            "groups" => {
                let r = self.guarded(op, || {
                    file.list_groups().map(|g| bytes(g.as_bytes())).collect::<Vec<J>>()
                });
                if let Some(r) = r {
                    self.finish(op, vec![("out", J::Arr(r))]);
                }
            }
            "chans" => {
                let mut g = b"/'".to_vec();
                g.extend(op.at("g").bytes());
                g.push(b'\'');
                let r = self.guarded(op, || {
                    prop_path(&g, build).map(|g| file.list_channels_in_group(&g).collect::<Vec<_>>())
                });
                match r {
                    Some(Ok(list)) => {
                        let out = list.iter().map(|p| bytes(p.path().as_bytes())).collect();
                        self.finish(op, vec![("out", J::Arr(out))]);
                        // the returned paths themselves are used for queries
                        let hint = op.get("o").and_then(|o| o.get("use")).map(|h| h.str().to_string());
                        if let Some(ty) = hint {
                            self.use_paths(&mut file, &list, &[&ty], 2000);
                        }
                    }
                    Some(Err(e)) => self.tr.emit(op, vec![("panic", J::Str(outcome::<()>(&Err(e))))]),
                    None => {}
                }
            }
            "prop" => {
                let p = op.at("path").bytes();
                let name = text(&op.at("name").bytes());
                let r = self.guarded(op, || {
                    let p = prop_path(&p, build)?;
                    file.read_property(&p, &name).map(|v| v.map(value_json))
                });
                if let Some(r) = r {
                    self.finish(op, vec![("r", prop_result(r))]);
                }
            }
            "allprops" => {
                let p = op.at("path").bytes();
                let r = self.guarded(op, || {
                    prop_path(&p, build).map(|p| {
                        file.read_all_properties(&p).map(|it| {
                            it.map(|(k, v)| J::Arr(vec![bytes(k.as_bytes()), value_json(v)]))
                                .collect::<Vec<J>>()
                        })
                    })
                });
                match r {
                    Some(Ok(Some(out))) => {
                        self.finish(op, vec![("r", "ok".into()), ("out", J::Arr(out))])
                    }
                    Some(Ok(None)) => {
                        self.finish(op, vec![("r", "missing".into()), ("out", J::Arr(vec![]))])
                    }
                    Some(Err(e)) => {
                        self.finish(op, vec![("r", error_name(&e).into()), ("out", J::Arr(vec![]))])
                    }
                    None => {}
                }
            }
            e => panic!("script: event {e}"),
        }
        self.file = Some(file);
    }

    fn read(&mut self, op: &J, file: &mut TdmsFile<B::F>, paths: &[ChannelPath]) {
        let far = op.get("o").and_then(|o| o.get("far"));
        let from = match far {
            Some(d) => u64::MAX - d.int() as u64,
            None => {
                let first = op.at("chs").arr().first().map_or(vec![], |p| p.bytes());
                op.at("from").int() as u64 + self.ahead_of(&first).min(self.first)
            }
        };
        let lens: Vec<usize> = op.at("lens").arr().iter().map(|n| n.int() as usize).collect();
        let api = self.n / 2;
        with_type!(op.at("ty").str(), T => {
            let Some(a) = self.guarded(op, || read_once::<_, T>(file, paths, from, &lens, api, 0x55))
            else { return };
            let mut x = self.extras();
            match a {
                Err(e) => x.push(("r", error_name(&e).into())),
                Ok(a) => {
                    let fired = self.b.store().is_some_and(|s| s.borrow().fired);
                    let toks: Vec<Vec<i64>> = if fired {
                        a.iter().map(|v| single(v)).collect()
                    } else {
                        // the second look is not disturbed
                        let fault = self.b.store().and_then(|s| s.borrow_mut().fault.take());
                        let Some(b) = self.guarded(op, || {
                            read_once::<_, T>(file, paths, from, &lens, api, 0xAA)
                        }) else { return };
                        if let Some(s) = self.b.store() {
                            s.borrow_mut().fault = fault;
                        }
                        match b {
                            Err(e) => {
                                x.push(("r", error_name(&e).into()));
                                self.tr.emit(op, x);
                                return;
                            }
                            Ok(b) => a.iter().zip(&b).map(|(a, b)| merge(a, b)).collect(),
                        }
                    };
                    let out: Vec<J> = toks
                        .iter()
                        .map(|t| {
                            let runs = types::runs(T::NAME, t);
                            J::Arr(runs.iter().map(|r| J::from(r.to_vec())).collect())
                        })
                        .collect();
                    x.push(("r", "ok".into()));
                    x.push(("out", J::Arr(out)));
                }
            }
            self.tr.emit(op, x);
        })
    }

    /// Query channel paths that the library itself returned.
    fn use_paths(&mut self, file: &mut TdmsFile<B::F>, list: &[ChannelPath], tys: &[&str], most: u64) {
        for p in list {
            if self.dead {
                return;
            }
            let path = bytes(p.path().as_bytes());
            let op = ev("len", vec![("path", path.clone())]);
            let Some(len) = self.guarded(&op, || file.channel_length(p)) else { return };
            let ahead = self.ahead_of(p.path().as_bytes());
            let len = len.map(|n| n.wrapping_sub(ahead));
            self.finish(&op, vec![("r", len_json(Ok(len)))]);
            let op = ev("allprops", vec![("path", path.clone())]);
            let pp: &PropertyPath = p.as_ref();
            let Some(r) = self.guarded(&op, || {
                file.read_all_properties(pp).map(|it| {
                    it.map(|(k, v)| J::Arr(vec![bytes(k.as_bytes()), value_json(v)]))
                        .collect::<Vec<J>>()
                })
            }) else {
                return;
            };
            let found = if r.is_some() { "ok" } else { "missing" };
            self.finish(&op, vec![("r", found.into()), ("out", J::Arr(r.unwrap_or_default()))]);
            let n = len.unwrap_or(0).min(most) as i64;
            for ty in tys {
                let op = ev(
                    "read",
                    vec![
                        ("chs", J::Arr(vec![path.clone()])),
                        ("ty", (*ty).into()),
                        ("from", J::Int(0)),
                        ("lens", J::Arr(vec![J::Int(n + 1)])),
                    ],
                );
                self.build();
                self.read(&op, file, std::slice::from_ref(p));
                if self.dead {
                    return;
                }
            }
        }
    }
    /// Visit everything the file lists.
    fn explore(&mut self, op: &J) {
        let most = op.get("o").and_then(|o| o.get("most")).map_or(2000, |m| m.int()) as u64;
        let Some(mut file) = self.file.take() else { return };
        let gop = ev("groups", vec![]);
        let Some(groups) = self.guarded(&gop, || {
            file.list_groups().map(|g| g.to_string()).collect::<Vec<_>>()
        }) else {
            return;
        };
        self.finish(
            &gop,
            vec![("out", J::Arr(groups.iter().map(|g| bytes(g.as_bytes())).collect()))],
        );
        let mut props = vec!["/".to_string()];
        for g in &groups {
            let cop = ev("chans", vec![("g", bytes(g.as_bytes()))]);
            let path = format!("/'{g}'");
            props.push(path.clone());
            let Some(r) = self.guarded(&cop, || {
                PropertyPath::try_from(path.as_str())
                    .map(|p| file.list_channels_in_group(&p).collect::<Vec<_>>())
            }) else {
                return;
            };
            match r {
                Ok(list) => {
                    let out = list.iter().map(|p| bytes(p.path().as_bytes())).collect();
                    self.finish(&cop, vec![("out", J::Arr(out))]);
                    let types = match op.get("o").and_then(|o| o.get("tys")) {
                        Some(t) => t.arr().iter().map(|t| t.str()).collect(),
                        None => types::WRITE_TYPES.to_vec(),
                    };
                    self.use_paths(&mut file, &list, &types, most);
                }
                Err(e) => self.finish(&cop, vec![("panic", error_name(&e).into())]),
            }
            if self.dead {
                return;
            }
        }
        self.file = Some(file);
        for p in props {
            self.query(&ev("allprops", vec![("path", bytes(p.as_bytes()))]));
        }
    }

    /// Events that do not involve the current file.
    fn alone(&mut self, op: &J) {
        match op.at("e").str() {
            "mk" => {
                let g = text(&op.at("g").bytes());
                let c = text(&op.at("c").bytes());
                let kind = op.at("kind").str();
                let r = self.guarded(op, || made_path(kind, &g, &c));
                if let Some((t, names, back)) = r {
                    let names = names.iter().map(|n| bytes(n.as_bytes())).collect();
                    self.finish(
                        op,
                        vec![
                            ("text", bytes(t.as_bytes())),
                            ("names", J::Arr(names)),
                            ("back", J::Bool(back)),
                        ],
                    );
                }
            }
            "parse" => {
                let s = text(&op.at("s").bytes());
                if let Some(f) = self.guarded(op, || parsed_path(&s)) {
                    self.finish(op, f);
                }
            }
            "conv" => {
                let v = op.at("v").arr();
                let (own, b) = (v[0].str(), v[1].bytes());
                let want = op.at("want").str();
                let r = self.guarded(op, || match own {
                    "Chrono" => from_date(&b),
                    _ => converted(&types::prop_value(own, &b), want),
                });
                if let Some((r, got)) = r {
                    self.finish(op, vec![("r", r.into()), ("got", bytes(&got))]);
                }
            }
            "bits" => {
                let ty = op.at("ty").str();
                let vals: Vec<Vec<u8>> = op.at("vals").arr().iter().map(|v| v.bytes()).collect();
                let be = op.at("be").bool();
                let r = self.guarded(op, || {
                    with_type!(types::native(ty), T => stored_bits::<T>(ty, &vals, be))
                });
                if let Some(r) = r {
                    let list = |v: &[Vec<u8>]| J::Arr(v.iter().map(|b| bytes(b)).collect());
                    let (r, file, val) = match r {
                        Ok((f, v)) => ("ok".to_string(), f, v),
                        Err(e) => (error_name(&e), vec![], vec![]),
                    };
                    self.finish(op, vec![("r", r.into()), ("file", list(&file)), ("val", list(&val))]);
                }
            }
            "fuzz" => {
                let b = op.at("b").bytes();
                let before = peak_kb();
                self.start(op);
                let tr = &mut *self.tr;
                let r = guard(|| crate::fuzz::everything(&b, || tr.alive()));
                let kb = peak_kb() - before;
                let len = b.len() as i64;
                let base = vec![("len", J::Int(len)), ("kb", J::Int(kb))];
                match r {
                    Ok(r) => {
                        let mut f = base;
                        f.push(("r", r.into()));
                        f.push(("b", J::Arr(vec![])));
                        self.finish(op, f);
                    }
                    Err(msg) => {
                        let mut f = base;
                        f.push(("r", "panic".into()));
                        f.push(("panic", msg.into()));
                        self.finish(op, f);
                    }
                }
            }
            "same" => {
                let script = op.at("script").arr();
                let seed = op.at("seed").int() as u64;
                self.start(op);
                let run = |split: Option<Rng>, n: usize| {
                    let mut t = Tracer::memory();
                    let mem = new_mem(0);
                    mem.s.borrow_mut().split = split;
                    let mut it = Interp::new(mem.clone(), &mut t, false, n);
                    it.run(script);
                    let lines: Vec<J> = t.lines.iter().map(|l| without_io(&J::parse(l))).collect();
                    (lines, mem.bytes())
                };
                let a = run(None, self.n);
                let b = run(Some(Rng(seed)), self.n);
                let same = a == b;
                let script = J::Arr(if same { vec![] } else { script.to_vec() });
                self.finish(op, vec![("same", same.into()), ("script", script)]);
            }
            _ => unreachable!(),
        }
    }
}
fn without_io(j: &J) -> J {
    match j {
        J::Obj(f) => J::Obj(
            f.iter().filter(|(k, _)| k != "w" && k != "rd").cloned().collect(),
        ),
        x => x.clone(),
    }
}
pub fn new_mem(start: u64) -> Mem {
    Mem { s: Rc::new(RefCell::new(Store::default())), start }
}
fn len_json(r: Result<Option<u64>, TdmsError>) -> J {
    match r {
        Ok(Some(n)) if n <= i32::MAX as u64 => J::Int(n as i64),
        Ok(Some(_)) => J::Int(i32::MAX as i64),
        Ok(None) => J::Int(-1),
        Err(_) => J::Int(-2),
    }
}
fn prop_result(r: Result<Option<J>, TdmsError>) -> J {
    match r {
        Ok(Some(v)) => J::Arr(vec!["val".into(), v]),
        Ok(None) => J::Arr(vec!["none".into()]),
        Err(TdmsError::MissingObject(_)) => J::Arr(vec!["missing".into()]),
        Err(e) => J::Arr(vec![error_name(&e).into()]),
    }
}
fn peak_kb() -> i64 {
    std::fs::read_to_string("/proc/self/status")
        .ok()
        .and_then(|s| {
            s.lines()
                .find(|l| l.starts_with("VmHWM"))
                .and_then(|l| l.split_whitespace().nth(1).and_then(|n| n.parse().ok()))
        })
        .unwrap_or(0)
}
/// (text, names, and whether text and object survive the way back)
fn made_path(kind: &str, g: &str, c: &str) -> (String, Vec<String>, bool) {
    let p = match kind {
        "file" => PropertyPath::file(),
        "group" => PropertyPath::group(g),
        _ => PropertyPath::channel(g, c),
    };
    let t = p.path().to_string();
    let names: Vec<String> =
        [p.group_name(), p.channel_name()].iter().flatten().map(|s| s.to_string()).collect();
    let mut back = PropertyPath::try_from(t.as_str()).is_ok_and(|q| q == p);
    back &= format!("{p}") == t;
    let as_channel = ChannelPath::try_from(t.as_str());
    let from_prop = ChannelPath::try_from(p.clone());
    if kind == "chan" {
        let q = ChannelPath::new(g, c);
        back &= q.path() == t && format!("{q}") == t;
        back &= as_channel.is_ok_and(|x| x == q) && from_prop.is_ok_and(|x| x == q);
        back &= names == [q.group_name(), q.channel_name()];
        let pp: &PropertyPath = q.as_ref();
        back &= *pp == p;
    } else {
        back &= as_channel.is_err() && from_prop.is_err();
    }
    (t, names, back)
}
fn parsed_path(s: &str) -> Vec<(&'static str, J)> {
    let p = PropertyPath::try_from(s);
    let c = ChannelPath::try_from(s);
    let list = |v: Vec<Option<&str>>| {
        J::Arr(v.into_iter().flatten().map(|n| bytes(n.as_bytes())).collect())
    };
    let none = || J::Arr(vec![]);
    vec![
        ("prop", outcome(&p).into()),
        ("text", p.as_ref().map_or(none(), |p| bytes(p.path().as_bytes()))),
        ("names", p.as_ref().map_or(none(), |p| list(vec![p.group_name(), p.channel_name()]))),
        ("chan", outcome(&c).into()),
        ("ctext", c.as_ref().map_or(none(), |c| bytes(c.path().as_bytes()))),
        (
            "cnames",
            c.as_ref().map_or(none(), |c| list(vec![Some(c.group_name()), Some(c.channel_name())])),
        ),
    ]
}
/// Convert by value and by reference; both must agree.
fn converted(v: &PropertyValue, want: &str) -> (String, Vec<u8>) {
    macro_rules! both {
        ($T:ty) => {{
            let a = <$T>::try_from(v.clone()).map(|x| x.enc());
            let b = <$T>::try_from(v).map(|x| x.enc());
            match (a, b) {
                (Ok(a), Ok(b)) if a == b => {
                    let again = PropertyValue::from(<$T>::dec(&a));
                    let r = if types::prop_bytes(&again) == types::prop_bytes(v) { "ok" } else { "built differently" };
                    (r.to_string(), a)
                }
                (Err(a), Err(b)) if error_name(&a) == error_name(&b) => (error_name(&a), vec![]),
                _ => ("by value and by reference differ".to_string(), vec![]),
            }
        }};
    }
    match want {
        "I8" => both!(i8),
        "I16" => both!(i16),
        "I32" => both!(i32),
        "I64" => both!(i64),
        "U8" => both!(u8),
        "U16" => both!(u16),
        "U32" => both!(u32),
        "U64" => both!(u64),
        "F32" => both!(f32),
        "F64" => both!(f64),
        "Bool" => both!(bool),
        "Time" => both!(labview_interop::types::LVTime),
        "C64" => both!(tedium::types::Complex<f32>),
        "C128" => both!(tedium::types::Complex<f64>),
        "Str" => {
            let a = String::try_from(v.clone());
            let b = <&str>::try_from(v).map(|s| s.to_string());
            match (a, b) {
                (Ok(a), Ok(b)) if a == b => {
                    let same = PropertyValue::from(a.as_str()) == *v && PropertyValue::from(b) == *v;
                    (if same { "ok" } else { "built differently" }.to_string(), a.into_bytes())
                }
                (Err(a), Err(b)) if error_name(&a) == error_name(&b) => (error_name(&a), vec![]),
                _ => ("by value and by reference differ".to_string(), vec![]),
            }
        }
        "Chrono" => {
            let enc = |d: DateTime<Utc>| {
                let mut b = d.timestamp().to_le_bytes().to_vec();
                b.extend(d.timestamp_subsec_nanos().to_le_bytes());
                b
            };
            let a = DateTime::<Utc>::try_from(v.clone()).map(enc);
            let b = DateTime::<Utc>::try_from(v).map(enc);
            match (a, b) {
                (Ok(a), Ok(b)) if a == b => ("ok".to_string(), a),
                (Err(a), Err(b)) if error_name(&a) == error_name(&b) => (error_name(&a), vec![]),
                _ => ("by value and by reference differ".to_string(), vec![]),
            }
        }
        _ => panic!("script: conversion to {want}"),
    }
}
/// A property made from a date: seconds since 1970 and nanoseconds in, the type and bytes out.
fn from_date(b: &[u8]) -> (String, Vec<u8>) {
    let secs = i64::from_le_bytes(b[..8].try_into().unwrap());
    let nanos = u32::from_le_bytes(b[8..].try_into().unwrap());
    let d = DateTime::<Utc>::from_timestamp(secs, nanos).expect("script: date");
    let (t, b) = types::prop_bytes(&PropertyValue::from(d));
    (if t == "Time" { "ok".to_string() } else { t.to_string() }, b)
}
type Stored = (Vec<Vec<u8>>, Vec<Vec<u8>>);
/// Little endian: written and read back by the library. Big endian: a file of another
/// producer. Returns the bytes in the file and the values read.
fn stored_bits<T: Sample>(ty: &str, vals: &[Vec<u8>], be: bool) -> Result<Stored, TdmsError> {
    let mem = new_mem(0);
    let w = types::size(ty);
    let ch = ChannelPath::new("g", "c");
    let mut file;
    if be || types::native(ty) != ty {
        let raw: Vec<u8> = vals
            .iter()
            .flat_map(|v| if be { types::swap(ty, v) } else { v.clone() })
            .collect();
        let seg = obj(vec![
            ("new", true.into()),
            ("inter", false.into()),
            ("be", be.into()),
            ("meta", true.into()),
            ("raw", true.into()),
            (
                "objs",
                J::Arr(vec![obj(vec![
                    ("p", bytes(b"/'g'/'c'")),
                    ("ix", J::Arr(vec!["raw".into(), ty.into(), vals.len().into()])),
                    ("props", J::Arr(vec![])),
                ])]),
            ),
            ("rawlen", raw.len().into()),
            ("src", J::Arr(vec!["bytes".into(), bytes(&raw), J::Int(0)])),
        ]);
        mem.set(Encoder::file(&[seg]).out);
        file = mem.open()?;
    } else {
        file = mem.open()?;
        let v: Vec<T> = vals.iter().map(|b| T::dec(b)).collect();
        let mut wr = file.writer()?;
        wr.write_channels(std::slice::from_ref(&ch), &v, DataLayout::Contigious)?;
        drop(wr);
        // what was written, as others will read it
        file = mem.open()?;
    }
    let all = mem.bytes();
    let n = (vals.len() * w).min(all.len());
    let stored = all[all.len() - n..].chunks(w).map(|c| c.to_vec()).collect();
    let mut out = vec![sentinel::<T>(0x55); vals.len()];
    file.read_channel(&ch, &mut out)?;
    Ok((stored, out.iter().map(|x| x.enc()).collect()))
}

/// Run all cases of a script.
pub fn run_script(ops: &[J], tr: &mut Tracer, scratch: &str, salt: usize) {
    let mut i = 0;
    let mut k = salt;
    while i < ops.len() {
        let mut j = i + 1;
        while j < ops.len() && ops[j].get("case").is_none() {
            j += 1;
        }
        run_case(&ops[i..j], tr, scratch, k);
        k += 7;
        i = j;
    }
}
pub fn run_case(ops: &[J], tr: &mut Tracer, scratch: &str, salt: usize) {
    let o = ops[0].get("o");
    let opt = |k: &str| o.and_then(|o| o.get(k));
    let rd = opt("rd").is_some();
    // a fault of the harness itself must not look like a fault of the library
    let r = guard(AssertUnwindSafe(|| {
        if opt("disk").is_some() {
            let d = Disk { path: PathBuf::from(format!("{scratch}/case.tdms")) };
            Interp::new(d, tr, rd, salt).run(ops);
        } else {
            let m = new_mem(opt("start").map_or(0, |s| s.int() as u64));
            if let Some(s) = opt("split") {
                m.s.borrow_mut().split = Some(Rng(s.int() as u64));
            }
            Interp::new(m, tr, rd, salt).run(ops);
        }
    }));
    if let Err(m) = r {
        tr.flush();
        eprintln!("harness error: {m} in case {}", ops[0].text().chars().take(300).collect::<String>());
        std::process::exit(2);
    }
    let _ = with_panic;
}
