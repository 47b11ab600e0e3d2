//! Encodes segment descriptions (spec/TdmsFormat.tla) as files. Independent of the library.

use crate::json::{J, obj};
use crate::stream::Virtual;
use crate::types;
use std::collections::HashMap;

fn u32b(n: u32, be: bool) -> [u8; 4] {
    if be { n.to_be_bytes() } else { n.to_le_bytes() }
}
fn u64b(n: u64, be: bool) -> [u8; 8] {
    if be { n.to_be_bytes() } else { n.to_le_bytes() }
}
fn enc_str(s: &[u8], be: bool, out: &mut Vec<u8>) {
    out.extend(u32b(s.len() as u32, be));
    out.extend(s);
}
pub fn enc_val(v: &J, be: bool, out: &mut Vec<u8>) {
    let t = v.arr()[0].str();
    let b = v.arr()[1].bytes();
    out.extend(u32b(types::info(t).0, be));
    if t == "Str" {
        enc_str(&b, be, out);
    } else if be {
        out.extend(types::swap(t, &b));
    } else {
        out.extend(b);
    }
}
fn enc_obj(o: &J, be: bool, out: &mut Vec<u8>) {
    enc_str(&o.at("p").bytes(), be, out);
    let ix = o.at("ix").arr();
    match ix[0].str() {
        "none" => out.extend([255; 4]),
        "prev" => out.extend([0; 4]),
        k => {
            out.extend(u32b(if k == "str" { 28 } else { 20 }, be));
            out.extend(u32b(types::info(ix[1].str()).0, be));
            out.extend(u32b(1, be));
            out.extend(u64b(ix[2].int() as u64, be));
            if k == "str" {
                out.extend(u64b(ix[3].int() as u64, be));
            }
        }
    }
    let props = o.at("props").arr();
    out.extend(u32b(props.len() as u32, be));
    for p in props {
        enc_str(&p.arr()[0].bytes(), be, out);
        enc_val(&p.arr()[1], be, out);
    }
}

/// Samples every channel of the first segment has in front of the ones described: so many
/// that counts and offsets exceed 32 bits. Reads and lengths are given relative to them.
pub enum Ahead {
    None,
    /// In every chunk of the first segment (one chunk), before the samples of that channel.
    Values(u64),
    /// After them instead.
    Behind(u64),
    /// Whole chunks.
    Chunks(u64),
    /// A segment of their own.
    Segment(u64),
    /// So many segments like the first one.
    Segments(u64),
}
impl Default for Ahead {
    fn default() -> Self {
        Ahead::None
    }
}
impl Ahead {
    pub fn of(op: &J) -> Ahead {
        let Some(a) = op.get("o").and_then(|o| o.get("ahead")) else { return Ahead::None };
        let shift = a.arr().get(2).map_or(0, |n| n.int());
        let n = (a.arr()[1].int() as u64) << shift;
        match a.arr()[0].str() {
            "values" => Ahead::Values(n),
            "behind" => Ahead::Behind(n),
            "chunks" => Ahead::Chunks(n),
            "segment" => Ahead::Segment(n),
            "segments" => Ahead::Segments(n),
            x => panic!("script: ahead {x}"),
        }
    }
    /// Samples ahead, for channels with n samples per chunk.
    pub fn samples(op: &J) -> u64 {
        match Ahead::of(op) {
            Ahead::None => 0,
            Ahead::Values(d) | Ahead::Behind(d) | Ahead::Segment(d) => d,
            Ahead::Chunks(c) => {
                let objs = op.at("segs").arr()[0].at("objs").arr();
                let n = objs.iter().find_map(|o| {
                    let ix = o.at("ix").arr();
                    (ix[0].str() == "raw").then(|| ix[2].int() as u64)
                });
                c * n.unwrap_or(0)
            }
            Ahead::Segments(c) => {
                let s = &op.at("segs").arr()[0];
                let ix = s.at("objs").arr().iter().map(|o| o.at("ix").arr());
                let raw: Vec<&[J]> = ix.filter(|ix| ix[0].str() == "raw").collect();
                let size = |ix: &&[J]| types::size(ix[1].str()) * ix[2].int() as usize;
                let chunk: usize = raw.iter().map(size).sum();
                c * (s.at("rawlen").int() as u64 / chunk as u64) * raw[0][2].int() as u64
            }
        }
    }
}
const FILLER: u8 = 238;

#[derive(Default)]
pub struct Encoder {
    formats: HashMap<Vec<u8>, (String, u64)>,
    active: Vec<Vec<u8>>,
    pub out: Vec<u8>,
    pub virt: Vec<Virtual>,
    /// Where the parts of each segment begin: (lead-in, metadata, raw data, end).
    pub marks: Vec<[u64; 4]>,
    ahead: Ahead,
    /// Bytes of the samples ahead.
    pub hidden: u64,
}
impl Encoder {
    pub fn file(segs: &[J]) -> Encoder {
        let mut e = Encoder::default();
        for s in segs {
            e.segment(s);
        }
        e
    }
    fn pos(&self) -> u64 {
        self.out.len() as u64 + self.virt.iter().map(|v| v.end - v.start).sum::<u64>()
    }
    /// Like file, with samples ahead of those described.
    pub fn file_ahead(segs: &[J], ahead: Ahead) -> Encoder {
        let mut e = Encoder::default();
        if let Ahead::Segment(d) = ahead {
            // the same list, nothing else
            let mut f = segs[0].clone();
            let objs = f.at("objs").arr().iter().map(|o| {
                let mut ix = o.at("ix").arr().to_vec();
                if ix[0].str() == "raw" {
                    ix[2] = J::Int(d as i64);
                }
                obj(vec![("p", o.at("p").clone()), ("ix", J::Arr(ix)), ("props", J::Arr(vec![]))])
            });
            let objs: Vec<J> = objs.collect();
            f.set("objs", J::Arr(objs));
            f.set("nch", J::Int(0));
            e.ahead = Ahead::Chunks(1);
            e.segment(&f);
            e.ahead = Ahead::None;
            e.marks.clear();
            e.hidden = e.pos();
        } else if let Ahead::Segments(n) = ahead {
            e.segment(&segs[0]);
            let mut f = segs[0].clone();
            f.set("objs", J::Arr(vec![]));
            f.set("meta", false.into());
            f.set("new", false.into());
            for _ in 1..n {
                e.segment(&f);
            }
            e.marks.clear();
            e.hidden = e.pos();
        } else {
            e.ahead = ahead;
        }
        for s in segs {
            e.segment(s);
            e.ahead = Ahead::None;
        }
        e
    }
    pub fn segment(&mut self, s: &J) {
        let be = s.at("be").bool();
        let flag = |k: &str| s.at(k).bool();
        let mut meta = vec![];
        if flag("new") {
            self.active.clear();
        }
        if flag("meta") {
            let objs = s.at("objs").arr();
            meta.extend(u32b(objs.len() as u32, be));
            for o in objs {
                match self.ahead {
                    Ahead::Values(d) | Ahead::Behind(d) if o.at("ix").arr()[0].str() == "raw" => {
                        let mut more = o.clone();
                        let mut ix = o.at("ix").arr().to_vec();
                        ix[2] = J::Int(ix[2].int() + d as i64);
                        more.set("ix", J::Arr(ix));
                        enc_obj(&more, be, &mut meta)
                    }
                    _ => enc_obj(o, be, &mut meta),
                }
                let p = o.at("p").bytes();
                let ix = o.at("ix").arr();
                match ix[0].str() {
                    "none" => continue,
                    "prev" => {}
                    _ => {
                        let f = (ix[1].str().to_string(), ix[2].int() as u64);
                        self.formats.insert(p.clone(), f);
                    }
                }
                if !self.active.contains(&p) {
                    self.active.push(p);
                }
            }
        }
        let rawlen = match s.get("nch") {
            // whole chunks, too many to count in bytes
            Some(n) => n.int() as u64 * self.chunk(),
            None => s.at("rawlen").int() as u64,
        };
        let rawlen = if flag("raw") { rawlen } else { 0 };
        let row: u64 = self
            .active
            .iter()
            .filter_map(|p| self.formats.get(p))
            .map(|f| types::size(&f.0) as u64)
            .sum();
        let extra = match self.ahead {
            Ahead::Values(d) | Ahead::Behind(d) => d * row,
            Ahead::Chunks(c) => c * self.chunk(),
            _ => 0,
        };
        let toc = (flag("meta") as u32) * 2
            + (flag("new") as u32) * 4
            + (flag("raw") as u32) * 8
            + (flag("inter") as u32) * 32
            + (be as u32) * 64;
        self.hidden += extra;
        let start = self.pos();
        self.out.extend(b"TDSm");
        self.out.extend(toc.to_le_bytes());
        self.out.extend(u32b(4713, be));
        let pad = s.get("pad").map_or(0, |n| n.int() as u64);
        self.out.extend(u64b(meta.len() as u64 + pad + extra + rawlen, be));
        self.out.extend(u64b(meta.len() as u64 + pad, be));
        let metapos = self.pos();
        self.out.extend(&meta);
        self.out.extend(vec![80; pad as usize]);
        let raw = self.pos();
        if flag("raw") {
            let src = s.at("src").arr();
            if src[0].str() == "bytes" {
                let b = src[1].bytes();
                let at = src[2].int() as usize;
                self.out.extend(&b[at..at + rawlen as usize]);
            } else {
                let base = src[1].int();
                let f = self.byte_fn(base, flag("inter"), be, rawlen);
                if let (Ahead::Behind(_), true) = (&self.ahead, flag("inter")) {
                    let g = move |p: u64| if p < rawlen { f(p) } else { FILLER };
                    self.virt.push(Virtual { start: raw, end: raw + extra + rawlen, byte: Box::new(g) });
                } else if let (Ahead::Values(d) | Ahead::Behind(d), false) = (&self.ahead, flag("inter")) {
                    // the values ahead of each channel's own
                    let sizes: Vec<(u64, u64)> = self
                        .active
                        .iter()
                        .filter_map(|p| self.formats.get(p))
                        .map(|(t, n)| (types::size(t) as u64, *n))
                        .collect();
                    // hidden before and after each channel's own
                    let (d, e) = if let Ahead::Values(_) = self.ahead { (*d, 0) } else { (0, *d) };
                    let g = move |p: u64| -> u8 {
                        let (mut from, mut at) = (0, 0);
                        for (w, n) in &sizes {
                            if p < from + d * w {
                                return FILLER;
                            }
                            from += d * w;
                            if p < from + n * w {
                                return f(at + p - from);
                            }
                            from += n * w;
                            at += n * w;
                            if p < from + e * w {
                                return FILLER;
                            }
                            from += e * w;
                        }
                        f(at + p - from)
                    };
                    self.virt.push(Virtual { start: raw, end: raw + extra + rawlen, byte: Box::new(g) });
                } else if extra > 0 {
                    let g = move |p: u64| if p < extra { FILLER } else { f(p - extra) };
                    self.virt.push(Virtual { start: raw, end: raw + extra + rawlen, byte: Box::new(g) });
                } else if s.get("nch").is_some() {
                    self.virt.push(Virtual { start: raw, end: raw + rawlen, byte: Box::new(f) });
                } else {
                    let body: Vec<u8> = (0..rawlen).map(&f).collect();
                    self.out.extend(body);
                }
            }
        }
        self.marks.push([start, metapos, raw, raw + extra + rawlen]);
    }
    fn chunk(&self) -> u64 {
        self.active
            .iter()
            .filter_map(|p| self.formats.get(p))
            .map(|(t, n)| types::size(t) as u64 * n)
            .sum()
    }
    /// The byte at a raw data position: sample i of the block carries token base + i.
    fn byte_fn(&self, base: i64, inter: bool, be: bool, rawlen: u64) -> impl Fn(u64) -> u8 + use<> {
        let fmts: Vec<(types::Image, u64)> = self
            .active
            .iter()
            .map(|p| match self.formats.get(p) {
                Some((t, n)) => (types::Image::of(t), *n),
                None => (types::Image::of("U8"), 0),
            })
            .collect();
        let chunk = self.chunk();
        let row: u64 = fmts.iter().map(|f| f.0.size).sum();
        let per_chunk: u64 = fmts.iter().map(|f| f.1).sum();
        let whole = if chunk == 0 { 0 } else { rawlen / chunk * chunk };
        move |p: u64| -> u8 {
            if p >= whole {
                return 170;
            }
            let (mut i, mut q);
            if inter {
                i = p / row * fmts.len() as u64;
                q = p % row;
                for f in &fmts {
                    let w = f.0.size;
                    if q < w {
                        return f.0.byte(base + i as i64, be, q);
                    }
                    q -= w;
                    i += 1;
                }
            } else {
                i = p / chunk * per_chunk;
                q = p % chunk;
                for f in &fmts {
                    let w = f.0.size;
                    if q < w * f.1 {
                        let k = base + (i + q / w) as i64;
                        return f.0.byte(k, be, q % w);
                    }
                    q -= w * f.1;
                    i += f.1;
                }
            }
            170
        }
    }
}
