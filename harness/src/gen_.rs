//! Random scripts. What they lead to is for the specification to say; the little state
//! kept here only makes the calls interesting.

use crate::json::{J, bytes, obj};
use crate::rng::Rng;
use crate::trace::ev;
use crate::types::{self, DATA_TYPES, WRITE_TYPES};
use std::collections::BTreeMap;

pub const CONV: [&str; 16] = [
    "I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64", "F32", "F64", "Bool", "Time", "C64",
    "C128", "Str", "Chrono",
];
const PROP_TYPES: [&str; 17] = [
    "Void", "Str", "Bool", "I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64", "F32", "F64",
    "Ext", "Time", "C64", "C128",
];
type Path = Vec<u8>;

pub fn group_path(g: &str) -> Path {
    format!("/'{g}'").into_bytes()
}
pub fn chan_path(g: &str, c: &str) -> Path {
    format!("/'{g}'/'{c}'").into_bytes()
}
fn names(p: &[u8]) -> Vec<&[u8]> {
    // only for paths made here
    let s = p;
    if s == b"/" {
        return vec![];
    }
    let mut out = vec![];
    let mut i = 2;
    while i <= s.len() {
        let start = i;
        while !(s[i] == b'\'' && s.get(i + 1) != Some(&b'\'')) {
            i += if s[i] == b'\'' { 2 } else { 1 };
        }
        out.push(&s[start..i]);
        i += 3;
    }
    out
}

/// Shape of the histories to produce.
#[derive(Clone)]
pub struct Shape {
    pub types: Vec<&'static str>,
    pub same_type: usize,
    pub same_list: usize,
    pub props: usize,
    pub refused: usize,
    pub big: usize,
    pub names: Vec<&'static str>,
    pub groups: usize,
    pub channels: usize,
    pub reads: usize,
    pub snapshots: bool,
    pub value_bits: bool,
}
pub const PLAIN: [&str; 4] = ["g", "h", "a", "b"];
pub const ODD: [&str; 27] = [
    "", "g", "ga", "g a", "g/h", "/", "'' ", "a''b", "\"", "a\"b", "\u{e9}", "\u{65e5}\u{672c}", " ",
    "g'' ", "G", "TDSm", "\u{1f600}", "g\u{0}", "a.b", "-", "'/'", "g''/''a",
    "\u{feff}g", "a\r\nb", "a\u{7f}", "g\n", "a\tb",
];
/// Names that a careless comparison takes for the same.
const ALIKE: [[&str; 4]; 8] = [
    ["a", "A", "b", "B"],
    ["a", " a", "a ", "a  "],
    ["\u{e9}", "e\u{301}", "e", "\u{c9}"],
    ["a", "a\u{0}", "\u{0}", "a\u{0}b"],
    ["1", "01", "1.0", "+1"],
    ["\u{df}", "ss", "SS", "\u{1e9e}"],
    ["a/b", "a\\b", "a_b", "a.b"],
    ["aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa1", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa2", "1", "2"],
];
impl Shape {
    pub fn plain() -> Shape {
        Shape {
            types: WRITE_TYPES.to_vec(),
            same_type: 60,
            same_list: 55,
            props: 20,
            refused: 5,
            big: 2,
            names: PLAIN.to_vec(),
            groups: 2,
            channels: 4,
            reads: 3,
            snapshots: false,
            value_bits: false,
        }
    }
}

pub struct Gen {
    pub rng: Rng,
    pub ops: Vec<J>,
    pub shape: Shape,
    pub chans: Vec<Path>,
    pub groups: Vec<Path>,
    /// pieces known to be in each channel: (type, samples)
    pub data: BTreeMap<Path, Vec<(String, u64)>>,
    pub touched: Vec<Path>,
    pub base: i64,
    last_list: Vec<Path>,
    last_ty: &'static str,
    last_n: usize,
    prop_names: Vec<Vec<u8>>,
}

impl Gen {
    pub fn new(mut rng: Rng, mut shape: Shape) -> Gen {
        let alike = rng.chance(15);
        if alike {
            shape.names = rng.pick(&ALIKE).to_vec();
        }
        let mut groups: Vec<&str> = vec![];
        let ng = rng.range(1, shape.groups);
        for _ in 0..ng {
            let g = *rng.pick(&shape.names);
            if !groups.contains(&g) && valid(g) {
                groups.push(g);
            }
        }
        if groups.is_empty() {
            groups.push("g");
        }
        let mut chans: Vec<Path> = vec![];
        let nc = rng.range(1, shape.channels);
        for _ in 0..nc {
            let g = *rng.pick(&groups);
            let c = *rng.pick(&shape.names);
            if !valid(c) {
                continue;
            }
            let p = chan_path(g, c);
            if !chans.contains(&p) {
                chans.push(p);
            }
        }
        if chans.is_empty() {
            chans.push(chan_path(groups[0], "c"));
        }
        let last_ty = *rng.pick(&shape.types);
        let base = rng.range(0, 60000) as i64;
        let prop_names = if alike { &["p", "P", "p ", "", "\u{e9}", "e\u{301}"][..] } else { &["p", "", "unit", "p'q", "\u{e9}"] };
        Gen {
            ops: vec![],
            groups: groups.iter().map(|g| group_path(g)).collect(),
            chans,
            data: BTreeMap::new(),
            touched: vec![],
            base,
            last_list: vec![],
            last_ty,
            last_n: 3,
            prop_names: prop_names.iter().map(|s| s.as_bytes().to_vec()).collect(),
            rng,
            shape,
        }
    }
    pub fn op(&mut self, e: &str, f: Vec<(&str, J)>) {
        self.ops.push(ev(e, f));
    }
    /// The first event of a case.
    pub fn case(&mut self, id: &str, e: &str, f: Vec<(&str, J)>, o: Vec<(&str, J)>) {
        let mut fields = vec![("case", J::from(id)), ("e", J::from(e))];
        fields.extend(f);
        if !o.is_empty() {
            fields.push(("o", obj(o)));
        }
        self.ops.push(obj(fields));
    }
    pub fn direct(&mut self, what: &str, f: Vec<(&str, J)>) {
        let mut fields = vec![("do", J::from(what))];
        fields.extend(f);
        self.op("x", fields);
    }

    fn pick_list(&mut self) -> Vec<Path> {
        let r = &mut self.rng;
        if !self.last_list.is_empty() && r.chance(self.shape.same_list) {
            return self.last_list.clone();
        }
        let mut l = self.last_list.clone();
        match r.below(8) {
            0 if l.len() > 1 => {
                l.pop();
                l
            }
            1 if l.len() > 1 => {
                l.remove(0);
                l
            }
            2 if l.len() > 1 => {
                r.shuffle(&mut l);
                l
            }
            3 => {
                let p = r.pick(&self.chans).clone();
                if !l.contains(&p) {
                    l.push(p);
                }
                l
            }
            4 if !l.is_empty() => {
                // another channel in the place of one
                let p = r.pick(&self.chans).clone();
                if !l.contains(&p) {
                    let i = r.below(l.len());
                    l[i] = p;
                }
                l
            }
            _ => {
                let n = r.range(1, self.chans.len());
                r.subset(&self.chans, n)
            }
        }
    }
    pub fn write_of(&mut self, list: &[Path], ty: &str, per: usize, inter: bool) {
        let n = per * list.len();
        let base = if self.rng.chance(12) {
            types::special_base(ty, self.rng.next() % 32)
        } else {
            self.base
        };
        self.base += n as i64 + self.rng.range(0, 3) as i64;
        self.op(
            "write",
            vec![
                ("chs", J::Arr(list.iter().map(|p| bytes(p)).collect())),
                ("ty", ty.into()),
                ("base", J::Int(base)),
                ("n", n.into()),
                ("lay", if inter { "I" } else { "C" }.into()),
            ],
        );
        for p in list {
            if !self.touched.contains(p) {
                self.touched.push(p.clone());
            }
            if per > 0 {
                let d = self.data.entry(p.clone()).or_default();
                match d.last_mut() {
                    Some(l) if l.0 == ty => l.1 += per as u64,
                    _ => d.push((ty.to_string(), per as u64)),
                }
            }
        }
        self.last_list = list.to_vec();
        self.last_n = per;
    }
    pub fn write(&mut self) {
        let list = self.pick_list();
        if self.rng.chance(100 - self.shape.same_type) {
            self.last_ty = *self.rng.pick(&self.shape.types);
        }
        let per = match self.rng.below(12) {
            0 => 0,
            1 | 2 => 1,
            3 => 2,
            4 => self.rng.range(0, 12),
            5 => self.rng.range(0, 3),
            _ => self.last_n.min(64),
        };
        let per = if self.rng.chance(self.shape.big) { self.rng.range(500, 3000) } else { per };
        let inter = self.rng.chance(50);
        let ty = self.last_ty;
        self.write_of(&list, ty, per, inter);
    }
    pub fn refused(&mut self) {
        let mut list = self.pick_list();
        let inter = self.rng.chance(50);
        let kind = self.rng.below(3);
        let (n, ty) = match kind {
            0 => {
                list.clear();
                (self.rng.range(0, 3), self.last_ty)
            }
            1 => {
                if list.len() < 2 {
                    list = self.chans.clone();
                }
                let k = list.len();
                if k < 2 {
                    list.clear();
                    (2, self.last_ty)
                } else {
                    (k * self.rng.range(0, 4) + self.rng.range(1, k - 1), self.last_ty)
                }
            }
            _ => (list.len() * self.rng.range(0, 3), "Str"),
        };
        let base = self.base;
        self.op(
            "write",
            vec![
                ("chs", J::Arr(list.iter().map(|p| bytes(p)).collect())),
                ("ty", ty.into()),
                ("base", J::Int(base)),
                ("n", n.into()),
                ("lay", if inter { "I" } else { "C" }.into()),
            ],
        );
    }
    pub fn value(&mut self) -> J {
        let t = *self.rng.pick(&PROP_TYPES);
        self.value_of(t)
    }
    pub fn value_of(&mut self, t: &str) -> J {
        let b: Vec<u8> = match t {
            "Str" => {
                let s = *self.rng.pick(&["", "x", "hello", "\u{e9}\u{65e5}", "a'b\"c", "TDSm", "\u{0}", "\u{feff}x", "a\r\nb", "\t x\n",
                    "\u{7f}\u{80}", "e\u{301}"]);
                if self.rng.chance(2) { s.repeat(4000).into_bytes() } else { s.as_bytes().to_vec() }
            }
            "Bool" => vec![self.rng.below(2) as u8],
            t => self.bits(types::size(t)),
        };
        J::Arr(vec![t.into(), bytes(&b)])
    }
    /// Seconds near those a calendar knows (about 1 in 8 far outside), any fraction.
    pub fn moment(&mut self) -> J {
        const EPOCH: i64 = 2_082_844_800;
        let s: i64 = match self.rng.below(8) {
            0 => *self.rng.pick(&[0, -1, 1, EPOCH, EPOCH - 1, EPOCH + 1, 1 << 31, (1 << 31) - 1, 1 << 32, 59]),
            1 => (self.rng.next() >> 2) as i64 * if self.rng.chance(50) { 1 } else { -1 },
            2 => (self.rng.next() >> 26) as i64 * if self.rng.chance(50) { 1 } else { -1 },
            _ => EPOCH + (self.rng.next() >> 31) as i64,
        };
        let mut b = self.bits(8);
        b.extend(s.to_le_bytes());
        J::Arr(vec!["Time".into(), bytes(&b)])
    }
    /// Unix seconds and nanoseconds of a date between 1904 and 2170.
    pub fn date(&mut self) -> J {
        let s = (self.rng.next() % (1 << 33)) as i64 - 2_082_844_800;
        let s = *self.rng.pick(&[s, s, s, 0, -1, -2_082_844_800, 1_600_000_000]);
        let n = *self.rng.pick(&[0, 1, 999_999_999, 500_000_000, 123_456_789, 4_000, 250_000_001]);
        let mut b = s.to_le_bytes().to_vec();
        b.extend((n as u32).to_le_bytes());
        J::Arr(vec!["Chrono".into(), bytes(&b)])
    }
    pub fn bits(&mut self, w: usize) -> Vec<u8> {
        match self.rng.below(6) {
            0 => vec![0; w],
            1 => vec![255; w],
            2 => {
                let mut v = vec![0; w];
                if w > 0 {
                    v[w - 1] = *self.rng.pick(&[0x7f, 0x80, 0xff, 0xc0, 1]);
                    v[0] = *self.rng.pick(&[0, 1, 0xff]);
                    if w > 1 {
                        v[w - 2] = *self.rng.pick(&[0x80, 0xf0, 0xc0, 0]);
                    }
                }
                v
            }
            _ => (0..w).map(|_| self.rng.next() as u8).collect(),
        }
    }
    pub fn any_path(&mut self) -> Path {
        match self.rng.below(5) {
            0 => b"/".to_vec(),
            1 => self.rng.pick(&self.groups).clone(),
            _ => self.rng.pick(&self.chans).clone(),
        }
    }
    pub fn kv(&mut self, most: usize) -> J {
        let n = self.rng.range(0, most);
        let ns: Vec<Vec<u8>> = self.prop_names.clone();
        let picked = self.rng.subset(&ns, n.min(ns.len()));
        J::Arr(picked.iter().map(|k| J::Arr(vec![bytes(k), self.value()])).collect())
    }
    pub fn props(&mut self) {
        let p = self.any_path();
        let mut kv = self.kv(3);
        // the same name twice in one call: the last one counts
        if self.rng.chance(8)
            && let J::Arr(a) = &mut kv
            && !a.is_empty()
        {
            let k = a[0].arr()[0].clone();
            let v = self.value();
            a.push(J::Arr(vec![k, v]));
        }
        self.op("props", vec![("path", bytes(&p)), ("kv", kv)]);
        if !self.touched.contains(&p) {
            self.touched.push(p);
        }
    }
    pub fn mutate(&mut self) {
        let s = &self.shape;
        let (p, r) = (s.props, s.refused);
        let x = self.rng.below(100);
        if x < p {
            self.props();
        } else if x < p + r {
            self.refused();
        } else {
            self.write();
        }
    }
    pub fn snapshot(&mut self, full: bool) {
        self.op("bytes", vec![("full", full.into()), ("app", true.into())]);
    }
    /// One writer session.
    pub fn session(&mut self, writes: usize) {
        self.op("wopen", vec![]);
        for _ in 0..writes {
            self.mutate();
            if self.rng.chance(10) {
                self.op("sync", vec![]);
                if self.shape.snapshots {
                    self.snapshot(true);
                }
            } else if self.shape.snapshots && self.rng.chance(30) {
                self.snapshot(false);
            }
        }
        self.op("wdrop", vec![]);
        if self.shape.snapshots {
            self.snapshot(true);
        }
    }
    fn len_of(&self, p: &[u8]) -> u64 {
        self.data.get(p).map_or(0, |d| d.iter().map(|x| x.1).sum())
    }
    fn cuts(&self, p: &[u8]) -> Vec<u64> {
        let mut v = vec![0];
        let mut s = 0;
        for (_, n) in self.data.get(p).into_iter().flatten() {
            s += n;
            v.push(s);
        }
        v
    }
    fn type_at(&self, p: &[u8], at: u64) -> Option<String> {
        let mut s = 0;
        for (t, n) in self.data.get(p)? {
            s += n;
            if at < s {
                return Some(types::native(t).to_string());
            }
        }
        None
    }
    pub fn read_op(&mut self, chs: &[Path], ty: &str, from: u64, lens: &[u64]) {
        // text samples cannot be read: ask for numbers
        let ty = if ty == "Str" { "I32" } else { ty };
        self.op(
            "read",
            vec![
                ("chs", J::Arr(chs.iter().map(|p| bytes(p)).collect())),
                ("ty", ty.into()),
                ("from", J::Int(from as i64)),
                ("lens", J::Arr(lens.iter().map(|n| J::Int(*n as i64)).collect())),
            ],
        );
    }
    pub fn far_read(&mut self) {
        let p = self.rng.pick(&self.chans).clone();
        let ty = *self.rng.pick(&WRITE_TYPES);
        let d = self.rng.range(0, 3);
        self.ops.push(obj(vec![
            ("e", "read".into()),
            ("chs", J::Arr(vec![bytes(&p)])),
            ("ty", ty.into()),
            ("from", J::Int(i32::MAX as i64)),
            ("lens", J::Arr(vec![J::Int(3)])),
            ("o", obj(vec![("far", d.into())])),
        ]));
    }
    pub fn rand_from(&mut self, p: &[u8]) -> u64 {
        let len = self.len_of(p);
        let c = self.cuts(p);
        match self.rng.below(7) {
            0 | 1 => 0,
            2 => *self.rng.pick(&c),
            3 => self.rng.pick(&c).saturating_sub(1),
            4 => self.rng.pick(&c) + 1,
            5 => len + self.rng.range(0, 2) as u64,
            _ => self.rng.below(len as usize + 1) as u64,
        }
    }
    pub fn rand_len(&mut self, p: &[u8], from: u64) -> u64 {
        let len = self.len_of(p);
        let rest = len.saturating_sub(from);
        let c = self.cuts(p);
        let most = 4000;
        let n = match self.rng.below(8) {
            0 => 0,
            1 => 1,
            2 | 3 => rest,
            4 => rest + self.rng.range(1, 4) as u64,
            5 => self.rng.pick(&c).saturating_sub(from),
            6 => self.rng.pick(&c).saturating_sub(from) + 1,
            _ => self.rng.below(rest as usize + 2) as u64,
        };
        n.min(most)
    }
    /// A read of one to k channels.
    pub fn rand_read(&mut self, k: usize) {
        let known: Vec<Path> = self.chans.iter().filter(|p| self.touched.contains(p)).cloned().collect();
        let pool = if known.is_empty() || self.rng.chance(3) { self.chans.clone() } else { known };
        let n = self.rng.range(1, k.min(pool.len()));
        let mut chs = self.rng.subset(&pool, n);
        if self.rng.chance(2) {
            chs.push(chan_path("no such", "channel"));
        }
        let f = self.rng.pick(&chs).clone();
        let from = self.rand_from(&f);
        let ty = match self.type_at(&f, from) {
            Some(t) if self.rng.chance(92) => t,
            _ => self.rng.pick(&WRITE_TYPES).to_string(),
        };
        // mostly channels that have that type there
        if self.rng.chance(85) {
            let keep: Vec<Path> = chs
                .iter()
                .filter(|p| self.type_at(p, from).is_none_or(|t| t == ty))
                .cloned()
                .collect();
            if !keep.is_empty() {
                chs = keep;
            }
        }
        if k > 1 && self.rng.chance(8) {
            // one of them into another buffer too
            let again = self.rng.pick(&chs).clone();
            let at = self.rng.below(chs.len() + 1);
            chs.insert(at, again);
        }
        let stay = self.rng.chance(70);
        let lens: Vec<u64> = chs
            .iter()
            .map(|p| {
                let l = self.rand_len(p, from);
                if stay { l.min(self.stretch(p, from).max(1)) } else { l }
            })
            .collect();
        self.read_op(&chs, &ty, from, &lens);
    }
    /// Samples of one type from a position.
    fn stretch(&self, p: &[u8], from: u64) -> u64 {
        let mut s = 0;
        for (_, n) in self.data.get(p).into_iter().flatten() {
            s += n;
            if from < s {
                return s - from;
            }
        }
        3
    }
    /// Every stretch of every channel.
    pub fn read_all(&mut self) {
        for p in self.chans.clone() {
            let mut at = 0;
            let d = self.data.get(&p).cloned().unwrap_or_default();
            let k = d.len();
            for (i, (t, n)) in d.into_iter().enumerate() {
                let more = if i + 1 == k { 2 } else { 0 };
                let t = types::native(&t).to_string();
                self.read_op(std::slice::from_ref(&p), &t, at, &[n + more]);
                at += n;
            }
            if k == 0 {
                self.read_op(std::slice::from_ref(&p), "I32", 0, &[2]);
            }
        }
    }
    pub fn lens(&mut self) {
        for p in self.chans.clone() {
            self.op("len", vec![("path", bytes(&p))]);
        }
    }
    pub fn all_props(&mut self) {
        let mut v = vec![b"/".to_vec()];
        v.extend(self.groups.clone());
        v.extend(self.chans.clone());
        for p in v {
            self.op("allprops", vec![("path", bytes(&p))]);
            if self.rng.chance(30) {
                let k = self.rng.pick(&self.prop_names).clone();
                self.op("prop", vec![("path", bytes(&p)), ("name", bytes(&k))]);
            }
        }
    }
    pub fn listings(&mut self) {
        self.op("groups", vec![]);
        for g in self.groups.clone() {
            let n = names(&g)[0].to_vec();
            let hint = self.last_ty;
            self.op("chans", vec![("g", bytes(&n)), ("o", obj(vec![("use", hint.into())]))]);
        }
        if self.rng.chance(30) {
            self.op("chans", vec![("g", bytes(b"no such group"))]);
            let c = chan_path("no such group", "c");
            self.op("len", vec![("path", bytes(&c))]);
            self.op("prop", vec![("path", bytes(&c)), ("name", bytes(b"p"))]);
            self.op("allprops", vec![("path", bytes(&c))]);
        }
    }
    pub fn observe(&mut self) {
        self.lens();
        self.read_all();
        self.listings();
        self.all_props();
        for _ in 0..self.shape.reads {
            self.rand_read(4);
        }
    }

    // ---------------- files of other producers ----------------

    pub fn obj_entry(&mut self, p: &[u8], ix: J, props: usize) -> J {
        let mut kv = if self.rng.chance(props) { self.kv(2) } else { J::Arr(vec![]) };
        if let J::Arr(a) = &mut kv {
            for x in a.iter_mut() {
                if let J::Arr(x) = x
                    && self.rng.chance(10)
                {
                    let t = *self.rng.pick(&["F32U", "F64U", "ExtU"]);
                    let b = self.bits(types::size(t));
                    x[1] = J::Arr(vec![t.into(), bytes(&b)]);
                }
            }
        }
        obj(vec![("p", bytes(p)), ("ix", ix), ("props", kv)])
    }
    /// A well-formed sequence of segments; remembers the content roughly.
    pub fn segments(&mut self, count: usize, f: &Foreign) -> Vec<J> {
        let mut formats: BTreeMap<Path, (String, u64)> = BTreeMap::new();
        let mut active: Vec<Path> = vec![];
        let mut segs = vec![];
        let first = self.rng.chance(95);
        for i in 0..count {
            let be = self.rng.chance(f.be);
            let inter = self.rng.chance(f.inter);
            let data = self.rng.chance(f.data);
            let mut new = i == 0 && first;
            let mut meta = true;
            let mut objs: Vec<J> = vec![];
            if i > 0 && self.rng.chance(f.nometa) {
                meta = false;
            } else {
                if i > 0 {
                    new = self.rng.chance(f.newlist);
                }
                if new {
                    active.clear();
                }
                let n = *self.rng.pick(&f.lens);
                let n = if self.rng.chance(f.big) { f.big_n } else { n };
                // which channels carry data from here on
                let mut want: Vec<Path> = vec![];
                if data || self.rng.chance(50) {
                    let k = self.rng.range(if active.is_empty() { 1 } else { 0 }, self.chans.len());
                    want = self.rng.subset(&self.chans.clone(), k);
                }
                // mostly, all active channels share one length: list those that differ
                let uneven = self.rng.chance(f.uneven);
                let mut listed: Vec<(Path, J)> = vec![];
                let keep_n = !active.is_empty() && self.rng.chance(50);
                let n = if keep_n { formats[&active[0]].1 } else { n };
                for p in active.clone() {
                    let fm = formats[&p].clone();
                    if fm.1 != n && !uneven && !want.contains(&p) {
                        want.push(p);
                    }
                }
                for p in &want {
                    let old = formats.get(p).cloned();
                    let n = match uneven {
                        true if self.rng.chance(15) => 0,
                        true => *self.rng.pick(&f.lens),
                        false => n,
                    };
                    let ix = match old {
                        Some(o) if (o.1 == n || uneven) && o.0 != "Str" && self.rng.chance(60) => {
                            J::Arr(vec!["prev".into()])
                        }
                        _ => {
                            let t = if self.rng.chance(f.same_type) && old.as_ref().is_some_and(|o| o.0 != "Str") {
                                old.unwrap().0
                            } else {
                                self.rng.pick(&f.types).to_string()
                            };
                            if self.rng.chance(f.strings) {
                                formats.insert(p.clone(), ("Str".into(), n));
                                let total = self.rng.range(0, 30);
                                J::Arr(vec!["str".into(), "Str".into(), J::Int(n as i64), total.into()])
                            } else {
                                formats.insert(p.clone(), (t.clone(), n));
                                J::Arr(vec!["raw".into(), t.into(), J::Int(n as i64)])
                            }
                        }
                    };
                    listed.push((p.clone(), ix));
                    if !active.contains(p) {
                        active.push(p.clone());
                    }
                }
                for (p, ix) in &listed {
                    let o = self.obj_entry(p, ix.clone(), f.props);
                    objs.push(o);
                }
                // objects without data anywhere in the list
                for _ in 0..self.rng.below(3) {
                    let p = self.any_path();
                    if !want.contains(&p) && !objs.iter().any(|o| o.at("p").bytes() == p) {
                        let o = self.obj_entry(&p, J::Arr(vec!["none".into()]), 70);
                        let at = self.rng.below(objs.len() + 1);
                        objs.insert(at, o);
                    }
                }
            }
            let chunk: u64 =
                active.iter().map(|p| types::size(&formats[p].0) as u64 * formats[p].1).sum();
            let has_str = active.iter().any(|p| formats[p].0 == "Str");
            let raw = data && !active.is_empty() && (chunk > 0 || has_str);
            let most = if chunk > 20000 { 1 } else { f.chunks };
            let nch = self.rng.range(1, most) as u64;
            let mut rawlen = chunk * nch;
            if raw && has_str {
                rawlen = chunk + self.rng.range(1, 40) as u64;
            } else if raw && self.rng.chance(f.partial) {
                rawlen += self.rng.below(chunk as usize) as u64;
            }
            let same = active.iter().all(|p| formats[p].1 == formats[&active[0]].1);
            let inter = inter && !has_str && same;
            let rawlen = if raw { rawlen } else { 0 };
            let total: u64 = active.iter().map(|p| formats[p].1).sum::<u64>() * nch;
            let src = if has_str || !raw {
                let b: Vec<u8> = (0..rawlen).map(|_| self.rng.next() as u8).collect();
                J::Arr(vec!["bytes".into(), bytes(&b), J::Int(0)])
            } else {
                let widest = active.iter().map(|p| formats[p].0.as_str()).max_by_key(|t| types::size(t));
                let b = match widest {
                    Some(t) if self.rng.chance(12) => types::special_base(t, self.rng.next() % 32),
                    _ => self.base,
                };
                self.base += total as i64 + 2;
                J::Arr(vec!["tok".into(), J::Int(b)])
            };
            if raw {
                for p in &active {
                    let (t, n) = formats[p].clone();
                    if !self.touched.contains(p) {
                        self.touched.push(p.clone());
                    }
                    let d = self.data.entry(p.clone()).or_default();
                    let add = if has_str { n } else { n * nch };
                    match d.last_mut() {
                        Some(l) if l.0 == t => l.1 += add,
                        _ => d.push((t, add)),
                    }
                }
            }
            let pad = self.rng.chance(f.pad);
            let mut seg = obj(vec![
                ("new", new.into()),
                ("inter", inter.into()),
                ("be", be.into()),
                ("meta", meta.into()),
                ("raw", raw.into()),
                ("objs", J::Arr(objs)),
                ("rawlen", J::Int(rawlen as i64)),
                ("src", src),
            ]);
            if pad {
                seg.set("pad", J::Int(*self.rng.pick(&[1, 2, 4, 28, 31, 300, 9000])));
            }
            segs.push(seg);
        }
        self.last_list = active;
        segs
    }
}
fn valid(name: &str) -> bool {
    // single quotes only doubled
    !name.split("''").any(|p| p.contains('\''))
}

#[derive(Clone)]
pub struct Foreign {
    pub be: usize,
    pub inter: usize,
    pub data: usize,
    pub nometa: usize,
    pub newlist: usize,
    pub partial: usize,
    pub strings: usize,
    pub props: usize,
    pub same_type: usize,
    pub chunks: usize,
    pub lens: Vec<u64>,
    pub types: Vec<&'static str>,
    pub big: usize,
    pub big_n: u64,
    /// Channels of different lengths in one (contiguous) segment.
    pub uneven: usize,
    /// Room between the metadata and the samples.
    pub pad: usize,
}
impl Foreign {
    pub fn mixed() -> Foreign {
        Foreign {
            be: 40,
            inter: 45,
            data: 80,
            nometa: 20,
            newlist: 40,
            partial: 10,
            strings: 0,
            props: 25,
            same_type: 70,
            chunks: 4,
            lens: vec![1, 2, 3, 5],
            types: DATA_TYPES.to_vec(),
            big: 0,
            big_n: 0,
            uneven: 20,
            pad: 15,
        }
    }
}
