//! One script generator per property.

use crate::enc::Encoder;
use crate::gen_::{CONV, Foreign, Gen, ODD, PLAIN, Shape, chan_path, group_path};
use crate::json::{J, bytes, obj};
use crate::rng::Rng;
use crate::trace::ev;
use crate::types::{self, DATA_TYPES, WRITE_TYPES};

pub const PROFILES: [&str; 18] = [
    "session", "reopen", "wellformed", "slice", "multi", "foreign", "props", "names", "paths",
    "types", "compat", "fuzz", "malformed", "cut", "append", "refuse", "faults", "frugal",
];

/// Scripts for case k of a profile.
pub fn script(profile: &str, k: usize, seed: u64) -> Vec<J> {
    let mut r = Rng(seed ^ 0x5851_F42D_4C95_7F2D);
    for c in profile.bytes() {
        r.0 = r.0.wrapping_mul(31).wrapping_add(c as u64);
    }
    r.next();
    r.0 = r.0.wrapping_add((k as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15));
    r.next();
    let id = format!("{profile}-{seed}-{k}");
    match profile {
        "session" => session(&id, k, r),
        "reopen" => reopen(&id, k, r),
        "wellformed" => wellformed(&id, k, r),
        "slice" => slice(&id, k, r, 1),
        "multi" => slice(&id, k, r, 5),
        "foreign" => foreign(&id, k, r),
        "props" => props(&id, k, r),
        "names" => names(&id, k, r),
        "paths" => paths(&id, k, r),
        "types" => types_(&id, k, r),
        "compat" => compat(&id, k, r),
        "fuzz" => fuzz(&id, k, r),
        "malformed" => malformed(&id, k, r),
        "cut" => cut(&id, k, r),
        "append" => append(&id, k, r),
        "refuse" => refuse(&id, k, r),
        "faults" => faults(&id, k, r),
        "frugal" => frugal(&id, k, r),
        p => panic!("no profile {p}"),
    }
}

fn shape_for(k: usize, r: &mut Rng) -> Shape {
    let mut s = Shape::plain();
    match k % 7 {
        0 => {
            // one type and one list: every repetition can be elided
            s.types = vec![*r.pick(&WRITE_TYPES)];
            s.same_list = 85;
            s.same_type = 100;
        }
        1 => {
            s.types = r.subset(&WRITE_TYPES, 2);
            s.same_list = 70;
            s.props = 5;
        }
        2 => {
            s.channels = 8;
            s.groups = 3;
        }
        3 => {
            s.refused = 20;
            s.same_list = 80;
        }
        4 => {
            s.names = ODD.to_vec();
            s.groups = 4;
        }
        5 => s.same_list = 20,
        _ => {}
    }
    s
}
fn start(g: &mut Gen, id: &str, k: usize) {
    let mut o: Vec<(&str, J)> = vec![];
    if k % 9 == 4 {
        o.push(("disk", true.into()));
        g.case(id, "create", vec![], o);
    } else {
        if k % 5 == 3 {
            o.push(("start", J::Int(7)));
        }
        g.case(id, "new", vec![], o);
    }
}

fn session(id: &str, k: usize, mut r: Rng) -> Vec<J> {
    let s = shape_for(k, &mut r);
    if k % 40 == 17 {
        return wide(id, r);
    }
    if k % 40 == 27 {
        return long(id, r);
    }
    let mut g = Gen::new(r, s);
    start(&mut g, id, k);
    let sessions = g.rng.range(1, 4);
    for _ in 0..sessions {
        let n = g.rng.range(1, 8);
        g.session(n);
        if g.rng.chance(50) {
            g.observe();
        } else {
            g.lens();
            g.rand_read(3);
        }
    }
    g.observe();
    g.ops
}
/// Many channels in one write.
fn wide(id: &str, mut r: Rng) -> Vec<J> {
    let mut s = Shape::plain();
    s.reads = 6;
    let ty = *r.pick(&["U8", "I16", "F64"]);
    let n = r.range(256, 300);
    let mut g = Gen::new(r, s);
    g.chans = (0..n).map(|i| chan_path("g", &format!("c{i}"))).collect();
    start(&mut g, id, 0);
    g.op("wopen", vec![]);
    let all = g.chans.clone();
    for _ in 0..3 {
        let inter = g.rng.chance(50);
        g.write_of(&all, ty, 2, inter);
    }
    let last = all[all.len() - 1..].to_vec();
    g.write_of(&last, ty, 3, false);
    g.write_of(&all, ty, 1, true);
    g.op("wdrop", vec![]);
    g.chans = vec![all[0].clone(), all[n / 2].clone(), all[n - 1].clone()];
    g.observe();
    g.op("open", vec![]);
    g.observe();
    g.ops
}
/// Many samples, many segments.
fn long(id: &str, mut r: Rng) -> Vec<J> {
    let mut s = Shape::plain();
    s.reads = 10;
    let ty = *r.pick(&["U8", "I16", "U32", "F64", "C128", "Ext"]);
    let many = r.chance(50);
    let mut g = Gen::new(r, s);
    g.chans = ["a", "b", "c"].iter().map(|c| chan_path("g", c)).collect();
    start(&mut g, id, 0);
    g.op("wopen", vec![]);
    let all = g.chans.clone();
    if many {
        for i in 0..300 {
            let n = 1 + i % 3;
            g.write_of(&all[..if i % 50 == 49 { 2 } else { 3 }], ty, n, i % 7 < 3);
        }
    } else {
        g.write_of(&all, ty, 70000, true);
        g.write_of(&all, ty, 70000, false);
        g.write_of(&all[..1], ty, 66000, false);
    }
    g.op("wdrop", vec![]);
    g.observe();
    let a = all[0].clone();
    let n = if many { 200 } else { 140_000 };
    for from in [0, 65_535u64.min(n as u64 / 2), n as u64 / 2, n as u64 - 1] {
        g.read_op(&[a.clone(), all[1].clone()], types::native(ty), from, &[n as u64, 70]);
    }
    g.op("open", vec![]);
    g.lens();
    g.read_op(&[a, all[2].clone()], types::native(ty), 3, &[n as u64, n as u64]);
    g.ops
}

fn reopen(id: &str, k: usize, mut r: Rng) -> Vec<J> {
    if k % 10 == 6 {
        return vast(id, r, 3, false, true);
    }
    let s = shape_for(k, &mut r);
    let mut g = Gen::new(r, s);
    start(&mut g, id, k);
    let rounds = g.rng.range(2, 5);
    for _ in 0..rounds {
        let n = g.rng.range(0, 4);
        g.session(n);
        if g.rng.chance(25) {
            let n = g.rng.range(1, 2);
            g.session(n);
        }
        if g.rng.chance(40) {
            g.lens();
        }
        g.op("open", vec![]);
        if g.rng.chance(60) {
            g.observe();
        } else {
            g.lens();
            g.rand_read(4);
        }
    }
    g.observe();
    g.snapshot(true);
    g.ops
}

fn wellformed(id: &str, k: usize, mut r: Rng) -> Vec<J> {
    let mut s = shape_for(k, &mut r);
    s.props = [10, 30, 50][k % 3];
    s.big = if k % 6 == 0 { 15 } else { 0 };
    s.reads = 0;
    let mut g = Gen::new(r, s);
    start(&mut g, id, k);
    let rounds = g.rng.range(1, 3);
    for _ in 0..rounds {
        let n = g.rng.range(0, 6);
        g.session(n);
        g.snapshot(true);
        if g.rng.chance(40) {
            g.op("open", vec![]);
        }
    }
    g.lens();
    g.ops
}

/// Reads of one channel (most = 1) or several from any offset.
fn slice(id: &str, k: usize, mut r: Rng, most: usize) -> Vec<J> {
    if k % 5 == 4 {
        return vast(id, r, most, false, false);
    }
    let mut s = shape_for(k / 2, &mut r);
    s.types = r.subset(&WRITE_TYPES, 2);
    s.same_type = 85;
    s.refused = 2;
    s.props = 5;
    s.names = PLAIN.to_vec();
    s.channels = if most == 1 { 3 } else { 5 };
    let mut g = Gen::new(r, s);
    if k % 2 == 0 {
        start(&mut g, id, k);
        let n = g.rng.range(2, 9);
        g.session(n);
        if g.rng.chance(50) {
            g.op("open", vec![]);
        }
    } else {
        let mut f = Foreign::mixed();
        f.types = g.rng.subset(&DATA_TYPES, 2);
        f.same_type = 95;
        f.props = 5;
        f.chunks = 6;
        let n = g.rng.range(1, 7);
        let segs = g.segments(n, &f);
        g.case(id, "segs", vec![("segs", J::Arr(segs))], vec![]);
        if g.rng.chance(20) {
            let n = g.rng.range(1, 3);
            g.session(n);
        }
    }
    g.lens();
    let n = g.rng.range(15, 30);
    for _ in 0..n {
        g.rand_read(most);
    }
    if most == 1 {
        g.far_read();
        // every offset of one channel
        let p = g.rng.pick(&g.chans.clone()).clone();
        let pieces = g.data.get(&p).cloned().unwrap_or_default();
        let len: u64 = pieces.iter().map(|x| x.1).sum();
        if len <= 40 && pieces.len() == 1 {
            let t = types::native(&pieces[0].0).to_string();
            for from in 0..=len + 1 {
                let n = g.rng.range(0, (len + 2) as usize) as u64;
                g.read_op(std::slice::from_ref(&p), &t, from, &[n]);
            }
        }
    } else {
        // every offset with fixed uneven lengths for all channels of one type
        let one: Vec<Vec<u8>> = g
            .chans
            .iter()
            .filter(|p| g.data.get(*p).is_some_and(|d| d.len() == 1))
            .cloned()
            .collect();
        if let Some(p) = one.first() {
            let t = g.data[p][0].0.clone();
            let mut chs: Vec<Vec<u8>> =
                one.iter().filter(|p| g.data[*p][0].0 == t).cloned().collect();
            g.rng.shuffle(&mut chs);
            let len = chs.iter().map(|p| g.data[p][0].1).max().unwrap_or(0);
            if len <= 40 {
                for from in 0..=len {
                    let lens: Vec<u64> =
                        chs.iter().map(|_| g.rng.range(0, len as usize + 1) as u64).collect();
                    g.read_op(&chs, types::native(&t), from, &lens);
                }
            }
        }
    }
    g.ops
}

fn foreign(id: &str, k: usize, mut r: Rng) -> Vec<J> {
    if k % 30 == 29 {
        return huge(id, r, false);
    }
    if k % 30 == 14 {
        return vast(id, r, 3, false, true);
    }
    let mut s = shape_for(4 * (k % 2), &mut r);
    s.channels = 5;
    s.types = WRITE_TYPES.to_vec();
    let mut g = Gen::new(r, s);
    let mut f = Foreign::mixed();
    match k % 6 {
        0 => f.nometa = 60,
        1 => f.newlist = 10,
        2 => {
            f.strings = 12;
            f.partial = 0;
        }
        3 => {
            f.same_type = 20;
            f.props = 60;
        }
        4 => f.partial = 40,
        _ => {}
    }
    if k % 12 == 7 {
        f.big = 60;
        f.big_n = 1500;
        f.types = g.rng.subset(&DATA_TYPES, 3);
    }
    let n = g.rng.range(1, 8);
    let segs = g.segments(n, &f);
    let o = if k % 2 == 0 && k % 12 != 7 { vec![("bytes", true.into())] } else { vec![] };
    g.case(id, "segs", vec![("segs", J::Arr(segs))], o);
    g.observe();
    for _ in 0..4 {
        g.rand_read(4);
    }
    if g.rng.chance(40) {
        // carried on by this library
        g.session(3);
        g.observe();
        g.op("open", vec![]);
        g.observe();
    }
    g.ops
}
/// Small files behind more samples than 32 bits can count: in the chunk, in chunks or in a
/// segment of their own.
fn vast(id: &str, r: Rng, most: usize, rd: bool, carry: bool) -> Vec<J> {
    let mut g = Gen::new(r, Shape::plain());
    let chans: Vec<Vec<u8>> =
        ["a", "b", "c"][..g.rng.range(1, 3)].iter().map(|c| chan_path("g", c)).collect();
    let be = g.rng.chance(40);
    let inter = g.rng.chance(40);
    let d: u64 = *g.rng.pick(&[1 << 31, 1 << 32, (1 << 32) + 7, 1 << 33, 600_000_000, 1 << 40]);
    let n = g.rng.range(1, 6) as i64;
    let mode = *g.rng.pick(&["values", "chunks", "segment"]);
    // the widest types leave the range of offsets soonest
    let ty = *g.rng.pick(&DATA_TYPES);
    let mut tys: Vec<&str> = vec![];
    let mut formats: Vec<(String, i64)> = vec![];
    for _ in &chans {
        let t = if g.rng.chance(60) { ty } else { *g.rng.pick(&DATA_TYPES) };
        tys.push(t);
        formats.push((t.to_string(), n));
    }
    let mut base = 40;
    let mut total = 0u64;
    let mut segs = vec![];
    let count = g.rng.range(1, 4);
    for i in 0..count {
        let inter = if i == 0 { inter } else { g.rng.chance(30) };
        // later segments: the same list with lengths of its own, or nothing new
        let listed = i == 0 || g.rng.chance(70) || (mode == "values" && i == 1);
        let n = if listed && i > 0 { g.rng.range(1, 6) as i64 } else { formats[0].1 };
        for f in &mut formats {
            f.1 = n;
        }
        let objs: Vec<J> = chans
            .iter()
            .zip(&tys)
            .map(|(p, t)| {
                let ix = J::Arr(vec!["raw".into(), (*t).into(), J::Int(n)]);
                obj(vec![("p", bytes(p)), ("ix", ix), ("props", J::Arr(vec![]))])
            })
            .collect();
        let row: i64 = tys.iter().map(|t| types::size(t) as i64).sum();
        let most = if i == 0 && mode == "values" { 1 } else { 4 };
        let nch = g.rng.range(1, most) as i64;
        let mut rawlen = nch * n * row;
        if i + 1 == count && g.rng.chance(20) && mode != "values" {
            rawlen += g.rng.below((n * row) as usize) as i64;
        }
        segs.push(obj(vec![
            ("new", (i == 0).into()),
            ("inter", inter.into()),
            ("be", be.into()),
            ("meta", listed.into()),
            ("raw", true.into()),
            ("objs", J::Arr(if listed { objs } else { vec![] })),
            ("rawlen", J::Int(rawlen)),
            ("src", J::Arr(vec!["tok".into(), J::Int(base)])),
        ]));
        base += nch * n * chans.len() as i64 + 3;
        total += (nch * n) as u64;
    }
    let mut o = vec![("ahead", J::Arr(vec![mode.into(), J::Int(d as i64)]))];
    if rd {
        o.push(("rd", true.into()));
    }
    g.case(id, "segs", vec![("segs", J::Arr(segs))], o);
    for p in &chans {
        g.op("len", vec![("path", bytes(p))]);
    }
    for from in 0..=total + 1 {
        let k = g.rng.range(1, most.min(chans.len()));
        let i = g.rng.below(chans.len());
        let mut some: Vec<Vec<u8>> =
            chans.iter().zip(&tys).filter(|x| *x.1 == tys[i]).map(|x| x.0.clone()).collect();
        g.rng.shuffle(&mut some);
        some.truncate(k);
        let lens: Vec<u64> = some.iter().map(|_| g.rng.range(0, total as usize + 2) as u64).collect();
        g.read_op(&some, types::native(tys[i]), from, &lens);
    }
    if carry {
        // carried on by this library, at offsets of more than 32 bits
        g.groups = vec![group_path("g")];
        g.data = chans.iter().zip(&tys).map(|(p, t)| (p.clone(), vec![(t.to_string(), total)])).collect();
        g.chans = chans;
        g.base = base;
        for _ in 0..g.rng.range(1, 3) {
            let n = g.rng.range(1, 4);
            g.session(n);
            if g.rng.chance(50) {
                g.op("open", vec![]);
            }
            g.lens();
            for _ in 0..8 {
                g.rand_read(3);
            }
        }
        g.listings();
        g.all_props();
    }
    g.ops
}
/// Segments larger than 2^31 and 2^32 bytes, computed on demand.
fn huge(id: &str, r: Rng, rd: bool) -> Vec<J> {
    let mut g = Gen::new(r, Shape::plain());
    let a = chan_path("g", "a");
    let b = chan_path("g", "b");
    let ty = *g.rng.pick(&["F64", "I64", "C128"]);
    let be = g.rng.chance(50);
    let inter = g.rng.chance(50);
    // 2 channels of n samples in a few chunks: more than 4 GiB
    let (n, nch) = if g.rng.chance(50) { (100_000_000, 3) } else { (20_000, 15_000) };
    let ix = |t: &str, n: i64| J::Arr(vec!["raw".into(), t.into(), J::Int(n)]);
    let entry = |p: &[u8], ix: J| obj(vec![("p", bytes(p)), ("ix", ix), ("props", J::Arr(vec![]))]);
    let seg = |objs: Vec<J>, inter: bool, base: i64, nch: i64, small: Option<i64>| {
        let mut f = vec![
            ("new", true.into()),
            ("inter", inter.into()),
            ("be", be.into()),
            ("meta", true.into()),
            ("raw", true.into()),
            ("objs", J::Arr(objs)),
            ("rawlen", J::Int(small.unwrap_or(1))),
            ("src", J::Arr(vec!["tok".into(), J::Int(base)])),
        ];
        if small.is_none() {
            f.push(("nch", J::Int(nch)));
        }
        obj(f)
    };
    let w = types::size(ty) as i64;
    let segs = vec![
        seg(vec![entry(&a, ix(ty, 3))], false, 5, 1, Some(3 * w)),
        seg(vec![entry(&a, ix(ty, n)), entry(&b, ix(ty, n))], inter, 100, nch, None),
        seg(vec![entry(&b, ix(ty, 2)), entry(&a, ix(ty, 2))], false, 900_000_000, 1, Some(4 * w)),
    ];
    let o = if rd { vec![("rd", true.into())] } else { vec![] };
    g.case(id, "segs", vec![("segs", J::Arr(segs))], o);
    let total = n as u64 * nch as u64;
    g.op("len", vec![("path", bytes(&a))]);
    g.op("len", vec![("path", bytes(&b))]);
    for from in [0, 2, total - 2, total, total + 1, total + 3, total + 4, total / 2, n as u64 * 2 + 1] {
        g.read_op(std::slice::from_ref(&a), ty, from, &[5]);
        g.read_op(&[b.clone(), a.clone()], ty, from, &[4, 6]);
    }
    g.ops
}

fn props(id: &str, k: usize, mut r: Rng) -> Vec<J> {
    let mut s = shape_for(k, &mut r);
    s.props = 75;
    s.reads = 0;
    let mut g = Gen::new(r, s);
    match k % 4 {
        3 => {
            // conversions
            for i in 0..30 {
                let v = g.value();
                let own = v.arr()[0].str().to_string();
                let mut wants: Vec<&str> = g.rng.subset(&CONV, 4);
                if CONV.contains(&own.as_str()) {
                    wants.push(CONV[CONV.iter().position(|c| *c == own).unwrap()]);
                }
                for (j, w) in wants.iter().enumerate() {
                    g.case(
                        &format!("{id}-{i}-{j}"),
                        "conv",
                        vec![("v", v.clone()), ("want", (*w).into())],
                        vec![],
                    );
                }
            }
            for i in 0..8 {
                let v = g.moment();
                for w in ["Chrono", "Time"] {
                    g.case(&format!("{id}-t{i}-{w}"), "conv", vec![("v", v.clone()), ("want", w.into())], vec![]);
                }
                let v = g.date();
                g.case(&format!("{id}-d{i}"), "conv", vec![("v", v), ("want", "Time".into())], vec![]);
            }
            g.ops
        }
        2 => {
            let mut f = Foreign::mixed();
            f.props = 90;
            f.data = 50;
            let n = g.rng.range(2, 8);
            let segs = g.segments(n, &f);
            let o = if k % 8 == 2 { vec![("bytes", true.into())] } else { vec![] };
            g.case(id, "segs", vec![("segs", J::Arr(segs))], o);
            g.all_props();
            g.session(3);
            g.all_props();
            g.op("open", vec![]);
            g.all_props();
            g.ops
        }
        _ => {
            start(&mut g, id, k);
            let rounds = g.rng.range(1, 4);
            for _ in 0..rounds {
                let n = g.rng.range(1, 8);
                g.session(n);
                g.all_props();
                if g.rng.chance(60) {
                    g.op("open", vec![]);
                    g.all_props();
                }
            }
            for p in [b"/'zz'".to_vec(), b"/'zz'/'y'".to_vec()] {
                g.op("prop", vec![("path", bytes(&p)), ("name", bytes(b"p"))]);
                g.op("allprops", vec![("path", bytes(&p))]);
            }
            g.ops
        }
    }
}

fn names(id: &str, k: usize, r: Rng) -> Vec<J> {
    let mut s = Shape::plain();
    s.names = ODD.to_vec();
    s.groups = 6;
    s.channels = 10;
    s.reads = 0;
    s.types = vec!["U16", "F64"];
    s.props = 45;
    s.same_list = 20;
    let mut g = Gen::new(r, s);
    if k % 25 == 3 {
        let long = "n".repeat(g.rng.range(200, 5000));
        g.groups = vec![crate::gen_::group_path(&long)];
        g.chans = vec![chan_path(&long, "c"), chan_path(&long, &long)];
    }
    if k % 3 == 2 {
        let mut f = Foreign::mixed();
        f.types = vec!["U16"];
        let n = g.rng.range(1, 5);
        let segs = g.segments(n, &f);
        g.case(id, "segs", vec![("segs", J::Arr(segs))], vec![]);
    } else {
        start(&mut g, id, k);
        let n = g.rng.range(1, 8);
        g.session(n);
    }
    g.listings();
    // groups that were not drawn, too
    for _ in 0..4 {
        let n = *g.rng.pick(&ODD);
        if !n.split("''").any(|p| p.contains('\'')) {
            g.op("chans", vec![("g", bytes(n.as_bytes()))]);
            let m = *g.rng.pick(&PLAIN);
            let c = chan_path(n, m);
            g.op("len", vec![("path", bytes(&c))]);
        }
    }
    g.op("explore", vec![("o", obj(vec![("tys", J::Arr(vec!["U16".into()]))]))]);
    g.op("open", vec![]);
    g.listings();
    g.all_props();
    g.ops
}

fn paths(id: &str, k: usize, mut r: Rng) -> Vec<J> {
    let mut out = vec![];
    let pieces = ["/", "'", "a", "\"", "''", "'/'", "/'", "'/", "\u{e9}", " ", "b", "\u{65e5}", "\\", "\n", ".", "\r\n",
        "\u{feff}", "\u{7f}"];
    for i in 0..60 {
        let cid = format!("{id}-{i}");
        let n = r.below(9);
        let mut s = String::new();
        if r.chance(60) {
            s.push_str("/'");
        }
        for _ in 0..n {
            s.push_str(r.pick::<&str>(&pieces));
        }
        if r.chance(60) {
            s.push('\'');
        }
        if k % 3 == 0 {
            let mut j = vec![("case", J::from(cid)), ("e", "parse".into()), ("s", bytes(s.as_bytes()))];
            j.push(("i", J::Int(i)));
            out.push(obj(j));
        } else {
            let clean = |s: &str| if r.0 % 3 == 0 { s.to_string() } else { s.replace('\'', "") };
            let g = clean(&s);
            let c: String = {
                let x = r.below(5);
                let t: String = (0..x).map(|_| *r.pick::<&str>(&pieces)).collect();
                if k % 3 == 1 { t.replace('\'', "") } else { t }
            };
            let kind = *r.pick(&["file", "group", "chan", "chan"]);
            out.push(obj(vec![
                ("case", cid.into()),
                ("e", "mk".into()),
                ("kind", kind.into()),
                ("g", bytes(g.as_bytes())),
                ("c", bytes(c.as_bytes())),
            ]));
        }
    }
    out
}

fn types_(id: &str, k: usize, r: Rng) -> Vec<J> {
    let mut s = Shape::plain();
    s.types = WRITE_TYPES.to_vec();
    s.same_type = 30;
    s.props = 5;
    s.channels = 5;
    let mut g = Gen::new(r, s);
    match k % 3 {
        0 => {
            for (i, ty) in DATA_TYPES.iter().enumerate() {
                for be in [false, true] {
                    let w = types::size(ty);
                    let n = g.rng.range(1, 6);
                    let mut vals: Vec<Vec<u8>> = (0..n)
                        .map(|_| if *ty == "Bool" { vec![g.rng.below(2) as u8] } else { g.bits(w) })
                        .collect();
                    if *ty != "Bool" {
                        // one bit at a time, all bits, sign, infinities and NaN payloads
                        let mut one = vec![0; w];
                        one[g.rng.below(w)] = 1 << g.rng.below(8);
                        vals.push(one);
                        let mut nan = vec![g.rng.next() as u8; w];
                        nan[w - 1] = *g.rng.pick(&[0x7f, 0xff]);
                        if w > 1 {
                            nan[w - 2] = *g.rng.pick(&[0x80, 0xf0, 0xc0, 0xf8, 0xa0, 0xf4]);
                        }
                        vals.push(nan);
                    }
                    let v = J::Arr(vals.iter().map(|b| bytes(b)).collect());
                    g.case(
                        &format!("{id}-{i}-{be}"),
                        "bits",
                        vec![("ty", (*ty).into()), ("be", be.into()), ("vals", v)],
                        vec![],
                    );
                }
            }
        }
        1 => {
            // neighbours of every width
            start(&mut g, id, k);
            let n = g.rng.range(3, 10);
            g.session(n);
            g.observe();
            g.snapshot(true);
            g.op("open", vec![]);
            g.observe();
        }
        _ => {
            let mut f = Foreign::mixed();
            f.same_type = 10;
            let n = g.rng.range(1, 5);
            let segs = g.segments(n, &f);
            let o = if k % 2 == 0 { vec![("bytes", true.into())] } else { vec![] };
            g.case(id, "segs", vec![("segs", J::Arr(segs))], o);
            g.observe();
            for _ in 0..5 {
                g.rand_read(3);
            }
        }
    }
    g.ops
}

fn compat(id: &str, k: usize, mut r: Rng) -> Vec<J> {
    let stored = DATA_TYPES[k % DATA_TYPES.len()];
    let second = *r.pick(&DATA_TYPES);
    let mut g = Gen::new(r, Shape::plain());
    g.chans = ["a", "b"].iter().map(|c| chan_path("g", c)).collect();
    let all = g.chans.clone();
    let native = types::native(stored) == stored && types::native(second) == second;
    let (m, n) = (g.rng.range(1, 4) as u64, g.rng.range(1, 4) as u64);
    if k % 2 == 0 && native {
        start(&mut g, id, k);
        g.op("wopen", vec![]);
        let inter = g.rng.chance(50);
        g.write_of(&all, stored, m as usize, inter);
        g.write_of(&all[..1], second, n as usize, false);
        g.write_of(&all, stored, 2, !inter);
        g.op("wdrop", vec![]);
        if g.rng.chance(50) {
            g.op("open", vec![]);
        }
    } else {
        let mut f = Foreign::mixed();
        f.types = vec![stored, second];
        f.same_type = 40;
        f.data = 100;
        f.strings = if k % 5 == 0 { 10 } else { 0 };
        let count = g.rng.range(2, 5);
        let segs = g.segments(count, &f);
        g.case(id, "segs", vec![("segs", J::Arr(segs))], vec![]);
    }
    g.lens();
    for p in &all {
        let len: u64 = g.data.get(p).map_or(0, |d| d.iter().map(|x| x.1).sum());
        for t in WRITE_TYPES {
            g.read_op(std::slice::from_ref(p), t, 0, &[len]);
            let from = g.rand_from(p);
            let n = g.rand_len(p, from);
            g.read_op(std::slice::from_ref(p), t, from, &[n]);
        }
    }
    for t in WRITE_TYPES {
        let (x, y) = (g.rng.range(0, 5) as u64, g.rng.range(0, 5) as u64);
        let from = g.rng.range(0, 3) as u64;
        g.read_op(&all, t, from, &[x, y]);
    }
    g.read_all();
    g.ops
}

/// Numbers that break arithmetic.
const EXTREME: [u64; 26] = [
    0, 1, 2, 3, 4, 7, 8, 20, 27, 28, 0x7F, 0xFF, 0xFFFF, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFE,
    0xFFFF_FFFF, 0x1_0000_0000, 0x7FFF_FFFF_FFFF_FFFF, 0x8000_0000_0000_0000,
    0xFFFF_FFFF_FFFF_FFE3, 0xFFFF_FFFF_FFFF_FFE4, 0xFFFF_FFFF_FFFF_FFFE, 0xFFFF_FFFF_FFFF_FFFF,
    0x2000_0000_0000_0000, 0x1999_9999_9999_999A,
];
fn patch(b: &mut [u8], at: usize, w: usize, v: u64, be: bool) {
    let mut x = v.to_le_bytes()[..w].to_vec();
    if be {
        x.reverse();
    }
    for (i, y) in x.into_iter().enumerate() {
        if at + i < b.len() {
            b[at + i] = y;
        }
    }
}
fn base_file(g: &mut Gen) -> (Encoder, Vec<J>) {
    let mut f = Foreign::mixed();
    f.strings = 5;
    f.types = g.rng.subset(&DATA_TYPES, 4);
    let n = g.rng.range(1, 4);
    let segs = g.segments(n, &f);
    (Encoder::file(&segs), segs)
}
/// Positions of all numbers in the file: (offset, width, big endian).
fn fields(e: &Encoder, segs: &[J]) -> Vec<(usize, usize, bool)> {
    let mut v = vec![];
    for (m, s) in e.marks.iter().zip(segs) {
        let be = s.at("be").bool();
        let at = m[0] as usize;
        v.extend([(at, 4, false), (at + 4, 4, false), (at + 8, 4, be), (at + 12, 8, be), (at + 20, 8, be)]);
        if !s.at("meta").bool() {
            continue;
        }
        let mut p = m[1] as usize;
        v.push((p, 4, be));
        p += 4;
        for o in s.at("objs").arr() {
            v.push((p, 4, be));
            p += 4 + o.at("p").arr().len();
            v.push((p, 4, be));
            p += 4;
            let k = o.at("ix").arr()[0].str();
            if k == "raw" || k == "str" {
                v.extend([(p, 4, be), (p + 4, 4, be), (p + 8, 8, be)]);
                p += 16;
                if k == "str" {
                    v.push((p, 8, be));
                    p += 8;
                }
            }
            v.push((p, 4, be));
            p += 4;
            for kv in o.at("props").arr() {
                v.push((p, 4, be));
                p += 4 + kv.arr()[0].arr().len();
                v.push((p, 4, be));
                p += 4;
                let val = kv.arr()[1].arr();
                if val[0].str() == "Str" {
                    v.push((p, 4, be));
                    p += 4;
                }
                p += val[1].arr().len();
            }
        }
    }
    v
}
fn mutated(g: &mut Gen, file: &[u8], fs: &[(usize, usize, bool)]) -> Vec<u8> {
    let mut b = file.to_vec();
    let times = g.rng.range(1, 3);
    for _ in 0..times {
        match g.rng.below(10) {
            0 => {
                let n = g.rng.below(b.len() + 1);
                b.truncate(n);
            }
            1 if !b.is_empty() => {
                let i = g.rng.below(b.len());
                b[i] = g.rng.next() as u8;
            }
            2 if b.len() > 4 => {
                let i = g.rng.below(b.len() - 3);
                let n = g.rng.range(1, 3);
                b.drain(i..i + n);
            }
            3 if b.len() > 30 => {
                let i = g.rng.below(b.len());
                let n = g.rng.range(1, 30).min(b.len() - i);
                let part = b[i..i + n].to_vec();
                let at = g.rng.below(b.len());
                b.splice(at..at, part);
            }
            _ => {
                let (at, w, be) = *g.rng.pick(fs);
                let v = if g.rng.chance(80) { *g.rng.pick(&EXTREME) } else { g.rng.next() };
                patch(&mut b, at, w, v, be);
            }
        }
    }
    b
}
fn fuzz(id: &str, k: usize, r: Rng) -> Vec<J> {
    let mut g = Gen::new(r, Shape::plain());
    let mut out = vec![];
    let mut add = |b: &[u8], i: usize, e: &str| {
        out.push(obj(vec![("case", format!("{id}-{i}").into()), ("e", e.into()), ("b", bytes(b))]));
    };
    if k % 20 == 0 {
        // bytes out of nowhere
        for i in 0..40 {
            let n = g.rng.below(200);
            let mut b: Vec<u8> = (0..n).map(|_| g.rng.next() as u8).collect();
            if i % 2 == 0 && n > 28 {
                b[..4].copy_from_slice(b"TDSm");
                for x in &mut b[5..8] {
                    *x = 0;
                }
                b[4] &= 0x6e;
                for x in &mut b[14..20] {
                    *x = 0;
                }
            }
            add(&b, i, "fuzz");
        }
        return out;
    }
    let (e, segs) = base_file(&mut g);
    let fs = fields(&e, &segs);
    let mut i = 0;
    if k % 3 == 0 {
        // every number of the file, every extreme value
        for &(at, w, be) in &fs {
            for v in EXTREME {
                let mut b = e.out.clone();
                patch(&mut b, at, w, v, be);
                if b != e.out {
                    add(&b, i, "fuzz");
                    i += 1;
                }
            }
        }
        // two numbers that only together are dangerous
        for _ in 0..60 {
            let mut b = e.out.clone();
            let n = fs.len();
            let x = g.rng.below(n);
            let y = (x + g.rng.range(1, 8)) % n;
            for z in [x, y] {
                let (at, w, be) = fs[z];
                patch(&mut b, at, w, *g.rng.pick(&EXTREME), be);
            }
            add(&b, i, "fuzz");
            i += 1;
        }
    } else if k % 3 == 1 {
        for n in 0..e.out.len().min(700) {
            add(&e.out[..n], i, "fuzz");
            i += 1;
        }
    } else {
        for _ in 0..150 {
            let b = mutated(&mut g, &e.out, &fs);
            add(&b, i, "fuzz");
            i += 1;
        }
    }
    out
}

fn malformed(id: &str, k: usize, r: Rng) -> Vec<J> {
    let mut g = Gen::new(r, Shape::plain());
    let mut out = vec![];
    let mut f = Foreign::mixed();
    f.types = g.rng.subset(&DATA_TYPES, 4);
    for i in 0..14 {
        let before = g.rng.range(0, 3);
        let (kept, touched) = (g.chans.clone(), g.touched.clone());
        let mut segs = if before > 0 { g.segments(before, &f) } else { vec![] };
        let seen: Vec<Vec<u8>> = segs
            .iter()
            .flat_map(|s| s.at("objs").arr().iter().map(|o| o.at("p").bytes()).collect::<Vec<_>>())
            .collect();
        let be = g.rng.chance(50);
        let p = g.rng.pick(&g.chans.clone()).clone();
        let fresh = chan_path("fresh", "one");
        let kind = (k + i) % 16;
        let n = 2;
        let ty = *g.rng.pick(&DATA_TYPES);
        let raw_ix = J::Arr(vec!["raw".into(), ty.into(), J::Int(n)]);
        let good = g.obj_entry(&p, raw_ix.clone(), 50);
        let mut flags = (true, g.rng.chance(50), true, true); // new inter meta raw
        let mut objs = vec![good];
        let mut rawlen = types::size(ty) as i64 * n;
        match kind {
            1 => {
                // raw data but nothing active
                objs = vec![g.obj_entry(&p, J::Arr(vec!["none".into()]), 50)];
                if g.rng.chance(40) {
                    flags.2 = false;
                    objs.clear();
                } else if g.rng.chance(40) {
                    objs.clear();
                }
            }
            2 => rawlen = 0,
            3 => {
                // never had a format
                let q = if g.rng.chance(70) || seen.contains(&p) { fresh } else { p.clone() };
                let bad = g.obj_entry(&q, J::Arr(vec!["prev".into()]), 30);
                let at = g.rng.below(2);
                objs.insert(at, bad);
                flags.3 = g.rng.chance(60);
                flags.0 = g.rng.chance(50);
            }
            4 => {
                // only properties so far, then "as before"
                objs = vec![
                    g.obj_entry(&fresh, J::Arr(vec!["none".into()]), 90),
                ];
                let first = seg_j((false, false, true, false), be, objs.clone(), 0, 0);
                segs.push(first);
                objs = vec![g.obj_entry(&fresh, J::Arr(vec!["prev".into()]), 0)];
            }
            _ => {}
        }
        let base = g.base;
        if !flags.3 {
            rawlen = 0;
        }
        segs.push(seg_j(flags, be, objs, rawlen, base));
        let at = segs.len() - 1;
        if g.rng.chance(50) && kind != 13 {
            // something valid follows
            let ok = g.obj_entry(&p, raw_ix, 20);
            segs.push(seg_j((true, false, true, true), be, vec![ok], types::size(ty) as i64 * n, base));
        }
        let e = Encoder::file(&segs);
        let mut b = e.out.clone();
        let m = e.marks[at];
        let own: Vec<(usize, usize, bool)> = fields(&e, &segs)
            .into_iter()
            .filter(|f| f.0 >= m[0] as usize && f.0 < m[2] as usize)
            .collect();
        let path_len = own.get(6).copied();
        let ix = own.get(7).copied();
        match kind {
            0 => {
                // tag
                let j = m[0] as usize + g.rng.below(4);
                b[j] ^= 1 << g.rng.below(8);
            }
            5 => {
                // raw data offset beyond the segment
                let next = m[3] - m[1];
                let v = *g.rng.pick(&[next + 1, next + 100, 1 << 33, u64::MAX, i64::MAX as u64]);
                patch(&mut b, m[0] as usize + 20, 8, v, be);
            }
            6 => {
                // unknown sample type
                let (at, ..) = ix.unwrap();
                patch(&mut b, at + 4, 4, *g.rng.pick(&[0x0B00u64, 14, 15, 16, 0x1F, 0x22, 0x7777, 255]), be);
            }
            7 => {
                // acquisition hardware formats
                let (at, ..) = ix.unwrap();
                let v = *g.rng.pick(&[0x6912_0000u64, 0x6912_1234, 0x6912_FFFF, 0x6913_0000, 0x6913_FFFF]);
                patch(&mut b, at, 4, v, be);
            }
            8 => {
                // not UTF-8
                let (at, ..) = path_len.unwrap();
                let len = p.len();
                let j = at + 4 + g.rng.below(len);
                b[j] = *g.rng.pick(&[0xFF, 0xC0, 0x80, 0xF8, 0xE0]);
            }
            9 | 10 => {
                // a property whose type is unknown, unsupported, or whose text is not UTF-8
                let mut q = vec![];
                let name: &[u8] = if kind == 10 { &[b'x', 0xC3, b'y'] } else { b"xyz" };
                let val = if kind == 9 && g.rng.chance(40) {
                    let mut v = vec![];
                    let b4 = if be { 0x20u32.to_be_bytes() } else { 0x20u32.to_le_bytes() };
                    v.extend(b4);
                    v.extend(if be { 3u32.to_be_bytes() } else { 3u32.to_le_bytes() });
                    v.extend([b'a', 0xE2, 0x82]);
                    v
                } else {
                    let c: u32 = if kind == 10 { 3 } else { *g.rng.pick(&[14, 0x1E, 0x22, 0x45, 0x7FFF_FFFF, 0x4F, 0xFFFF_FFFF]) };
                    let mut v = if be { c.to_be_bytes() } else { c.to_le_bytes() }.to_vec();
                    v.extend([0u8; 16]);
                    v.truncate(if kind == 10 { 8 } else { 20 });
                    v
                };
                let o = obj(vec![("p", bytes(&p)), ("ix", J::Arr(vec!["none".into()])), ("props", J::Arr(vec![]))]);
                let s = seg_j((false, false, true, false), be, vec![o], 0, 0);
                let pe = Encoder::file(&[s]);
                q.extend(&pe.out);
                let cnt = q.len() - 4;
                patch(&mut q, cnt, 4, 1, be);
                let nl = name.len() as u32;
                q.extend(if be { nl.to_be_bytes() } else { nl.to_le_bytes() });
                q.extend(name);
                q.extend(val);
                let size = (q.len() - 28) as u64;
                patch(&mut q, 12, 8, size, be);
                patch(&mut q, 20, 8, size, be);
                let at = m[0] as usize;
                b.splice(at..at, q);
            }
            11 => {
                // addresses beyond 2^64
                let v = *g.rng.pick(&[u64::MAX, u64::MAX - 1, u64::MAX - 26, u64::MAX - 27]);
                patch(&mut b, m[0] as usize + 12, 8, v, be);
            }
            12 => {
                // counts larger than the metadata
                let (at, w, be) = *g.rng.pick(&own[5..]);
                patch(&mut b, at, w, *g.rng.pick(&[0x7FFF_FFFF, 0xFFFF_FFF0, 0x0100_0000]), be);
            }
            13 => {
                // metadata cut short
                let to = m[1] as usize + g.rng.below((m[2] - m[1]) as usize);
                b.truncate(to);
            }
            _ => {}
        }
        out.push(obj(vec![
            ("case", format!("{id}-{i}-{kind}").into()),
            ("e", "foreign".into()),
            ("b", bytes(&b)),
        ]));
        out.push(ev("explore", vec![("o", obj(vec![("most", J::Int(50)), ("tys", J::Arr(vec![types::native(ty).into(), "I32".into()]))]))]));
        g.chans = kept;
        g.touched = touched;
        g.data.clear();
    }
    out
}
fn seg_j(flags: (bool, bool, bool, bool), be: bool, objs: Vec<J>, rawlen: i64, base: i64) -> J {
    obj(vec![
        ("new", flags.0.into()),
        ("inter", flags.1.into()),
        ("be", be.into()),
        ("meta", flags.2.into()),
        ("raw", flags.3.into()),
        ("objs", J::Arr(objs)),
        ("rawlen", J::Int(rawlen)),
        ("src", J::Arr(vec!["tok".into(), J::Int(base)])),
    ])
}

fn cut(id: &str, k: usize, mut r: Rng) -> Vec<J> {
    let mut s = shape_for(k, &mut r);
    s.types = r.subset(&WRITE_TYPES, 2);
    s.big = 0;
    s.props = 15;
    s.channels = 3;
    s.refused = 0;
    let mut g = Gen::new(r, s);
    if k % 8 == 5 {
        return torn_disk(id, g, k, k % 16 == 5);
    }
    if k % 4 == 3 {
        // a file of another producer, cut
        let mut f = Foreign::mixed();
        f.props = 0;
        f.partial = 0;
        let n = g.rng.range(1, 3);
        let segs = g.segments(n, &f);
        let len = Encoder::file(&segs).out.len();
        g.case(id, "segs", vec![("segs", J::Arr(segs))], vec![("bytes", true.into())]);
        g.op("bytes", vec![("full", true.into()), ("app", false.into()), ("mark", true.into())]);
        return cuts(g, k, len);
    }
    start(&mut g, id, 0);
    let n = g.rng.range(2, 5);
    g.session(n);
    g.op("bytes", vec![("full", true.into()), ("app", true.into()), ("mark", true.into())]);
    // the size is not known here: dry run of the library is not wanted, so cut by guess;
    // positions beyond the end are skipped by the harness
    let len = 28 * n + 900;
    cuts(g, k, len)
}
fn cuts(mut g: Gen, k: usize, len: usize) -> Vec<J> {
    let step = [1, 3, 7][k % 3];
    let mut at = g.rng.below(step);
    let chans = g.chans.clone();
    while at <= len {
        g.op("cut", vec![("at", at.into())]);
        g.lens();
        let tys: Vec<(Vec<u8>, String)> = chans
            .iter()
            .filter_map(|p| g.data.get(p).and_then(|d| d.last()).map(|d| (p.clone(), types::native(&d.0).to_string())))
            .collect();
        if let Some((p, t)) = (!tys.is_empty()).then(|| g.rng.pick(&tys).clone()) {
            let from = g.rand_from(&p);
            let n = g.rand_len(&p, from);
            g.read_op(std::slice::from_ref(&p), &t, from, &[n]);
        }
        if g.rng.chance(30) {
            g.read_all();
        }
        if g.rng.chance(20) {
            g.op("groups", vec![]);
            g.all_props();
        }
        if g.rng.chance(10) {
            g.op("still", vec![]);
        }
        if g.rng.chance(50) {
            // carry on
            let (data, touched) = (g.data.clone(), g.touched.clone());
            g.lens();
            g.op("wopen", vec![]);
            let m = g.rng.range(1, 3);
            for _ in 0..m {
                g.mutate();
            }
            g.op("wdrop", vec![]);
            g.lens();
            if g.rng.chance(50) {
                g.read_all();
            }
            g.op("open", vec![]);
            g.lens();
            g.read_all();
            g.data = data;
            g.touched = touched;
        }
        at += step;
    }
    g.ops
}

fn append(id: &str, k: usize, mut r: Rng) -> Vec<J> {
    let mut s = shape_for(k, &mut r);
    s.snapshots = true;
    s.reads = 1;
    s.big = if k % 5 == 0 { 25 } else { 0 };
    let mut g = Gen::new(r, s);
    if k % 4 == 1 {
        let n = g.rng.below(300);
        let junk: Vec<u8> = if g.rng.chance(50) {
            let (e, _) = base_file(&mut g);
            e.out
        } else {
            (0..n).map(|_| g.rng.next() as u8).collect()
        };
        g.data.clear();
        g.touched.clear();
        g.case(id, "create", vec![], vec![("disk", true.into()), ("junk", bytes(&junk))]);
    } else if k % 4 == 2 {
        let f = Foreign::mixed();
        let n = g.rng.range(1, 3);
        let segs = g.segments(n, &f);
        g.case(id, "segs", vec![("segs", J::Arr(segs))], vec![("bytes", true.into())]);
    } else {
        start(&mut g, id, k);
    }
    let rounds = g.rng.range(1, 4);
    for _ in 0..rounds {
        let n = g.rng.range(0, 5);
        g.session(n);
        for _ in 0..2 {
            g.rand_read(3);
        }
        if g.rng.chance(40) {
            g.op("open", vec![]);
            g.lens();
        }
    }
    g.ops
}

fn refuse(id: &str, k: usize, mut r: Rng) -> Vec<J> {
    let mut s = shape_for(k, &mut r);
    s.refused = 45;
    s.snapshots = k % 2 == 0;
    s.props = 10;
    s.channels = 5;
    let mut g = Gen::new(r, s);
    start(&mut g, id, k);
    let rounds = g.rng.range(1, 3);
    for _ in 0..rounds {
        let n = g.rng.range(2, 9);
        g.session(n);
        g.observe();
        if g.rng.chance(30) {
            g.op("wopen", vec![]);
            g.refused();
            g.op("wdrop", vec![]);
            g.observe();
        }
        if g.rng.chance(50) {
            g.op("open", vec![]);
            g.observe();
        }
    }
    g.snapshot(true);
    g.ops
}

fn faults(id: &str, k: usize, mut r: Rng) -> Vec<J> {
    let mut s = shape_for(k, &mut r);
    s.big = if k % 8 < 2 { 30 } else { 0 };
    s.refused = 0;
    s.channels = 3;
    let seed = r.range(1, 1_000_000);
    let mut g = Gen::new(r, s);
    match k % 8 {
        6 => return torn_disk(id, g, seed, false),
        7 => return long_text(id, g, seed),
        0 => {
            // the same script with and without split I/O
            g.op("new", vec![]);
            for _ in 0..2 {
                let n = g.rng.range(1, 5);
                g.session(n);
                g.observe();
                g.op("open", vec![]);
            }
            g.observe();
            let inner = std::mem::take(&mut g.ops);
            g.case(id, "same", vec![("seed", seed.into()), ("script", J::Arr(inner))], vec![]);
        }
        1 => {
            // split I/O, judged directly
            if g.rng.chance(50) {
                g.case(id, "new", vec![], vec![("split", seed.into())]);
                let n = g.rng.range(1, 6);
                g.session(n);
            } else {
                let f = Foreign::mixed();
                let n = g.rng.range(1, 5);
                let segs = g.segments(n, &f);
                g.case(id, "segs", vec![("segs", J::Arr(segs))], vec![("split", seed.into())]);
            }
            g.observe();
            g.op("open", vec![]);
            g.observe();
        }
        2 | 3 => {
            // read errors at every operation of opening and reading
            if k % 2 == 0 {
                start(&mut g, id, 0);
                let n = g.rng.range(2, 5);
                g.session(n);
            } else {
                let f = Foreign::mixed();
                let n = g.rng.range(1, 5);
                let segs = g.segments(n, &f);
                g.case(id, "segs", vec![("segs", J::Arr(segs))], vec![]);
            }
            let kinds = ["other", "broken", "denied", "timeout", "block"];
            for after in 0..24 {
                let kind = *g.rng.pick(&kinds);
                let count = if g.rng.chance(50) { 1 } else { 1000 };
                let (op, after) = if g.rng.chance(30) { ("seek", after / 4) } else { ("read", after) };
                g.direct(
                    "fault",
                    vec![("op", op.into()), ("after", J::Int(after)), ("kind", kind.into()), ("count", J::Int(count))],
                );
                g.op("tryopen", vec![]);
                g.direct("heal", vec![]);
                g.op("open", vec![]);
                g.lens();
            }
            for _ in 0..16 {
                let at = g.ops.len();
                g.rand_read(3);
                let read = g.ops.pop().unwrap();
                g.ops.truncate(at);
                let after = g.rng.below(8);
                let kind = *g.rng.pick(&kinds);
                let count = if g.rng.chance(50) { 1 } else { 1000 };
                let (op, after) = if g.rng.chance(30) { ("seek", after / 2) } else { ("read", after) };
                g.direct(
                    "fault",
                    vec![("op", op.into()), ("after", after.into()), ("kind", kind.into()), ("count", J::Int(count))],
                );
                g.ops.push(read.clone());
                g.direct("heal", vec![]);
                // the same read again
                g.ops.push(read);
            }
        }
        _ => {
            // write errors
            let seg = k % 2 == 0;
            if seg {
                let f = Foreign::mixed();
                let n = g.rng.range(1, 3);
                let segs = g.segments(n, &f);
                g.case(id, "segs", vec![("segs", J::Arr(segs))], vec![("bytes", true.into())]);
            } else {
                start(&mut g, id, 0);
                let n = g.rng.range(1, 3);
                g.session(n);
            }
            g.snapshot(true);
            let rounds = g.rng.range(1, 4);
            for _ in 0..rounds {
                g.op("wopen", vec![]);
                if g.rng.chance(50) {
                    g.mutate();
                    g.op("sync", vec![]);
                    g.snapshot(true);
                }
                let kind = *g.rng.pick(&["other", "broken", "denied", "timeout", "zero", "cap", "cap"]);
                let after = g.rng.below(4);
                if kind == "cap" {
                    let n = g.rng.range(0, 200);
                    g.direct("cap", vec![("n", n.into())]);
                } else {
                    g.direct("fault", vec![("op", "write".into()), ("after", after.into()), ("kind", kind.into())]);
                }
                // one failing attempt, forced out by its size or by sync
                let (data, touched) = (g.data.clone(), g.touched.clone());
                let list = g.chans.clone();
                let ty = *g.rng.pick(&g.shape.types.clone());
                let big = g.rng.chance(50);
                let per = if big { 9000 / types::size(ty) + g.rng.range(1, 50) } else { g.rng.range(1, 5) };
                let inter = g.rng.chance(50);
                g.write_of(&list, ty, per, inter);
                g.data = data;
                g.touched = touched;
                let end = g.rng.below(3);
                if end == 0 {
                    g.op("sync", vec![]);
                }
                if end == 1 {
                    // the medium recovers before the writer is closed
                    g.direct("heal", vec![]);
                }
                g.op("wdrop", vec![]);
                g.direct("heal", vec![]);
                g.snapshot(false);
                // what was stored before is still there
                g.op("foreign", vec![("o", obj(vec![("back", true.into())]))]);
                g.lens();
                g.listings();
                g.rand_read(3);
                g.all_props();
                g.op("explore", vec![("o", obj(vec![("most", J::Int(100))]))]);
            }
        }
    }
    g.ops
}

/// Files with an incomplete end, on disk or under a splitting stream: what lies in them
/// is read, and nothing is changed by it.
fn torn_disk(id: &str, mut g: Gen, seed: usize, disk: bool) -> Vec<J> {
    let mut f = Foreign::mixed();
    f.props = 10;
    f.partial = 10;
    f.data = 95;
    let n = g.rng.range(1, 4);
    let segs = g.segments(n, &f);
    let e = Encoder::file(&segs);
    let last = *e.marks.last().expect("segments");
    let mut b = e.out;
    match g.rng.below(5) {
        0 => {
            let at = g.rng.range(last[0] as usize, last[3] as usize);
            b.truncate(at);
        }
        1 => {
            let n = g.rng.range(1, 40);
            let next = [b"TDSm".to_vec(), vec![0; 40]].concat();
            b.extend(&next[..n]);
        }
        _ => {
            let at = g.rng.range(last[2] as usize, last[3] as usize);
            b.truncate(at);
        }
    }
    let how = if disk {
        vec![("disk", true.into())]
    } else if g.rng.chance(50) {
        vec![("split", seed.into())]
    } else {
        vec![]
    };
    g.case(id, "foreign", vec![("b", bytes(&b))], how);
    g.lens();
    for _ in 0..6 {
        g.rand_read(3);
    }
    g.read_all();
    g.listings();
    g.op("still", vec![]);
    g.op("open", vec![]);
    g.lens();
    g.read_all();
    g.op("still", vec![]);
    g.ops
}
/// Texts longer than any buffer on the way.
fn long_text(id: &str, mut g: Gen, seed: usize) -> Vec<J> {
    g.case(id, "new", vec![], vec![("split", seed.into())]);
    g.op("wopen", vec![]);
    let n = g.rng.range(1, 3);
    for _ in 0..n {
        if g.rng.chance(50) {
            g.mutate();
        }
        let p = g.any_path();
        let len = *g.rng.pick(&[8191usize, 8192, 8193, 9000, 12000]);
        let base = g.rng.below(26);
        let t: Vec<u8> = (0..len).map(|i| b'a' + ((base + i + i / 26) % 26) as u8).collect();
        let mut kv = vec![J::Arr(vec![bytes(b"long"), J::Arr(vec!["Str".into(), bytes(&t)])])];
        if g.rng.chance(50) {
            kv.push(J::Arr(vec![bytes(b"next"), g.value()]));
        }
        if !g.touched.contains(&p) {
            g.touched.push(p.clone());
        }
        g.op("props", vec![("path", bytes(&p)), ("kv", J::Arr(kv))]);
    }
    g.mutate();
    g.op("wdrop", vec![]);
    g.op("open", vec![]);
    g.observe();
    g.ops
}

fn frugal(id: &str, k: usize, mut r: Rng) -> Vec<J> {
    if k % 6 == 5 {
        return huge(id, r, true);
    }
    if k % 12 == 3 {
        return vast(id, r, 3, true, false);
    }
    if k % 6 == 4 {
        let mut s = shape_for(k / 6, &mut r);
        s.big = 0;
        let seed = r.range(1, 1_000_000);
        return torn_disk(id, Gen::new(r, s), seed, true);
    }
    let mut g = Gen::new(r, Shape::plain());
    g.chans = ["a", "b", "c"].iter().map(|c| chan_path("g", c)).collect();
    let mut f = Foreign::mixed();
    f.types = vec!["F64", "I64", "C128"];
    f.types = g.rng.subset(&f.types, 1);
    f.same_type = 100;
    f.props = 5;
    f.partial = 0;
    f.data = 90;
    f.nometa = 25;
    f.lens = vec![4, 100];
    f.big = 70;
    f.big_n = 60_000;
    f.chunks = 1;
    let n = g.rng.range(2, 6);
    let segs = g.segments(n, &f);
    g.case(id, "segs", vec![("segs", J::Arr(segs))], vec![("rd", true.into())]);
    g.lens();
    for _ in 0..12 {
        g.rand_read(3);
    }
    g.listings();
    g.all_props();
    for p in g.chans.clone() {
        // first and last samples
        let len: u64 = g.data.get(&p).map_or(0, |d| d.iter().map(|x| x.1).sum());
        let t = f.types[0];
        g.read_op(std::slice::from_ref(&p), t, 0, &[3]);
        g.read_op(std::slice::from_ref(&p), t, len.saturating_sub(3), &[3]);
        g.read_op(std::slice::from_ref(&p), t, len / 2, &[10]);
        g.read_op(std::slice::from_ref(&p), t, len, &[3]);
    }
    g.ops
}
