//! The sample types: token images, bit access and the run representation of buffers.
//! Mirrors spec/TdmsTypes.tla and spec/TdmsRuns.tla; nothing here uses the library's codecs.

use labview_interop::types::LVTime;
use tedium::types::{Complex, ExtendedRaw};
use tedium::{PropertyValue, TdmsStorageType};

pub const WRITE_TYPES: [&str; 15] = [
    "I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64", "F32", "F64", "Bool", "Ext", "Time",
    "C64", "C128",
];
pub const DATA_TYPES: [&str; 18] = [
    "I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64", "F32", "F64", "Bool", "Ext", "Time",
    "C64", "C128", "F32U", "F64U", "ExtU",
];

/// (code, size, swap unit)
pub fn info(t: &str) -> (u32, usize, usize) {
    match t {
        "Void" => (0, 0, 1),
        "I8" => (1, 1, 1),
        "I16" => (2, 2, 2),
        "I32" => (3, 4, 4),
        "I64" => (4, 8, 8),
        "U8" => (5, 1, 1),
        "U16" => (6, 2, 2),
        "U32" => (7, 4, 4),
        "U64" => (8, 8, 8),
        "F32" => (9, 4, 4),
        "F64" => (10, 8, 8),
        "Ext" => (11, 10, 10),
        "F64U" => (26, 8, 8),
        "ExtU" => (27, 10, 10),
        "F32U" => (0x19, 4, 4),
        "Str" => (0x20, 0, 1),
        "Bool" => (0x21, 1, 1),
        "Time" => (0x44, 16, 16),
        "Fixed" => (0x4F, 8, 8),
        "C64" => (0x0008_000c, 8, 4),
        "C128" => (0x0010_000d, 16, 8),
        _ => panic!("script: type {t}"),
    }
}
pub fn size(t: &str) -> usize {
    info(t).1
}
/// The type whose values a stored type is read as.
pub fn native(t: &str) -> &str {
    match t {
        "F32U" => "F32",
        "F64U" => "F64",
        "ExtU" => "Ext",
        t => t,
    }
}
pub fn modulus(t: &str) -> i64 {
    match (t, size(t)) {
        ("Bool", _) => 2,
        (_, 1) => 256,
        (_, 2) => 65536,
        _ => 0,
    }
}

/// Tokens of the wider types for values that arithmetic or formatting would not preserve.
pub const SPECIAL: i64 = 0x7F00_0000;
const SPECIALS: i64 = 7;
fn special(unit: u64, j: i64, i: u64) -> u8 {
    let q = i % unit + 1;
    let (last, next) = (q == unit, q == unit - 1);
    let pick = |f: u8, g: u8| if last { f } else if next { g } else { 0 };
    match j {
        0 => 0,
        1 => 255,
        2 => pick(128, 0),
        3 => pick(127, if unit == 4 { 160 } else { 244 }),
        4 => (q == 1) as u8,
        5 => pick(127, if unit == 4 { 128 } else { 240 }),
        _ => pick(255, 248) | (q == 1) as u8,
    }
}
/// A first token for samples of this type among which are such values.
pub fn special_base(t: &str, n: u64) -> i64 {
    if size(t) == 4 {
        let v = [0x8000_0000u32, 0x7FA0_0000, 0x7F80_0000, 0x7FC0_0001, 0x8000_0001, 0x7F7F_FFFF];
        tok_of(t, &v[n as usize % v.len()].to_le_bytes())
    } else {
        SPECIAL + n as i64 % SPECIALS
    }
}

pub fn tok_le(t: &str, k: i64) -> Vec<u8> {
    if t == "Bool" {
        return vec![(k % 2) as u8];
    }
    if size(t) >= 8 && (SPECIAL..SPECIAL + SPECIALS).contains(&k) {
        return (0..size(t)).map(|i| special(info(t).2 as u64, k - SPECIAL, i as u64)).collect();
    }
    let kb = (k as u32).to_le_bytes();
    (0..size(t))
        .map(|i| ((kb[i % 4] as usize + 37 * i) % 256) as u8)
        .collect()
}
pub fn swap(t: &str, b: &[u8]) -> Vec<u8> {
    let u = info(t).2;
    b.chunks(u).flat_map(|c| c.iter().rev().copied()).collect()
}
pub fn tok_bytes(t: &str, k: i64, be: bool) -> Vec<u8> {
    let b = tok_le(t, k);
    if be { swap(t, &b) } else { b }
}
/// Byte q of the image of token k, for a type of this name's layout.
#[derive(Clone, Copy)]
pub struct Image {
    pub size: u64,
    unit: u64,
    bool_: bool,
}
impl Image {
    pub fn of(t: &str) -> Image {
        let (_, s, u) = info(t);
        Image { size: s as u64, unit: u as u64, bool_: t == "Bool" }
    }
    pub fn byte(&self, k: i64, be: bool, q: u64) -> u8 {
        if self.bool_ {
            return (k % 2) as u8;
        }
        let i = if be { q / self.unit * self.unit + (self.unit - 1 - q % self.unit) } else { q };
        if self.size >= 8 && (SPECIAL..SPECIAL + SPECIALS).contains(&k) {
            return special(self.unit, k - SPECIAL, i);
        }
        ((((k as u32) >> (8 * (i % 4))) & 255) as u64 + 37 * i) as u8
    }
}
pub const UNTOUCHED: i64 = -1;
pub const FOREIGN: i64 = -2;
pub fn tok_of(t: &str, le: &[u8]) -> i64 {
    if t == "Bool" {
        return if le[0] < 2 { le[0] as i64 } else { FOREIGN };
    }
    let d: Vec<i64> = le
        .iter()
        .enumerate()
        .map(|(i, b)| (*b as i64 - ((37 * i) % 256) as i64 + 256) % 256)
        .collect();
    let w = d.len();
    if (w >= 4 && d[3] >= 128) || (4..w).any(|i| d[i] != d[i % 4]) {
        let same = |j: &i64| w >= 8 && tok_le(t, SPECIAL + j) == le;
        return (0..SPECIALS).find(same).map_or(FOREIGN, |j| SPECIAL + j);
    }
    let mut k = d[0];
    if w >= 2 {
        k += 256 * d[1];
    }
    if w >= 4 {
        k += 65536 * d[2] + 16777216 * d[3];
    }
    k
}

/// Compress tokens into runs <<first, step, count>>; steps are modulo the type's value space.
pub fn runs(t: &str, toks: &[i64]) -> Vec<[i64; 3]> {
    let m = modulus(t);
    let mut out: Vec<[i64; 3]> = vec![];
    for &k in toks {
        if let Some(r) = out.last_mut() {
            if k < 0 || r[0] < 0 {
                if k == r[0] {
                    r[2] += 1;
                    continue;
                }
            } else if r[2] == 1 {
                let s = k - r[0];
                let s = if m > 0 { s.rem_euclid(m) } else { s };
                if s > 0 && s <= 100_000 {
                    r[1] = s;
                    r[2] = 2;
                    continue;
                }
            } else {
                let want = r[0] + r[1] * r[2];
                let hit = if m > 0 { (k - want).rem_euclid(m) == 0 } else { k == want };
                if hit {
                    r[2] += 1;
                    continue;
                }
            }
        }
        out.push([k, 0, 1]);
    }
    out
}

pub trait Sample: TdmsStorageType + Clone {
    const NAME: &'static str;
    fn dec(b: &[u8]) -> Self;
    fn enc(&self) -> Vec<u8>;
}
macro_rules! int_sample {
    ($t:ty, $n:expr) => {
        impl Sample for $t {
            const NAME: &'static str = $n;
            fn dec(b: &[u8]) -> Self {
                <$t>::from_le_bytes(b.try_into().unwrap())
            }
            fn enc(&self) -> Vec<u8> {
                self.to_le_bytes().to_vec()
            }
        }
    };
}
int_sample!(i8, "I8");
int_sample!(i16, "I16");
int_sample!(i32, "I32");
int_sample!(i64, "I64");
int_sample!(u8, "U8");
int_sample!(u16, "U16");
int_sample!(u32, "U32");
int_sample!(u64, "U64");
impl Sample for f32 {
    const NAME: &'static str = "F32";
    fn dec(b: &[u8]) -> Self {
        f32::from_bits(u32::from_le_bytes(b.try_into().unwrap()))
    }
    fn enc(&self) -> Vec<u8> {
        self.to_bits().to_le_bytes().to_vec()
    }
}
impl Sample for f64 {
    const NAME: &'static str = "F64";
    fn dec(b: &[u8]) -> Self {
        f64::from_bits(u64::from_le_bytes(b.try_into().unwrap()))
    }
    fn enc(&self) -> Vec<u8> {
        self.to_bits().to_le_bytes().to_vec()
    }
}
impl Sample for bool {
    const NAME: &'static str = "Bool";
    fn dec(b: &[u8]) -> Self {
        b[0] % 2 == 1
    }
    fn enc(&self) -> Vec<u8> {
        vec![*self as u8]
    }
}
impl Sample for LVTime {
    const NAME: &'static str = "Time";
    fn dec(b: &[u8]) -> Self {
        LVTime::from_parts(
            i64::from_le_bytes(b[8..16].try_into().unwrap()),
            u64::from_le_bytes(b[0..8].try_into().unwrap()),
        )
    }
    fn enc(&self) -> Vec<u8> {
        let (s, f) = self.to_parts();
        let mut v = f.to_le_bytes().to_vec();
        v.extend(s.to_le_bytes());
        v
    }
}
impl Sample for Complex<f32> {
    const NAME: &'static str = "C64";
    fn dec(b: &[u8]) -> Self {
        Complex::new(f32::dec(&b[0..4]), f32::dec(&b[4..8]))
    }
    fn enc(&self) -> Vec<u8> {
        let mut v = self.real.enc();
        v.extend(self.imaginary.enc());
        v
    }
}
impl Sample for Complex<f64> {
    const NAME: &'static str = "C128";
    fn dec(b: &[u8]) -> Self {
        Complex::new(f64::dec(&b[0..8]), f64::dec(&b[8..16]))
    }
    fn enc(&self) -> Vec<u8> {
        let mut v = self.real.enc();
        v.extend(self.imaginary.enc());
        v
    }
}
impl Sample for ExtendedRaw {
    const NAME: &'static str = "Ext";
    fn dec(b: &[u8]) -> Self {
        let mut x = [0u8; 16];
        x[..10].copy_from_slice(&b[..10]);
        ExtendedRaw::new(u128::from_le_bytes(x))
    }
    /// 10 bytes, or 16 when the value does not fit in them.
    fn enc(&self) -> Vec<u8> {
        let s = format!("{self:?}");
        let digits: String = s.chars().filter(|c| c.is_ascii_digit()).collect();
        let v: u128 = digits.parse().expect("extended value");
        let b = v.to_le_bytes();
        if v >> 80 == 0 { b[..10].to_vec() } else { b.to_vec() }
    }
}

#[macro_export]
macro_rules! with_type {
    ($name:expr, $T:ident => $body:expr) => {
        match $name {
            "I8" => { type $T = i8; $body }
            "I16" => { type $T = i16; $body }
            "I32" => { type $T = i32; $body }
            "I64" => { type $T = i64; $body }
            "U8" => { type $T = u8; $body }
            "U16" => { type $T = u16; $body }
            "U32" => { type $T = u32; $body }
            "U64" => { type $T = u64; $body }
            "F32" => { type $T = f32; $body }
            "F64" => { type $T = f64; $body }
            "Bool" => { type $T = bool; $body }
            "Ext" => { type $T = tedium::types::ExtendedRaw; $body }
            "Time" => { type $T = labview_interop::types::LVTime; $body }
            "C64" => { type $T = tedium::types::Complex<f32>; $body }
            "C128" => { type $T = tedium::types::Complex<f64>; $body }
            other => panic!("script: type {other}"),
        }
    };
}

pub fn prop_value(t: &str, b: &[u8]) -> PropertyValue {
    match t {
        "Void" => PropertyValue::Void,
        "Str" => PropertyValue::String(String::from_utf8(b.to_vec()).expect("script: utf8")),
        "Bool" => PropertyValue::Boolean(bool::dec(b)),
        "I8" => PropertyValue::I8(i8::dec(b)),
        "I16" => PropertyValue::I16(i16::dec(b)),
        "I32" => PropertyValue::I32(i32::dec(b)),
        "I64" => PropertyValue::I64(i64::dec(b)),
        "U8" => PropertyValue::U8(u8::dec(b)),
        "U16" => PropertyValue::U16(u16::dec(b)),
        "U32" => PropertyValue::U32(u32::dec(b)),
        "U64" => PropertyValue::U64(u64::dec(b)),
        "F32" => PropertyValue::SingleFloat(f32::dec(b)),
        "F64" => PropertyValue::DoubleFloat(f64::dec(b)),
        "Ext" => PropertyValue::Extended(ExtendedRaw::dec(b)),
        "Time" => PropertyValue::Timestamp(LVTime::dec(b)),
        "C64" => PropertyValue::ComplexSingleFloat(Complex::<f32>::dec(b)),
        "C128" => PropertyValue::ComplexDoubleFloat(Complex::<f64>::dec(b)),
        _ => panic!("script: property type {t}"),
    }
}
pub fn prop_bytes(v: &PropertyValue) -> (&'static str, Vec<u8>) {
    match v {
        PropertyValue::Void => ("Void", vec![]),
        PropertyValue::String(s) => ("Str", s.as_bytes().to_vec()),
        PropertyValue::Boolean(x) => ("Bool", x.enc()),
        PropertyValue::I8(x) => ("I8", x.enc()),
        PropertyValue::I16(x) => ("I16", x.enc()),
        PropertyValue::I32(x) => ("I32", x.enc()),
        PropertyValue::I64(x) => ("I64", x.enc()),
        PropertyValue::U8(x) => ("U8", x.enc()),
        PropertyValue::U16(x) => ("U16", x.enc()),
        PropertyValue::U32(x) => ("U32", x.enc()),
        PropertyValue::U64(x) => ("U64", x.enc()),
        PropertyValue::SingleFloat(x) => ("F32", x.enc()),
        PropertyValue::DoubleFloat(x) => ("F64", x.enc()),
        PropertyValue::Extended(x) => ("Ext", x.enc()),
        PropertyValue::Timestamp(x) => ("Time", x.enc()),
        PropertyValue::ComplexSingleFloat(x) => ("C64", x.enc()),
        PropertyValue::ComplexDoubleFloat(x) => ("C128", x.enc()),
    }
}
