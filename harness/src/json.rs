//! A small JSON reader and writer: scripts come in and traces go out as JSON lines.

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Int(i64),
    Bool(bool),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    /// Replace or add a field.
    pub fn set(&mut self, key: &str, value: J) {
        let J::Obj(fields) = self else { panic!("set {key}: not an object") };
        match fields.iter_mut().find(|(k, _)| k == key) {
            Some(f) => f.1 = value,
            None => fields.push((key.into(), value)),
        }
    }
    pub fn get(&self, key: &str) -> Option<&J> {
        match self {
            J::Obj(fields) => fields.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn at(&self, key: &str) -> &J {
        self.get(key)
            .unwrap_or_else(|| panic!("script: no field {key} in {}", self.text()))
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            _ => panic!("script: not an integer: {}", self.text()),
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("script: not a string: {}", self.text()),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => panic!("script: not an array: {}", self.text()),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|x| x.int() as u8).collect()
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::Int(i) => out.push_str(&i.to_string()),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 32 || (c as u32) > 126 => out.push('?'),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('"');
                    out.push_str(k);
                    out.push_str("\":");
                    v.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn parse(text: &str) -> J {
        let b = text.as_bytes();
        let mut p = 0;
        let v = parse(b, &mut p);
        ws(b, &mut p);
        assert!(p == b.len(), "script: trailing input");
        v
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}

fn parse(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut o = vec![];
            loop {
                ws(b, p);
                match b[*p] {
                    b'}' => {
                        *p += 1;
                        return J::Obj(o);
                    }
                    b',' => *p += 1,
                    _ => {
                        let k = match parse(b, p) {
                            J::Str(s) => s,
                            _ => panic!("script: key"),
                        };
                        ws(b, p);
                        assert!(b[*p] == b':');
                        *p += 1;
                        o.push((k, parse(b, p)));
                    }
                }
            }
        }
        b'[' => {
            *p += 1;
            let mut a = vec![];
            loop {
                ws(b, p);
                match b[*p] {
                    b']' => {
                        *p += 1;
                        return J::Arr(a);
                    }
                    b',' => *p += 1,
                    _ => a.push(parse(b, p)),
                }
            }
        }
        b'"' => {
            *p += 1;
            let mut s = vec![];
            while b[*p] != b'"' {
                if b[*p] == b'\\' {
                    *p += 1;
                }
                s.push(b[*p]);
                *p += 1;
            }
            *p += 1;
            J::Str(String::from_utf8(s).expect("script: utf8"))
        }
        b't' => {
            *p += 4;
            J::Bool(true)
        }
        b'f' => {
            *p += 5;
            J::Bool(false)
        }
        _ => {
            let start = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            J::Int(
                std::str::from_utf8(&b[start..*p])
                    .unwrap()
                    .parse()
                    .unwrap_or_else(|_| panic!("script: number at {start}")),
            )
        }
    }
}

impl From<i64> for J {
    fn from(x: i64) -> J {
        J::Int(x)
    }
}
impl From<usize> for J {
    fn from(x: usize) -> J {
        J::Int(x as i64)
    }
}
impl From<bool> for J {
    fn from(x: bool) -> J {
        J::Bool(x)
    }
}
impl From<&str> for J {
    fn from(x: &str) -> J {
        J::Str(x.to_string())
    }
}
impl From<String> for J {
    fn from(x: String) -> J {
        J::Str(x)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(x: Vec<T>) -> J {
        J::Arr(x.into_iter().map(Into::into).collect())
    }
}
pub fn bytes(b: &[u8]) -> J {
    J::Arr(b.iter().map(|x| J::Int(*x as i64)).collect())
}
pub fn obj(fields: Vec<(&str, J)>) -> J {
    J::Obj(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
