//! A small JSON reader and writer for plans, traces and evidence.

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        if let J::Obj(v) = self {
            for (n, x) in v {
                if n == k {
                    return x;
                }
            }
        }
        &J::Null
    }
    pub fn str(&self) -> &str {
        if let J::Str(s) = self { s } else { "" }
    }
    pub fn write(&self, out: &mut String, indent: Option<usize>) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => out.push_str(&i.to_string()),
            J::Num(f) => out.push_str(&format!("{f:.3}")),
            J::Str(s) => write_str(s, out),
            J::Arr(v) => {
                let flat = indent.is_none() || v.iter().all(|x| !matches!(x, J::Arr(_) | J::Obj(_)));
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                        if flat && indent.is_some() {
                            out.push(' ');
                        }
                    }
                    let ind = if flat { None } else { indent.map(|n| n + 1) };
                    nl(out, ind);
                    x.write(out, ind);
                }
                if !flat && !v.is_empty() {
                    nl(out, indent);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    let ind = indent.map(|n| n + 1);
                    nl(out, ind);
                    write_str(k, out);
                    out.push(':');
                    if ind.is_some() {
                        out.push(' ');
                    }
                    x.write(out, ind);
                }
                if !v.is_empty() {
                    nl(out, indent);
                }
                out.push('}');
            }
        }
    }
    pub fn compact(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, None);
        s
    }
    pub fn pretty(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, Some(0));
        s.push('\n');
        s
    }
    pub fn parse(s: &str) -> Option<J> {
        let b = s.as_bytes();
        let mut p = 0;
        let j = parse(b, &mut p)?;
        ws(b, &mut p);
        if p == b.len() { Some(j) } else { None }
    }
}

fn nl(out: &mut String, indent: Option<usize>) {
    if let Some(n) = indent {
        out.push('\n');
        for _ in 0..n {
            out.push(' ');
        }
    }
}

fn write_str(s: &str, out: &mut String) {
    out.push('"');
    let mut last = 0;
    let b = s.as_bytes();
    for (i, &c) in b.iter().enumerate() {
        if c == b'"' || c == b'\\' || c < 0x20 {
            out.push_str(&s[last..i]);
            last = i + 1;
            match c {
                b'"' => out.push_str("\\\""),
                b'\\' => out.push_str("\\\\"),
                b'\n' => out.push_str("\\n"),
                b'\r' => out.push_str("\\r"),
                b'\t' => out.push_str("\\t"),
                _ => out.push_str(&format!("\\u{c:04x}")),
            }
        }
    }
    out.push_str(&s[last..]);
    out.push('"');
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && matches!(b[*p], b' ' | b'\n' | b'\r' | b'\t') {
        *p += 1;
    }
}

fn lit(b: &[u8], p: &mut usize, w: &str, j: J) -> Option<J> {
    if b[*p..].starts_with(w.as_bytes()) {
        *p += w.len();
        Some(j)
    } else {
        None
    }
}

fn parse(b: &[u8], p: &mut usize) -> Option<J> {
    ws(b, p);
    match *b.get(*p)? {
        b'n' => lit(b, p, "null", J::Null),
        b't' => lit(b, p, "true", J::Bool(true)),
        b'f' => lit(b, p, "false", J::Bool(false)),
        b'"' => Some(J::Str(parse_str(b, p)?)),
        b'[' => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            if *b.get(*p)? == b']' {
                *p += 1;
                return Some(J::Arr(v));
            }
            loop {
                v.push(parse(b, p)?);
                ws(b, p);
                match *b.get(*p)? {
                    b',' => *p += 1,
                    b']' => {
                        *p += 1;
                        return Some(J::Arr(v));
                    }
                    _ => return None,
                }
            }
        }
        b'{' => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            if *b.get(*p)? == b'}' {
                *p += 1;
                return Some(J::Obj(v));
            }
            loop {
                ws(b, p);
                if *b.get(*p)? != b'"' {
                    return None;
                }
                let k = parse_str(b, p)?;
                ws(b, p);
                if *b.get(*p)? != b':' {
                    return None;
                }
                *p += 1;
                v.push((k, parse(b, p)?));
                ws(b, p);
                match *b.get(*p)? {
                    b',' => *p += 1,
                    b'}' => {
                        *p += 1;
                        return Some(J::Obj(v));
                    }
                    _ => return None,
                }
            }
        }
        _ => {
            let s = *p;
            while *p < b.len() && matches!(b[*p], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[s..*p]).ok()?;
            if let Ok(i) = t.parse::<i128>() {
                Some(J::Int(i))
            } else {
                t.parse::<f64>().ok().map(J::Num)
            }
        }
    }
}

fn parse_str(b: &[u8], p: &mut usize) -> Option<String> {
    *p += 1;
    let mut out: Vec<u8> = vec![];
    loop {
        let c = *b.get(*p)?;
        *p += 1;
        match c {
            b'"' => return String::from_utf8(out).ok(),
            b'\\' => {
                let e = *b.get(*p)?;
                *p += 1;
                match e {
                    b'n' => out.push(b'\n'),
                    b'r' => out.push(b'\r'),
                    b't' => out.push(b'\t'),
                    b'b' => out.push(8),
                    b'f' => out.push(12),
                    b'u' => {
                        let mut v = hex4(b, p)?;
                        if (0xD800..0xDC00).contains(&v) && b[*p..].starts_with(b"\\u") {
                            *p += 2;
                            let lo = hex4(b, p)?;
                            v = 0x10000 + ((v - 0xD800) << 10) + (lo.wrapping_sub(0xDC00) & 0x3ff);
                        }
                        let ch = char::from_u32(v)?;
                        let mut buf = [0; 4];
                        out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                    }
                    x => out.push(x),
                }
            }
            c => out.push(c),
        }
    }
}

fn hex4(b: &[u8], p: &mut usize) -> Option<u32> {
    let t = std::str::from_utf8(b.get(*p..*p + 4)?).ok()?;
    *p += 4;
    u32::from_str_radix(t, 16).ok()
}

/// Conversion to and from JSON.
pub trait Js: Sized {
    fn to(&self) -> J;
    fn read(j: &J) -> Option<Self>;
}

impl Js for String {
    fn to(&self) -> J {
        J::Str(self.clone())
    }
    fn read(j: &J) -> Option<Self> {
        if let J::Str(s) = j { Some(s.clone()) } else { None }
    }
}
impl Js for bool {
    fn to(&self) -> J {
        J::Bool(*self)
    }
    fn read(j: &J) -> Option<Self> {
        match j {
            J::Bool(b) => Some(*b),
            J::Null => Some(false),
            _ => None,
        }
    }
}
macro_rules! ints { ($($t:ty),*) => { $(impl Js for $t {
    fn to(&self) -> J { J::Int(*self as i128) }
    fn read(j: &J) -> Option<Self> { match j { J::Int(i) => Some(*i as $t), J::Null => Some(0), _ => None } }
})* } }
ints!(u8, u32, u64, usize, i64);

impl<T: Js> Js for Vec<T> {
    fn to(&self) -> J {
        J::Arr(self.iter().map(|x| x.to()).collect())
    }
    fn read(j: &J) -> Option<Self> {
        match j {
            J::Arr(v) => v.iter().map(|x| T::read(x)).collect(),
            J::Null => Some(vec![]),
            _ => None,
        }
    }
}
impl<T: Js> Js for Option<T> {
    fn to(&self) -> J {
        self.as_ref().map_or(J::Null, |x| x.to())
    }
    fn read(j: &J) -> Option<Self> {
        if *j == J::Null { Some(None) } else { T::read(j).map(Some) }
    }
}
impl<A: Js, B: Js> Js for (A, B) {
    fn to(&self) -> J {
        J::Arr(vec![self.0.to(), self.1.to()])
    }
    fn read(j: &J) -> Option<Self> {
        match j {
            J::Arr(v) if v.len() == 2 => Some((A::read(&v[0])?, B::read(&v[1])?)),
            _ => None,
        }
    }
}

#[macro_export]
macro_rules! js_struct {
    ($n:ident { $($f:ident),* $(,)? }) => {
        impl $crate::json::Js for $n {
            fn to(&self) -> $crate::json::J {
                $crate::json::J::Obj(vec![$((stringify!($f).to_string(), $crate::json::Js::to(&self.$f))),*])
            }
            fn read(j: &$crate::json::J) -> Option<Self> {
                Some($n { $($f: $crate::json::Js::read(j.get(stringify!($f)))?),* })
            }
        }
    };
}
