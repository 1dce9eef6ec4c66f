//! A small strict JSON parser (RFC 8259), independent of serde: objects keep their order, and a
//! duplicate key, an unpaired surrogate or anything after the value is an error.

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64, String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn parse(s: &str) -> Result<J, String> {
    let mut p = P { b: s.as_bytes(), s, i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("JSON: text after the value at byte {}", p.i));
    }
    Ok(v)
}

struct P<'a> {
    b: &'a [u8],
    s: &'a str,
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1;
        }
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("JSON: {} at byte {}", m, self.i))
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn lit(&mut self, l: &str, v: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(l.as_bytes()) {
            self.i += l.len();
            Ok(v)
        } else {
            self.err("bad literal")
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v: Vec<(String, J)> = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    if self.peek() != b'"' {
                        return self.err("key expected");
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' {
                        return self.err("colon expected");
                    }
                    self.i += 1;
                    let x = self.value()?;
                    v.push((k, x));
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            break;
                        }
                        _ => return self.err("comma or brace expected"),
                    }
                }
                if v.len() > 1 {
                    if v.len() <= 8 {
                        for a in 0..v.len() {
                            for b in 0..a {
                                if v[a].0 == v[b].0 {
                                    return Err(format!("JSON: duplicate key {:?}", v[a].0));
                                }
                            }
                        }
                    } else {
                        let mut keys: Vec<&str> = v.iter().map(|e| e.0.as_str()).collect();
                        keys.sort_unstable();
                        if let Some(w) = keys.windows(2).find(|w| w[0] == w[1]) {
                            return Err(format!("JSON: duplicate key {:?}", w[0]));
                        }
                    }
                }
                Ok(J::Obj(v))
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return self.err("comma or bracket expected"),
                    }
                }
            }
            b'"' => Ok(J::Str(self.string()?)),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'n' => self.lit("null", J::Null),
            _ => self.number(),
        }
    }
    fn number(&mut self) -> Result<J, String> {
        let a = self.i;
        if self.peek() == b'-' {
            self.i += 1;
        }
        let d = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        if self.i == d || (self.b[d] == b'0' && self.i > d + 1) {
            return self.err("bad number");
        }
        if self.peek() == b'.' {
            self.i += 1;
            let d = self.i;
            while self.peek().is_ascii_digit() {
                self.i += 1;
            }
            if self.i == d {
                return self.err("bad number");
            }
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.i += 1;
            if matches!(self.peek(), b'+' | b'-') {
                self.i += 1;
            }
            let d = self.i;
            while self.peek().is_ascii_digit() {
                self.i += 1;
            }
            if self.i == d {
                return self.err("bad number");
            }
        }
        let t = &self.s[a..self.i];
        Ok(J::Num(t.parse().map_err(|_| "JSON: bad number".to_string())?, t.to_string()))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let h = self.b.get(self.i..self.i + 4).ok_or("JSON: short escape")?;
        let mut u = 0;
        for &c in h {
            u = u * 16 + (c as char).to_digit(16).ok_or("JSON: bad escape")?;
        }
        self.i += 4;
        Ok(u)
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut out = String::new();
        loop {
            let a = self.i;
            while self.i < self.b.len() && !matches!(self.b[self.i], b'"' | b'\\') && self.b[self.i] >= 0x20 {
                self.i += 1;
            }
            out.push_str(&self.s[a..self.i]);
            if self.i >= self.b.len() {
                return self.err("unterminated string");
            }
            match self.b[self.i] {
                b'"' => {
                    self.i += 1;
                    return Ok(out);
                }
                b'\\' => {
                    self.i += 1;
                    let e = self.peek();
                    self.i += 1;
                    match e {
                        b'"' => out.push('"'),
                        b'\\' => out.push('\\'),
                        b'/' => out.push('/'),
                        b'b' => out.push('\u{8}'),
                        b'f' => out.push('\u{c}'),
                        b'n' => out.push('\n'),
                        b'r' => out.push('\r'),
                        b't' => out.push('\t'),
                        b'u' => {
                            let mut u = self.hex4()?;
                            if (0xD800..0xDC00).contains(&u) && self.b[self.i..].starts_with(b"\\u") {
                                self.i += 2;
                                let lo = self.hex4()?;
                                if !(0xDC00..0xE000).contains(&lo) {
                                    return self.err("unpaired surrogate");
                                }
                                u = 0x10000 + ((u - 0xD800) << 10) + (lo - 0xDC00);
                            }
                            match char::from_u32(u) {
                                Some(c) => out.push(c),
                                None => return self.err("unpaired surrogate"),
                            }
                        }
                        _ => return self.err("bad escape"),
                    }
                }
                _ => return self.err("control character in string"),
            }
        }
    }
}

impl J {
    pub fn get(&self, k: &str) -> Result<&J, String> {
        match self {
            J::Obj(v) => v
                .iter()
                .find(|e| e.0 == k)
                .map(|e| &e.1)
                .ok_or_else(|| format!("export has no key {:?} where expected", k)),
            _ => Err(format!("not an object where key {:?} was expected", k)),
        }
    }
    pub fn obj(&self) -> Result<&[(String, J)], String> {
        match self {
            J::Obj(v) => Ok(v),
            _ => Err("object expected in export".into()),
        }
    }
    pub fn arr(&self) -> Result<&[J], String> {
        match self {
            J::Arr(v) => Ok(v),
            _ => Err("array expected in export".into()),
        }
    }
    pub fn str(&self) -> Result<&str, String> {
        match self {
            J::Str(v) => Ok(v),
            _ => Err("string expected in export".into()),
        }
    }
    pub fn num(&self) -> Result<f64, String> {
        match self {
            J::Num(v, _) => Ok(*v),
            _ => Err("number expected in export".into()),
        }
    }
    pub fn bool(&self) -> Result<bool, String> {
        match self {
            J::Bool(v) => Ok(*v),
            _ => Err("boolean expected in export".into()),
        }
    }
    /// A non-negative integer, written as one.
    pub fn uint(&self) -> Result<u64, String> {
        match self {
            J::Num(_, t) => t.parse().map_err(|_| format!("integer expected in export, found {}", t)),
            _ => Err("integer expected in export".into()),
        }
    }
    /// The value as JSON; numbers as they were written.
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    fn write(&self, s: &mut String) {
        match self {
            J::Null => s.push_str("null"),
            J::Bool(b) => s.push_str(if *b { "true" } else { "false" }),
            J::Num(_, t) => s.push_str(t),
            J::Str(t) => s.push_str(&quote(t)),
            J::Arr(v) => {
                s.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    x.write(s);
                }
                s.push(']');
            }
            J::Obj(v) => {
                s.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    s.push_str(&quote(k));
                    s.push(':');
                    x.write(s);
                }
                s.push('}');
            }
        }
    }
    /// Equality with object keys in any order.
    pub fn same(&self, o: &J) -> bool {
        match (self, o) {
            (J::Null, J::Null) => true,
            (J::Bool(a), J::Bool(b)) => a == b,
            (J::Num(a, _), J::Num(b, _)) => a == b,
            (J::Str(a), J::Str(b)) => a == b,
            (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (J::Obj(a), J::Obj(b)) => {
                if a.len() != b.len() {
                    return false;
                }
                if a.iter().zip(b).all(|(x, y)| x.0 == y.0) {
                    return a.iter().zip(b).all(|(x, y)| x.1.same(&y.1));
                }
                let m: std::collections::HashMap<&str, &J> = b.iter().map(|e| (e.0.as_str(), &e.1)).collect();
                a.iter().all(|x| m.get(x.0.as_str()).is_some_and(|y| x.1.same(y)))
            }
            _ => false,
        }
    }
}

pub fn quote(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
