//! Minimal JSON (objects keep order), hex helpers.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
pub static NULL: J = J::Null;
impl J {
    pub fn get(&self, k: &str) -> &J {
        if let J::Obj(v) = self {
            for (a, b) in v {
                if a == k {
                    return b;
                }
            }
        }
        &NULL
    }
    pub fn has(&self, k: &str) -> bool {
        !matches!(self.get(k), J::Null)
    }
    pub fn s(&self, k: &str) -> &str {
        if let J::Str(s) = self.get(k) {
            s
        } else {
            ""
        }
    }
    pub fn n(&self, k: &str) -> i64 {
        match self.get(k) {
            J::Num(n) => *n,
            J::Bool(b) => *b as i64,
            _ => 0,
        }
    }
    pub fn n_or(&self, k: &str, d: i64) -> i64 {
        if self.has(k) {
            self.n(k)
        } else {
            d
        }
    }
    pub fn b(&self, k: &str) -> bool {
        matches!(self.get(k), J::Bool(true))
    }
    pub fn a(&self, k: &str) -> &[J] {
        if let J::Arr(v) = self.get(k) {
            v
        } else {
            &[]
        }
    }
    pub fn as_str(&self) -> &str {
        if let J::Str(s) = self {
            s
        } else {
            ""
        }
    }
    pub fn as_n(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            J::Bool(b) => *b as i64,
            _ => 0,
        }
    }
    pub fn arr(&self) -> &[J] {
        if let J::Arr(v) = self {
            v
        } else {
            &[]
        }
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(o) = self {
            for (a, b) in o.iter_mut() {
                if a == k {
                    *b = v;
                    return;
                }
            }
            o.push((k.to_string(), v));
        }
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.w(&mut s);
        s
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(&n.to_string()),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 32 || (c as u32) > 126 => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                o.push_str(&format!("\\u{:04x}", u));
                            }
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::Str(k.clone()).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        let v = Self::p(&b, &mut i)?;
        Ok(v)
    }
    fn ws(b: &[char], i: &mut usize) {
        while *i < b.len() && b[*i].is_whitespace() {
            *i += 1;
        }
    }
    fn p(b: &[char], i: &mut usize) -> Result<J, String> {
        Self::ws(b, i);
        if *i >= b.len() {
            return Err("eof".into());
        }
        match b[*i] {
            '{' => {
                *i += 1;
                let mut v = vec![];
                loop {
                    Self::ws(b, i);
                    if b[*i] == '}' {
                        *i += 1;
                        return Ok(J::Obj(v));
                    }
                    if b[*i] == ',' {
                        *i += 1;
                        continue;
                    }
                    let k = match Self::p(b, i)? {
                        J::Str(s) => s,
                        _ => return Err("key".into()),
                    };
                    Self::ws(b, i);
                    if b[*i] != ':' {
                        return Err("colon".into());
                    }
                    *i += 1;
                    v.push((k, Self::p(b, i)?));
                }
            }
            '[' => {
                *i += 1;
                let mut v = vec![];
                loop {
                    Self::ws(b, i);
                    if *i >= b.len() {
                        return Err("eof".into());
                    }
                    if b[*i] == ']' {
                        *i += 1;
                        return Ok(J::Arr(v));
                    }
                    if b[*i] == ',' {
                        *i += 1;
                        continue;
                    }
                    v.push(Self::p(b, i)?);
                }
            }
            '"' => {
                *i += 1;
                let mut s = String::new();
                while *i < b.len() && b[*i] != '"' {
                    if b[*i] == '\\' {
                        *i += 1;
                        match b[*i] {
                            'n' => s.push('\n'),
                            'r' => s.push('\r'),
                            't' => s.push('\t'),
                            'u' => {
                                let h: String = b[*i + 1..*i + 5].iter().collect();
                                let mut u = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                                *i += 4;
                                if (0xd800..0xdc00).contains(&u) && b.get(*i + 1) == Some(&'\\') {
                                    let h: String = b[*i + 3..*i + 7].iter().collect();
                                    let l = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                                    u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                                    *i += 6;
                                }
                                s.push(char::from_u32(u).unwrap_or('?'));
                            }
                            c => s.push(c),
                        }
                    } else {
                        s.push(b[*i]);
                    }
                    *i += 1;
                }
                *i += 1;
                Ok(J::Str(s))
            }
            't' => {
                *i += 4;
                Ok(J::Bool(true))
            }
            'f' => {
                *i += 5;
                Ok(J::Bool(false))
            }
            'n' => {
                *i += 4;
                Ok(J::Null)
            }
            _ => {
                let st = *i;
                while *i < b.len() && (b[*i].is_ascii_digit() || b[*i] == '-') {
                    *i += 1;
                }
                if st == *i {
                    return Err(format!("bad char {:?}", b[*i]));
                }
                let t: String = b[st..*i].iter().collect();
                Ok(J::Num(t.parse().map_err(|_| "num".to_string())?))
            }
        }
    }
}
#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => { $crate::json::J::Obj(vec![$(($k.to_string(), $crate::json::J::from($v))),*]) };
}
impl From<&str> for J {
    fn from(s: &str) -> J {
        J::Str(s.to_string())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::Str(s)
    }
}
impl From<bool> for J {
    fn from(s: bool) -> J {
        J::Bool(s)
    }
}
macro_rules! fromn { ($($t:ty),*) => { $(impl From<$t> for J { fn from(s: $t) -> J { J::Num(s as i64) } })* } }
fromn!(i64, i32, u8, u16, u32, u64, usize);
impl From<Vec<J>> for J {
    fn from(s: Vec<J>) -> J {
        J::Arr(s)
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
