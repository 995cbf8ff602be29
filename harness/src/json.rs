//! A minimal JSON reader (for the shards' own output).
use std::ops::Index;
pub enum V {
    Null,
    Num(String),
    Str(String),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
}
static NULL: V = V::Null;
impl V {
    pub fn num(&self) -> f64 {
        self.raw_u64() as f64
    }
    pub fn raw_u64(&self) -> u64 {
        match self {
            V::Num(s) => s.parse().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            V::Str(s) => s,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[V] {
        match self {
            V::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn obj(&self) -> &[(String, V)] {
        match self {
            V::Obj(a) => a,
            _ => &[],
        }
    }
}
impl Index<&str> for V {
    type Output = V;
    fn index(&self, k: &str) -> &V {
        self.obj().iter().find(|(n, _)| n == k).map_or(&NULL, |x| &x.1)
    }
}
struct P<'a>(&'a [u8], usize);
pub fn parse(s: &str) -> V {
    P(s.as_bytes(), 0).v()
}
impl P<'_> {
    fn ws(&mut self) {
        while self.1 < self.0.len() && self.0[self.1].is_ascii_whitespace() {
            self.1 += 1
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.0.get(self.1) == Some(&c) {
            self.1 += 1;
            true
        } else {
            false
        }
    }
    fn s(&mut self) -> String {
        assert!(self.eat(b'"'));
        let mut o = vec![];
        loop {
            let c = self.0[self.1];
            self.1 += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    let c = self.0[self.1];
                    self.1 += 1;
                    match c {
                        b'n' => o.push(b'\n'),
                        b'u' => {
                            let h = std::str::from_utf8(&self.0[self.1..self.1 + 4]).unwrap();
                            self.1 += 4;
                            let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap_or('?');
                            o.extend(c.to_string().bytes());
                        }
                        c => o.push(c),
                    }
                }
                c => o.push(c),
            }
        }
        String::from_utf8(o).unwrap()
    }
    fn v(&mut self) -> V {
        self.ws();
        match self.0[self.1] {
            b'"' => V::Str(self.s()),
            b'[' => {
                self.1 += 1;
                let mut a = vec![];
                while !self.eat(b']') {
                    a.push(self.v());
                    self.eat(b',');
                }
                V::Arr(a)
            }
            b'{' => {
                self.1 += 1;
                let mut a = vec![];
                while !self.eat(b'}') {
                    self.ws();
                    let k = self.s();
                    assert!(self.eat(b':'));
                    a.push((k, self.v()));
                    self.eat(b',');
                }
                V::Obj(a)
            }
            b'n' => {
                self.1 += 4;
                V::Null
            }
            _ => {
                let st = self.1;
                while self.1 < self.0.len() && (self.0[self.1] as char).is_ascii_alphanumeric() || matches!(self.0.get(self.1), Some(b'.') | Some(b'-')) {
                    self.1 += 1
                }
                V::Num(String::from_utf8(self.0[st..self.1].to_vec()).unwrap())
            }
        }
    }
}
