//! Random sessions on the real code.  What is right is not decided here: the recorded calls
//! and observations are checked against the specification by TLC.
use crate::sess::World;
use crate::value::*;
use crate::dec::{plainly, Elem};
use serde_json::{json, Value};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn byte(&mut self) -> u8 {
        match self.below(10) {
            0 => if self.pct(70) { 255 } else { *self.pick(&[254, 253, 251]) },
            1 => 0,
            2..=5 => self.below(5) as u8,
            _ => self.below(256) as u8,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    /// the bytes of a number: often a boundary value
    pub fn number(&mut self, n: usize) -> Vec<u8> {
        let mut b = vec![0; n];
        match self.below(12) {
            0 => {}
            1 => b.fill(255),
            2 => {
                // a single bit
                let i = self.below(8 * n);
                b[i / 8] = 1 << (i % 8);
            }
            3 => {
                b.fill(255);
                let i = self.below(8 * n);
                b[i / 8] ^= 1 << (i % 8);
            }
            4 => {
                b.fill(255);
                let i = *self.pick(&[0, n - 1]);
                b[i] = *self.pick(&[0x7f, 0xfe]);
            }
            _ => return self.bytes(n),
        }
        b
    }
    pub fn text(&mut self, n: usize) -> Vec<u8> {
        let mut s = String::new();
        if self.pct(15) {
            // texts that tend to be treated specially
            s.push_str(*self.pick(&["\u{feff}", "\0", "\r\n", "\n", " ", "\u{a0}", "\u{2028}", "\u{fffd}", "\u{feff}a", "a\r\n", "\"", "\\"]));
        }
        while s.len() < n {
            s.push(*self.pick(&['a', 'b', '\u{7f}', '\0', 'é', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}']));
        }
        while s.len() > n {
            s.pop();
        }
        while s.len() < n {
            s.push('x');
        }
        s.into_bytes()
    }
    /// usually small, sometimes around the sizes where fixed buffers end
    pub fn size(&mut self, big: usize) -> usize {
        if big > 0 && self.below(1000) < big {
            *self.pick(&[255, 256, 257, 300, 1023, 1024, 1025, 2047, 2048, 2049, 3000])
        } else {
            *self.pick(&[0, 1, 1, 2, 2, 3, 3, 4, 5, 7])
        }
    }
}

pub const FIX: [&str; 26] = [
    "u8", "i8", "u16be", "u16le", "i16be", "i16le", "u24be", "u24le", "u32be", "u32le", "i32be", "i32le", "u40be", "u40le", "u48be", "u48le",
    "u56be", "u56le", "u64be", "u64le", "i64be", "i64le", "f32be", "f32le", "f64be", "f64le",
];
fn fixw(ty: &str) -> usize {
    ty.trim_matches(|c: char| !c.is_ascii_digit()).parse::<usize>().unwrap() / 8
}
fn fixv(ty: &str) -> usize {
    match fixw(ty) {
        3 => 4,
        5..=7 => 8,
        n => n,
    }
}

pub struct Gen {
    pub r: Rng,
    pub p: Value,
    pub big: usize,
}

const SD: [&str; 18] = [
    "fix", "copy", "null", "length", "collectn", "tuple", "andthen", "map", "trymap", "maperr", "peek", "omit", "maybe", "slice", "box", "ref", "late", "shy",
];

impl Gen {
    pub fn new(seed: u64, p: &Value) -> Gen {
        Gen { r: Rng::new(seed), p: p.clone(), big: p["big"].as_u64().unwrap_or(0) as usize }
    }
    fn list(&self, f: &str) -> Vec<String> {
        self.p[f].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default()
    }
    /// how many elements a sequence gets: usually few
    fn many(&mut self) -> usize {
        if self.r.below(1000) < 2 * self.big { *self.r.pick(&[15, 16, 17, 33, 65, 100]) } else { self.r.below(4) }
    }
    fn kid(&mut self, f: &str, sd: bool, depth: usize) -> String {
        let l: Vec<String> = self
            .list(f)
            .into_iter()
            .filter(|k| f != "ekids" || (k != "last" && k != "with"))
            .filter(|k| !sd || SD.contains(&&k[..]) || k == "bytes")
            .filter(|k| depth > 0 || ["fix", "copy", "null", "rem", "pad", "mono", "utf8", "bytes"].contains(&&k[..]))
            .collect();
        if l.is_empty() { "fix".to_string() } else { self.r.pick(&l).clone() }
    }
    fn fixty(&mut self) -> &'static str {
        if self.p["fixall"] == true || self.r.pct(20) { self.r.pick(&FIX) } else { self.r.pick(&["u8", "u8", "u16be", "u16le", "u24be"]) }
    }

    /// a decoder; sd: it must know by itself where its item ends
    pub fn dshape(&mut self, k: &str, sd: bool, depth: usize) -> Value {
        let d = depth.saturating_sub(1);
        match k {
            "fix" => {
                let ty = self.fixty();
                if self.r.pct(20) { json!({"k":"fix","ty":ty,"dflt":true}) } else { json!({"k":"fix","ty":ty}) }
            }
            "copy" => {
                let n = *self.r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 16]);
                let n = if self.big > 0 && self.r.below(1000) < self.big { *self.r.pick(&[300, 1020, 1023, 1024, 1025, 2000, 2049]) } else { n };
                json!({"k":"copy","n":n})
            }
            "bytes" => {
                let n = self.r.size(self.big);
                let (a, b) = (self.r.below(3), self.r.below(3));
                json!({"k":"bytes","n":n,"pre":a,"post":b})
            }
            "rem" => json!({"k":"rem"}),
            "pad" => {
                let b: i64 = if self.r.pct(30) { -1 } else { self.r.below(3) as i64 };
                json!({"k":"pad","b":b})
            }
            "null" => json!({"k":"null"}),
            "mono" => {
                let f = *self.r.pick(&["raw", "raw", "json", "bino", "binv"]);
                let f = self.p["mono"].as_str().map(|s| s.to_string()).unwrap_or(f.to_string());
                json!({"k":"mono","f":f})
            }
            "utf8" => {
                // any decoder of byte strings
                if sd || self.r.pct(30) {
                    let k = if self.r.pct(50) { "length" } else { "copy" };
                    let n = self.r.below(6);
                    let i = if k == "copy" { json!({"k":"copy","n":n}) } else { json!({"k":"length","n":n,"in":{"k":"rem"}}) };
                    json!({"k":"utf8","in":i})
                } else if self.r.pct(50) {
                    json!({"k":"utf8","in":{"k":"rem"},"dflt":true})
                } else {
                    json!({"k":"utf8","in":{"k":"rem"}})
                }
            }
            "map" | "trymap" | "maperr" | "box" | "ref" | "late" | "shy" | "peek" | "maybe" | "slice" => {
                let c = self.kid("dkids", sd, d);
                json!({"k":k,"in":self.dshape(&c, sd, d)})
            }
            "omit" => {
                let c = self.kid("dkids", sd, d);
                let b = self.r.pct(40);
                json!({"k":"omit","b":b,"in":self.dshape(&c, sd, d)})
            }
            "maxb" => {
                let c = self.kid("dkids", sd, d);
                let n = *self.r.pick(&[0, 1, 2, 3, 4, 5, 8, 20, 1 << 20]);
                json!({"k":"maxb","n":n,"in":self.dshape(&c, sd, d)})
            }
            "length" => {
                let c = self.kid("dkids", false, d);
                let i = self.dshape(&c, false, d);
                let n = if self.r.pct(75) { self.dbytes(&i).len() } else { self.r.size(self.big) };
                json!({"k":"length","n":n,"in":i})
            }
            "collect" => {
                let c = self.kid("dkids", true, d);
                json!({"k":"collect","in":self.dshape(&c, true, d)})
            }
            "collectn" => {
                let c = self.kid("dkids", true, d);
                let n = if self.r.below(1000) < 2 * self.big { *self.r.pick(&[17, 33, 65, 100]) } else { self.r.below(5) };
                json!({"k":"collectn","n":n,"in":self.dshape(&c, true, d)})
            }
            "andthen" => {
                let ty = *self.r.pick(&["u8", "u8", "u8", "u16be", "u16le"]);
                let mut i = json!({"k":"fix","ty":ty});
                match self.r.below(8) {
                    0 => i = json!({"k":"peek","in":i}),
                    1 => i = json!({"k":"trymap","in":i}),
                    2 => i = json!({"k":"map","in":i}),
                    _ => {}
                }
                let t = *self.r.pick(&["len", "len", "cn", "bytes", "omit"]);
                let b = match t {
                    "len" => {
                        let c = self.kid("dkids", false, d);
                        let c = if self.r.pct(60) { "rem".to_string() } else { c };
                        self.dshape(&c, false, d)
                    }
                    "bytes" => json!({"k":"null"}),
                    // (thousands of items of no bytes only cost time)
                    "cn" if ty != "u8" => json!({"k":"fix","ty":"u8"}),
                    _ => {
                        let c = self.kid("dkids", true, d);
                        self.dshape(&c, true, d)
                    }
                };
                json!({"k":"andthen","in":i,"t":t,"b":b})
            }
            "tuple" => {
                let n = if self.r.pct(70) { 2 + self.r.below(2) } else { 2 + self.r.below(7) };
                let mut ps = vec![];
                for j in 0..n {
                    let s = sd || j + 1 < n;
                    let c = self.kid("dkids", s, d);
                    ps.push(self.dshape(&c, s, if n > 3 { d.min(1) } else { d }));
                }
                if n <= 3 && self.p["user"] == true && self.r.pct(60) { json!({"k":"tuple","ps":ps,"user":self.r.below(3)}) }
                else if n == 2 && self.r.pct(40) { json!({"k":"tuple","ps":ps,"chain":true}) } else { json!({"k":"tuple","ps":ps}) }
            }
            k => panic!("harness: dshape {}", k),
        }
    }

    /// bytes that usually are exactly one item of the decoder
    pub fn dbytes(&mut self, s: &Value) -> Vec<u8> {
        let n = s["n"].as_u64().unwrap_or(0) as usize;
        match s["k"].as_str().unwrap() {
            "fix" => self.r.number(fixw(s["ty"].as_str().unwrap())),
            "copy" | "bytes" => self.r.bytes(n),
            "rem" => {
                let n = self.r.size(self.big);
                self.r.bytes(n)
            }
            "pad" => {
                let n = self.r.below(5);
                let b = s["b"].as_i64().unwrap();
                if b < 0 || self.r.pct(10) { self.r.bytes(n) } else { vec![b as u8; n] }
            }
            "null" => vec![],
            "mono" => self.message(s["f"].as_str().unwrap()),
            "utf8" => {
                let i = self.dbytes(&s["in"]);
                if self.r.pct(60) { self.r.text(i.len()) } else { i }
            }
            "collect" => {
                let mut b = vec![];
                let (n, big) = (self.many(), self.big);
                self.big = if n > 4 { 0 } else { big };
                for _ in 0..n {
                    b.extend(self.dbytes(&s["in"]));
                }
                self.big = big;
                b
            }
            "collectn" => {
                let mut b = vec![];
                let big = self.big;
                self.big = if n > 4 { 0 } else { big };
                for _ in 0..n.min(300) {
                    b.extend(self.dbytes(&s["in"]));
                }
                self.big = big;
                b
            }
            "length" => {
                let mut b = vec![];
                for _ in 0..4 {
                    b = self.dbytes(&s["in"]);
                    if b.len() == n {
                        return b;
                    }
                }
                b.resize(n.min(5000), 1);
                b
            }
            "omit" => if s["b"] == true { vec![] } else { self.dbytes(&s["in"]) },
            "tuple" => {
                let ps: Vec<Value> = s["ps"].as_array().unwrap().clone();
                ps.iter().flat_map(|p| self.dbytes(p)).collect()
            }
            "andthen" => {
                let t = s["t"].as_str().unwrap();
                let b = s["b"].clone();
                let (c, rest) = match t {
                    "len" => {
                        let r = self.dbytes(&b);
                        (r.len(), r)
                    }
                    "bytes" => {
                        let n = self.r.size(self.big);
                        (n, self.r.bytes(n))
                    }
                    "omit" => {
                        let c = self.r.below(2);
                        (c, if c == 0 { vec![] } else { self.dbytes(&b) })
                    }
                    _ => {
                        let c = self.r.below(5);
                        (c, (0..c).flat_map(|_| self.dbytes(&b)).collect())
                    }
                };
                let mut i = &s["in"];
                while i.get("in").is_some() {
                    i = &i["in"];
                }
                let mut h = match i["ty"].as_str().unwrap() {
                    "u16be" => (c as u16).to_be_bytes().to_vec(),
                    "u16le" => (c as u16).to_le_bytes().to_vec(),
                    _ => vec![(c as u8).min(250)],
                };
                h.extend(rest);
                h
            }
            _ => self.dbytes(&s["in"]),
        }
    }

    pub fn message(&mut self, f: &str) -> Vec<u8> {
        match f {
            "json" => {
                let mut m = vec![];
                self.blank(&mut m);
                m.push(b'[');
                for i in 0..self.r.below(5) {
                    if i > 0 {
                        m.push(b',');
                    }
                    self.blank(&mut m);
                    let e: &[&[u8]] = &[b"null", b"0", b"7", b"10", b"99", b"100", b"255", b"251", b"256", b"00", b"-1", b"-0", b"1.0", b"1e0", b"1000", b"nul", b"nullx", b"", b"true"];
                    let k = if self.r.pct(90) { self.r.below(8) } else { self.r.below(e.len()) };
                    m.extend_from_slice(e[k]);
                    self.blank(&mut m);
                }
                m.push(b']');
                self.blank(&mut m);
                self.spoil(m)
            }
            "bino" => {
                let b = self.bino(true);
                self.spoil(b)
            }
            "binv" => {
                let mut b = self.binv(true);
                if self.r.pct(15) {
                    // a hostile length
                    let h = self.r.pick(&[u64::MAX, 1 << 40, 1 << 33, 5000, 9]).to_le_bytes();
                    b[1..9].copy_from_slice(&h);
                }
                self.spoil(b)
            }
            _ => {
                let n = self.r.size(self.big);
                self.r.bytes(n)
            }
        }
    }
    /// a number that has a serialization, unless `any`
    fn elem(&mut self, any: bool) -> Elem {
        if any && self.r.pct(30) {
            return Elem(251);
        }
        let b = self.r.byte();
        Elem(if b == 251 && !any { 250 } else { b })
    }
    fn bino(&mut self, any: bool) -> Vec<u8> {
        let v: crate::dec::BinO = (self.elem(any), if self.r.pct(50) { Some(self.r.next() as u16) } else { None });
        plainly(|| bincode::serialize(&v).unwrap())
    }
    fn binv(&mut self, any: bool) -> Vec<u8> {
        let n = self.r.size(self.big);
        let m = self.r.size(0);
        let t = String::from_utf8(self.r.text(m)).unwrap();
        let v: crate::dec::BinV = (self.elem(any), self.r.bytes(n), t);
        plainly(|| bincode::serialize(&v).unwrap())
    }
    fn blank(&mut self, m: &mut Vec<u8>) {
        if self.r.pct(20) {
            m.push(*self.r.pick(b" \t\n\r"));
        }
    }
    fn spoil(&mut self, mut b: Vec<u8>) -> Vec<u8> {
        match self.r.below(10) {
            0 => {
                let n = self.r.below(b.len() + 1);
                b.truncate(n)
            }
            1 => b.push(self.r.byte()),
            2 if !b.is_empty() => {
                let i = self.r.below(b.len());
                b[i] = self.r.byte()
            }
            _ => {}
        }
        b
    }

    /// an encoder
    pub fn eshape(&mut self, k: &str, depth: usize) -> Value {
        let d = depth.saturating_sub(1);
        match k {
            "fix" => {
                let ty = self.fixty();
                if self.r.pct(20) { json!({"k":"fix","ty":ty,"dflt":true}) } else { json!({"k":"fix","ty":ty}) }
            }
            "bytes" | "utf8" | "pad" | "null" => {
                if self.r.pct(20) && k != "null" && k != "pad" { json!({"k":k,"dflt":true}) } else { json!({"k":k}) }
            }
            "mono" => {
                let f = *self.r.pick(&["raw", "raw", "first", "json", "bino", "binv"]);
                let f = self.p["mono"].as_str().map(|s| s.to_string()).unwrap_or(f.to_string());
                json!({"k":"mono","f":f})
            }
            "with" => {
                let c = *self.r.pick(&["fix", "bytes", "utf8"]);
                let i = self.eshape(c, 0);
                let v = self.eitem(&i, true);
                json!({"k":"with","in":i,"v":v.to_json()})
            }
            "last" => {
                let c = self.kid("ekids", false, d);
                let i = self.eshape(&c, d);
                let v = self.eitem(&i, true);
                let first = if self.r.pct(50) { self.eitem(&i, true) } else { V::No };
                if first != V::No && !plain(&i) {
                    return self.eshape(k, depth);
                }
                json!({"k":"last","in":i,"v":v.to_json(),"first":first.to_json()})
            }
            "length" | "maxb" => {
                let c = self.kid("ekids", false, d);
                let i = self.eshape(&c, d);
                let v = self.eitem(&i, true);
                let n = esize(&i, &v).unwrap_or(3);
                let n = if self.r.pct(70) { n } else { self.r.size(self.big) };
                json!({"k":k,"n":n,"in":i})
            }
            "tuple" => {
                let n = if self.r.pct(70) { 2 + self.r.below(2) } else { 2 + self.r.below(7) };
                let mut ps = vec![];
                for _ in 0..n {
                    let c = self.kid("ekids", false, d);
                    ps.push(self.eshape(&c, if n > 3 { d.min(1) } else { d }));
                }
                if n <= 3 && self.p["user"] == true && self.r.pct(60) { json!({"k":"tuple","ps":ps,"user":self.r.below(3)}) }
                else if n == 2 && self.r.pct(40) { json!({"k":"tuple","ps":ps,"chain":true}) } else { json!({"k":"tuple","ps":ps}) }
            }
            _ => {
                let c = self.kid("ekids", false, d);
                let i = self.eshape(&c, d);
                if k == "pre" && endless(&i) {
                    return json!({"k":"bytes"});
                }
                json!({"k":k,"in":i})
            }
        }
    }

    /// an item for the encoder; good: one it accepts and can encode
    pub fn eitem(&mut self, s: &Value, good: bool) -> V {
        let bad = !good && self.r.pct(50);
        match s["k"].as_str().unwrap() {
            "fix" => {
                let ty = s["ty"].as_str().unwrap();
                let (w, v) = (fixw(ty), fixv(ty));
                let mut b = self.r.bytes(v);
                if !bad {
                    let k = self.r.number(w);
                    b = vec![0; v - w];
                    b.extend(k);
                } else if v > w && self.r.pct(50) {
                    // just beyond the range
                    b = vec![0; v];
                    b[v - w - 1] = 1;
                }
                V::B(b)
            }
            "bytes" => {
                let n = self.r.size(self.big);
                V::B(self.r.bytes(n))
            }
            "utf8" => {
                let n = self.r.size(self.big);
                V::B(self.r.text(n))
            }
            "pad" => V::B(vec![self.r.byte()]),
            "null" => V::U,
            "mono" => match s["f"].as_str().unwrap() {
                "raw" => {
                    let n = self.r.size(self.big);
                    let mut b = self.r.bytes(n);
                    if !bad && b.first() == Some(&255) {
                        b[0] = 1
                    }
                    V::B(b)
                }
                "first" => {
                    let n = self.r.below(6);
                    V::B(self.r.bytes(n))
                }
                "json" => {
                    let n = self.r.below(4);
                    let v: crate::dec::JsonL = (0..n).map(|_| if self.r.pct(30) { None } else { Some(self.elem(bad)) }).collect();
                    V::B(plainly(|| serde_json::to_vec(&v).unwrap()))
                }
                "bino" => V::B(self.bino(bad)),
                "binv" => V::B(self.binv(bad)),
                f => panic!("harness: mono {}", f),
            },
            "opt" => {
                if self.r.pct(40) { V::O(None) } else { V::O(Some(Box::new(self.eitem(&s["in"], good)))) }
            }
            "mapfrom" => V::M(Box::new(self.eitem(&s["in"], good))),
            "trymapfrom" => loop {
                let v = V::M(Box::new(self.eitem(&s["in"], good)));
                if !good || !v.rejects() || self.r.pct(10) {
                    return v;
                }
            },
            "repeat" => {
                let (n, big) = (self.many(), self.big);
                if n <= 4 {
                    return V::L((0..n).map(|_| self.eitem(&s["in"], good)).collect());
                }
                self.big = 0;
                let v = self.eitem(&s["in"], good);
                let same = self.r.pct(50);
                let l = (0..n).map(|_| if same { v.clone() } else { self.eitem(&s["in"], good) }).collect();
                self.big = big;
                V::L(l)
            }
            "tuple" => {
                let ps: Vec<Value> = s["ps"].as_array().unwrap().clone();
                V::T(ps.iter().map(|p| self.eitem(p, good)).collect())
            }
            "length" | "maxb" => {
                let n = s["n"].as_u64().unwrap() as usize;
                let mut v = self.eitem(&s["in"], good);
                for _ in 0..6 {
                    let z = esize(&s["in"], &v);
                    if bad || z == Some(n) || (s["k"] == "maxb" && z.map_or(false, |z| z <= n)) {
                        break;
                    }
                    v = self.eitem(&s["in"], good);
                }
                v
            }
            "with" | "last" => V::No,
            _ => self.eitem(&s["in"], good),
        }
    }
}

/// table rows for the whole-message parsers: the oracle is the serde implementation itself
/// no suspended or failing parts: a first item can be given before the session starts
fn plain(s: &Value) -> bool {
    match s["k"].as_str().unwrap() {
        "fix" | "bytes" | "utf8" | "null" => true,
        "mapfrom" | "box" | "ref" | "shy" | "opt" | "repeat" => plain(&s["in"]),
        "tuple" => s["ps"].as_array().unwrap().iter().all(plain),
        _ => false,
    }
}
/// may write without end when nothing limits it
pub fn endless(s: &Value) -> bool {
    match s["k"].as_str().unwrap() {
        "pad" => true,
        "length" => false,
        "tuple" => s["ps"].as_array().unwrap().iter().any(endless),
        _ => s.get("in").map_or(false, endless),
    }
}
fn esize(s: &Value, v: &V) -> Option<usize> {
    match (s["k"].as_str().unwrap(), v) {
        ("fix", _) => Some(fixw(s["ty"].as_str().unwrap())),
        ("pad", _) => None,
        ("length", _) => s["n"].as_u64().map(|n| n as usize),
        ("opt", V::O(None)) => Some(0),
        ("opt", V::O(Some(v))) | ("mapfrom", V::M(v)) | ("trymapfrom", V::M(v)) => esize(&s["in"], v),
        ("repeat", V::L(vs)) => vs.iter().map(|v| esize(&s["in"], v)).sum(),
        ("tuple", V::T(vs)) => s["ps"].as_array().unwrap().iter().zip(vs).map(|(s, v)| esize(s, v)).sum(),
        ("mono", v) => {
            let mut f = vec![];
            v.flat(&mut f);
            Some(f.len() + (s["f"] == "first") as usize)
        }
        ("bytes", V::B(b)) | ("utf8", V::B(b)) => Some(b.len()),
        ("null", _) => Some(0),
        ("with", _) | ("last", _) => None,
        (_, v) => esize(&s["in"], v),
    }
}

/// setters that exist in the composition: (path, name)
fn ctls(s: &Value, dec: bool, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, &'static str)>) {
    let k = s["k"].as_str().unwrap();
    match k {
        "slice" => out.push((path.clone(), "grant")),
        "omit" => out.push((path.clone(), "omit")),
        "length" => out.push((path.clone(), "setlen")),
        "maxb" => out.push((path.clone(), "setmax")),
        "collectn" => out.push((path.clone(), "setn")),
        "bytes" if dec => out.push((path.clone(), "setbytes")),
        "pad" if dec => out.push((path.clone(), "setpad")),
        "peek" => out.push((path.clone(), "peek")),
        _ => {}
    }
    match k {
        "tuple" => {
            for (i, p) in s["ps"].as_array().unwrap().iter().enumerate() {
                path.push(i + 1);
                ctls(p, dec, path, out);
                path.pop();
            }
        }
        "andthen" => {}
        _ => {
            if let Some(i) = s.get("in") {
                path.push(1);
                ctls(i, dec, path, out);
                path.pop();
            }
        }
    }
}
fn ctl_value(r: &mut Rng, c: &str) -> i64 {
    match c {
        "grant" => *r.pick(&[0, 1, 1, 2, 3, 5, 9, 2147483647]),
        "omit" => r.below(2) as i64,
        "setpad" => r.below(4) as i64 - 1,
        "setmax" => *r.pick(&[0, 1, 2, 3, 5, 9, 100]),
        _ => r.below(6) as i64,
    }
}

/// one recorded session
pub struct Rec<'a> {
    pub w: World,
    pub ops: Vec<Value>,
    pub obs: Vec<Value>,
    pub log: &'a mut dyn FnMut(&Value),
}
impl Rec<'_> {
    fn go(&mut self, op: Value) -> Value {
        (self.log)(&op);
        let o = Value::Object(self.w.step(&op));
        self.ops.push(op);
        self.obs.push(o.clone());
        o
    }
}

fn tokens(r: &mut Rng, n: usize, faults: bool) -> Vec<i64> {
    (0..n)
        .map(|_| if faults && r.pct(12) { *r.pick(&[0, -1, -2, -3]) } else { *r.pick(&[1, 1, 1, 2, 2, 3, 3, 5, 100, 256, 512, 1000]) })
        .collect()
}

pub fn rec_dec(g: &mut Gen, s: &Value, rec: &mut Rec) {
    let frames = 1 + g.r.below(3);
    let mut cs = vec![];
    ctls(s, true, &mut vec![], &mut cs);
    let helpers = g.p["helpers"].as_u64().unwrap_or(15) as usize;
    let ops_max = g.p["ops"].as_u64().unwrap_or(18) as usize;
    let one_stream = g.r.pct(60);
    let mut data: Vec<Vec<u8>> = (0..frames).map(|_| g.dbytes(s)).collect();
    if one_stream {
        data = vec![data.concat()];
    }
    for mut w in data {
        match g.r.below(12) {
            0 => {
                let n = g.r.below(w.len() + 1);
                w.truncate(n)
            }
            1 => w.push(g.r.byte()),
            2 if !w.is_empty() => {
                let i = g.r.below(w.len());
                w[i] = g.r.byte()
            }
            _ => {}
        }
        // slices start suspended: grant something first
        for (p, c) in cs.clone() {
            if c == "grant" && g.r.pct(80) {
                let a = ctl_value(&mut g.r, c);
                rec.go(json!({"o":"c","p":p,"c":c,"a":a}));
            }
        }
        if g.r.pct(helpers) {
            if g.r.pct(25) {
                let o = rec.go(json!({"o":"db","b":w}));
                if o["e"] != "" {
                    break;
                }
                continue;
            }
            let t = g.r.below(6);
            let faults = g.r.pct(30);
            let t = tokens(&mut g.r, t, faults);
            rec.go(json!({"o":"src","d":w,"t":t}));
            let mut bad = 0;
            for _ in 0..5 {
                let o = rec.go(json!({"o":"dx"}));
                if o["e"] != "" {
                    bad += 1;
                    for (p, c) in cs.clone() {
                        if c == "grant" {
                            let a = ctl_value(&mut g.r, c);
                            rec.go(json!({"o":"c","p":p,"c":c,"a":a}));
                        }
                    }
                    if bad > 1 || g.r.pct(50) {
                        break;
                    }
                }
            }
            if bad > 0 && g.r.pct(70) {
                break;
            }
            continue;
        }
        let style = g.r.below(6); // flag, late, known, never, flag, mixed
        let (mut pos, mut told, mut err, mut items, mut stuck) = (0, false, 0, 0, 0);
        let start = rec.ops.len();
        while rec.ops.len() - start < ops_max && err < 3 && stuck < 4 {
            let idle = rec.obs.last().map_or(false, |o| o["i"] == true) && !rec.ops.is_empty();
            let roll = g.r.below(100);
            let op = if idle && roll < 75 {
                json!({"o":"f"})
            } else if !cs.is_empty() && (80..90).contains(&roll) {
                let (p, c) = g.r.pick(&cs).clone();
                let a = ctl_value(&mut g.r, c);
                json!({"o":"c","p":p,"c":c,"a":a})
            } else if !idle && roll > 94 {
                json!({"o":"f"})
            } else {
                let left = w.len() - pos;
                let n = match g.r.below(10) {
                    0 => 0,
                    1..=3 => left,
                    4..=6 => 1,
                    7 => left.saturating_sub(1),
                    8 if left > 100 => *g.r.pick(&[64, 100, 128, 255, 256, 257, 512, 1000]),
                    _ => g.r.below(left + 1),
                }
                .min(left);
                let rest = (left - n) as i64;
                let late = style == 1 || style == 3 || (style == 5 && g.r.pct(50));
                let q = if style == 3 {
                    -1
                } else if style == 2 || (style == 5 && g.r.pct(50)) {
                    rest
                } else if rest == 0 && (!late || n == 0) {
                    0
                } else {
                    -1
                };
                let q = if g.p["liar"] == true && g.r.pct(5) { *g.r.pick(&[-2, -1, 0, 1, 3, 2147483647]) } else { q };
                if rest == 0 && q == 0 {
                    told = true;
                }
                if idle && g.r.pct(30) {
                    // a waiting item is not touched, whatever comes
                    let mut b = w[pos..pos + n].to_vec();
                    let k = 1 + g.r.below(2);
                    b.extend(g.r.bytes(k));
                    json!({"o":"d","b":b,"q":if q == 0 || g.r.pct(30) { 0 } else { -1 }})
                } else {
                    json!({"o":"d","b":&w[pos..pos + n],"q":q})
                }
            };
            let o = rec.go(op.clone());
            if o["e"] != "" {
                err += 1;
                if g.r.pct(50) {
                    err = 3;
                }
            } else if op["o"] == "d" {
                let n = o["n"].as_u64().unwrap_or(0) as usize;
                let before = pos;
                pos = (pos + n).min(w.len());
                if before == pos && o["i"] == false {
                    stuck += 1;
                    for (p, c) in cs.clone() {
                        if c == "grant" {
                            let a = ctl_value(&mut g.r, c);
                            rec.go(json!({"o":"c","p":p,"c":c,"a":a}));
                        }
                    }
                }
            } else if op["o"] == "f" {
                items += 1;
                if items > 3 || (pos == w.len() && g.r.pct(80)) {
                    break;
                }
            }
            if told && pos == w.len() && o["i"] == false && g.r.pct(60) {
                break;
            }
        }
        if err > 0 {
            break;
        }
    }
}

pub fn rec_enc(g: &mut Gen, s: &Value, rec: &mut Rec) {
    let mut cs = vec![];
    ctls(s, false, &mut vec![], &mut cs);
    cs.retain(|c| ["grant", "setlen", "setmax"].contains(&c.1));
    let ops_max = g.p["ops"].as_u64().unwrap_or(18) as usize;
    let once = s["k"] == "last";
    let held = once || s["k"] == "with";
    let no_item = once;
    let endless = endless(s);
    let mut err = 0;
    let mut busy = held;
    for (p, c) in cs.clone() {
        if c == "grant" && g.r.pct(80) {
            let a = ctl_value(&mut g.r, c);
            rec.go(json!({"o":"c","p":p,"c":c,"a":a}));
        }
    }
    let item = |g: &mut Gen, good: bool| {
        let i = if s["k"] == "with" { &s["in"] } else { s };
        g.eitem(i, good).to_json()
    };
    // the space the stream has left, if known
    let mut room: Option<usize> = if g.r.pct(35) { Some(g.r.below(14)) } else { None };
    let (mut zero, mut ended) = (0, false);
    while rec.ops.len() < ops_max && err < 3 && zero < 5 {
        let roll = g.r.below(100);
        let op = if !busy && !no_item && roll < 75 {
            if !endless && g.r.pct(15) {
                json!({"o":"ei","v":item(g, true)})
            } else {
                let good = g.r.pct(80);
                json!({"o":"s","v":item(g, good)})
            }
        } else if !cs.is_empty() && (75..85).contains(&roll) {
            let (p, c) = g.r.pick(&cs).clone();
            let a = ctl_value(&mut g.r, c);
            json!({"o":"c","p":p,"c":c,"a":a})
        } else if !no_item && roll >= 92 {
            if g.r.pct(20) && !endless { json!({"o":"ei","v":item(g, true)}) } else { json!({"o":"s","v":item(g, true)}) }
        } else if !endless && (85..92).contains(&roll) {
            if g.r.pct(60) {
                let t = g.r.below(4);
                let faults = g.r.pct(30);
                let t = tokens(&mut g.r, t, faults);
                rec.go(json!({"o":"snk","t":t}));
            }
            json!({"o":"ea"})
        } else {
            let c = *g.r.pick(&[0, 1, 1, 1, 2, 2, 3, 4, 6, 10, 40, 3000]);
            let (c, q) = match room {
                Some(n) => {
                    let c = c.min(n);
                    let q = (n - c) as i64;
                    (c, if g.r.pct(50) || q == 0 { q } else { -1 })
                }
                None => (c, if g.r.pct(4) { *g.r.pick(&[0, 0, 1, -2, 2147483647]) } else { -1 }),
            };
            if q == 0 {
                ended = true;
            }
            json!({"o":"e","c":c,"q":q})
        };
        let o = rec.go(op.clone());
        busy = o["i"] == false;
        if o["e"] != "" {
            // a refused or invalid item is not the end
            if op["o"] != "s" && op["o"] != "c" {
                err += if g.r.pct(50) { 3 } else { 1 };
            }
        } else if op["o"] == "e" {
            let n = o["b"].as_array().map_or(0, |b| b.len());
            if let Some(r) = room {
                room = Some(r.saturating_sub(n));
            }
            if n == 0 && busy && op["c"].as_i64().unwrap() > 0 {
                zero += 1;
                for (p, c) in cs.clone() {
                    if c == "grant" {
                        let a = ctl_value(&mut g.r, c);
                        rec.go(json!({"o":"c","p":p,"c":c,"a":a}));
                    }
                }
            }
            if ended && g.r.pct(60) {
                break;
            }
        }
        if once && !busy && g.r.pct(60) {
            break;
        }
    }
}

pub fn rec_io(g: &mut Gen, s: &Value, rec: &mut Rec) {
    let n = g.p["ops"].as_u64().unwrap_or(30) as usize;
    let e = s["enc"].clone();
    for _ in 0..n {
        let idle_e = rec.obs.iter().rev().zip(rec.ops.iter().rev()).find(|(_, p)| p["o"] == "enc" || p["o"] == "enca" || p["o"] == "start");
        let busy = idle_e.map_or(false, |(o, p)| if p["o"] == "start" { o["e"] == "" } else { o["i"] == false });
        let op = match g.r.below(21) {
            20 => {
                let o = *g.r.pick(&["rst", "wst"]);
                json!({"o":o,"s":*g.r.pick(&["Normal", "WouldBlock", "WouldBlock", "Error", "Eos"])})
            }
            0..=2 => {
                let mut d = vec![];
                for _ in 0..g.r.below(3) {
                    d.extend(g.dbytes(&s["dec"]));
                }
                let k = g.r.below(4);
                json!({"o":"src","d":d,"t":tokens(&mut g.r, k, true)})
            }
            3 | 4 => {
                let k = 1 + g.r.below(3);
                json!({"o":"snk","t":tokens(&mut g.r, k, true)})
            }
            5 => json!({"o":"fill"}),
            6 => json!({"o":"pfill"}),
            7 => json!({"o":"flush"}),
            8 => json!({"o":"pflush"}),
            9 | 10 => json!({"o":"io"}),
            11 | 12 => json!({"o":"pio"}),
            13 => json!({"o":"read","n":g.r.below(5)}),
            14 => {
                let k = g.r.below(5);
                json!({"o":"write","b":g.r.bytes(k)})
            }
            15 => json!({"o":"dec"}),
            16 => json!({"o":"fin"}),
            17 if !busy && e["k"] != "last" => json!({"o":"start","v":g.eitem(&e, true).to_json()}),
            18 => json!({"o":"enc"}),
            _ => if busy || e["k"] == "last" { json!({"o":"enca"}) } else { json!({"o":"start","v":g.eitem(&e, true).to_json()}) },
        };
        let mut op = op;
        if ["pfill", "pflush", "pio", "enca"].contains(&op["o"].as_str().unwrap()) && g.r.below(2) == 0 {
            op["k"] = json!(2);
        }
        let o = rec.go(op.clone());
        if o["e"] != "" && (op["o"] == "dec" || op["o"] == "enc" || op["o"] == "enca") {
            break;
        }
    }
}

pub fn rec_tag(g: &mut Gen, _s: &Value, rec: &mut Rec) {
    for _ in 0..12 {
        let op = match g.r.below(6) {
            0 => json!({"o":"start","a":*g.r.pick(&[0, 1, 7, 255])}),
            1 => json!({"o":"try","a":*g.r.pick(&[0, 1, 7, 255])}),
            2 | 3 => {
                let k = g.r.below(3);
                json!({"o":"d","b":g.r.bytes(k),"q":-1})
            }
            _ => json!({"o":"f"}),
        };
        rec.go(op);
    }
}

pub fn rec_alg(g: &mut Gen, rec: &mut Rec) {
    let count = |g: &mut Gen| match g.r.below(8) {
        0 => json!([-1]),
        1 => json!([-2]),
        _ => {
            let d: Vec<u64> = (0..4).map(|_| *g.r.pick(&[0, 0, 1, 2, 0x7fff, 0x8000, 0xfffe, 0xffff, 0xffff, 77])).collect();
            json!(d)
        }
    };
    for _ in 0..30 {
        let (a, b) = (count(g), count(g));
        let o = *g.r.pick(&["adddec", "addenc", "cmp", "eq", "hash", "is", "eosis", "back", "eosnew", "eoscmp", "default"]);
        let b = if o == "back" && b.as_array().unwrap().len() == 1 { json!([0, 0, 0, 9]) } else { b };
        let (a, b) = if g.r.below(6) == 0 && o != "back" { (a.clone(), a) } else { (a, b) };
        let a = if o == "eosnew" { json!([g.r.below(2)]) } else { a };
        rec.go(json!({"o":o,"a":a,"b":b}));
    }
}
