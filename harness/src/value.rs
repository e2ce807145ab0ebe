//! Items, numbers and error kinds in the notation of the specification.
use crate::dec::ConvErr;
use bytecodec::{ByteCount, Eos, Error};
use serde_json::{json, Value};

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    U,
    B(Vec<u8>),
    T(Vec<V>),
    L(Vec<V>),
    O(Option<Box<V>>),
    M(Box<V>),
    No,
}

impl V {
    pub fn flat(&self, out: &mut Vec<u8>) {
        match self {
            V::U | V::No => {}
            V::B(b) => out.extend_from_slice(b),
            V::T(vs) | V::L(vs) => vs.iter().for_each(|v| v.flat(out)),
            V::O(o) => o.iter().for_each(|v| v.flat(out)),
            V::M(v) => v.flat(out),
        }
    }
    fn lead(&self) -> Option<u8> {
        let mut f = Vec::new();
        self.flat(&mut f);
        f.first().copied()
    }
    /// the conversions that fail, and how
    pub fn refusal(&self) -> Option<ConvErr> {
        match self.lead() {
            Some(255) => Some(ConvErr::Kind(bytecodec::ErrorKind::InvalidInput)),
            Some(254) => Some(ConvErr::Kind(bytecodec::ErrorKind::EncoderFull)),
            // a failure of another library
            Some(253) => Some(ConvErr::Fail(trackable::error::Failure::from_error("253"))),
            _ => None,
        }
    }
    pub fn rejects(&self) -> bool {
        self.refusal().is_some()
    }
    pub fn is_bad(&self) -> bool {
        self.lead() == Some(255)
    }
    pub fn num(&self) -> u64 {
        let mut f = Vec::new();
        self.flat(&mut f);
        f.iter().fold(0u64, |a, b| a.wrapping_mul(256).wrapping_add(*b as u64))
    }
    pub fn bytes(self) -> Vec<u8> {
        match self {
            V::B(b) => b,
            v => panic!("harness: not bytes: {:?}", v),
        }
    }
    pub fn list(self) -> Vec<V> {
        match self {
            V::L(b) | V::T(b) => b,
            v => panic!("harness: not a list: {:?}", v),
        }
    }
    pub fn inner(self) -> V {
        match self {
            V::M(v) => *v,
            v => panic!("harness: not mapped: {:?}", v),
        }
    }
    pub fn opt(self) -> Option<V> {
        match self {
            V::O(v) => v.map(|v| *v),
            v => panic!("harness: not an option: {:?}", v),
        }
    }
    pub fn to_json(&self) -> Value {
        let l = |vs: &Vec<V>| Value::Array(vs.iter().map(|v| v.to_json()).collect());
        match self {
            V::U => json!(["u", []]),
            V::B(b) => json!(["b", b]),
            V::T(vs) => json!(["t", l(vs)]),
            V::L(vs) => json!(["l", l(vs)]),
            V::O(None) => json!(["o", []]),
            V::O(Some(v)) => json!(["o", [v.to_json()]]),
            V::M(v) => json!(["m", [v.to_json()]]),
            V::No => json!(["-", []]),
        }
    }
    pub fn from_json(j: &Value) -> V {
        let a = j.as_array().expect("harness: item");
        let p = a[1].as_array().expect("harness: payload");
        let l = || p.iter().map(V::from_json).collect::<Vec<_>>();
        match a[0].as_str().expect("harness: tag") {
            "u" => V::U,
            "b" => V::B(bytes_of(&a[1])),
            "t" => V::T(l()),
            "l" => V::L(l()),
            "o" => V::O(l().pop().map(Box::new)),
            "m" => V::M(Box::new(l().pop().unwrap())),
            _ => V::No,
        }
    }
}

pub fn bytes_of(j: &Value) -> Vec<u8> {
    j.as_array()
        .map(|a| a.iter().map(|b| b.as_u64().unwrap() as u8).collect())
        .unwrap_or_default()
}

/// u64 <-> number of the specification (MAXC = 2^31-1 stands for u64::MAX).
const MAXC: i64 = 2147483647;
pub fn num_out(n: u64) -> i64 {
    if n < 1 << 30 {
        n as i64
    } else if u64::MAX - n < 1 << 20 {
        MAXC - (u64::MAX - n) as i64
    } else {
        1 << 30
    }
}
pub fn num_in(n: i64) -> u64 {
    if n > MAXC - (1 << 20) {
        u64::MAX - (MAXC - n) as u64
    } else {
        n as u64
    }
}
pub fn bc_out(b: ByteCount) -> i64 {
    match b {
        ByteCount::Finite(n) => num_out(n),
        ByteCount::Unknown => -1,
        ByteCount::Infinite => -2,
    }
}
pub fn bc_in(n: i64) -> ByteCount {
    match n {
        -1 => ByteCount::Unknown,
        -2 => ByteCount::Infinite,
        n => ByteCount::Finite(num_in(n)),
    }
}
/// counts over the whole range (see Counts.tla)
pub fn count_in(j: &Value) -> ByteCount {
    let a: Vec<i64> = j.as_array().expect("harness: count").iter().map(|x| x.as_i64().unwrap()).collect();
    match a[..] {
        [-2] => ByteCount::Infinite,
        [_] => ByteCount::Unknown,
        _ => ByteCount::Finite(a.iter().fold(0, |n, x| n << 16 | *x as u64)),
    }
}
pub fn count_out(c: ByteCount) -> Value {
    match c {
        ByteCount::Infinite => json!([-2]),
        ByteCount::Unknown => json!([-1]),
        ByteCount::Finite(n) => json!([n >> 48, n >> 32 & 0xffff, n >> 16 & 0xffff, n & 0xffff]),
    }
}
pub fn eos_in(n: i64) -> Eos {
    match n {
        // the two constructors are interchangeable for these
        0 => Eos::new(true),
        -1 => Eos::new(false),
        n => Eos::with_remaining_bytes(bc_in(n)),
    }
}
pub fn kind(e: &Error) -> String {
    format!("{:?}", e.kind())
}
