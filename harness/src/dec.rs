//! Decoders composed at run time from the library's own types.
use crate::value::*;
use bytecodec::bincode_codec::BincodeDecoder;
use bytecodec::bytes::*;
use bytecodec::combinator::*;
use bytecodec::fixnum::*;
use bytecodec::json_codec::JsonDecoder;
use bytecodec::monolithic::{MonolithicDecode, MonolithicDecoder};
use bytecodec::null::NullDecoder;
use bytecodec::padding::PaddingDecoder;
use bytecodec::slice::OwnedSlice;
use bytecodec::tuple::TupleDecoder;
use bytecodec::{ByteCount, Decode, DecodeExt, Eos, Error, ErrorKind, Result};
use serde_json::Value;
use std::cell::RefCell;
use std::io::Read;
use trackable::{track};

pub trait DynDec {
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize>;
    fn finish(&mut self) -> Result<V>;
    fn req(&self) -> ByteCount;
    fn idle(&self) -> bool;
    fn ctl(&mut self, path: &[usize], c: &str, a: i64) -> Result<V> {
        panic!("harness: no setter {} at {:?} {}", c, path, a)
    }
    fn acc(&self, _out: &mut Vec<i64>) {}
    /// takes the node apart: the inner decoder, or part i
    fn part(self: Box<Self>, i: usize) -> D {
        panic!("harness: no part {}", i)
    }
}

/// The type of every node: it only forwards.
pub struct D(pub Box<dyn DynDec>);
impl Decode for D {
    type Item = V;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> Result<V> {
        self.0.finish()
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.req()
    }
    fn is_idle(&self) -> bool {
        self.0.idle()
    }
}

/// A node restricted to byte-string items (what `Utf8Decoder` asks for).
pub struct DB(pub D);
impl Decode for DB {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> Result<Vec<u8>> {
        self.0.finish_decoding().map(V::bytes)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}

/// A leaf, or a node with: setter at this node, the inner node, accessors.
macro_rules! node {
    ($name:ident, $ty:ty, $conv:expr) => {
        node!($name, $ty, $conv, |s, c, a, o| { no_ctl(c, a) }, { panic!("harness: path") }, {}, {}, |t| { panic!("harness: part") });
    };
    ($name:ident, $ty:ty, $conv:expr, |$s:ident, $c:ident, $a:ident, $o:ident| $ctl:block, $acc:block) => {
        node!($name, $ty, $conv, |$s, $c, $a, $o| $ctl, { $s.inner_mut() }, $acc, { $s.inner_ref().0.acc($o) }, |t| { t.into_inner() });
    };
    ($name:ident, $ty:ty, $conv:expr, |$s:ident, $c:ident, $a:ident, $o:ident| $ctl:block, $sub:block, $acc:block, $subacc:block, |$t:ident| $part:block) => {
        pub struct $name(pub $ty);
        #[allow(unused_variables, unreachable_code, clippy::all)]
        impl DynDec for $name {
            fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
                Decode::decode(&mut self.0, buf, eos)
            }
            fn finish(&mut self) -> Result<V> {
                Decode::finish_decoding(&mut self.0).map($conv)
            }
            fn req(&self) -> ByteCount {
                Decode::requiring_bytes(&self.0)
            }
            fn idle(&self) -> bool {
                Decode::is_idle(&self.0)
            }
            fn ctl(&mut self, path: &[usize], $c: &str, $a: i64) -> Result<V> {
                let $s = &mut self.0;
                if path.is_empty() {
                    $ctl
                } else {
                    let d: &mut D = $sub;
                    d.0.ctl(&path[1..], $c, $a)
                }
            }
            fn acc(&self, $o: &mut Vec<i64>) {
                let $s = &self.0;
                $acc
                $subacc
            }
            fn part(self: Box<Self>, _i: usize) -> D {
                let $t = self.0;
                $part
            }
        }
    };
}
fn no_ctl(c: &str, _a: i64) -> Result<V> {
    panic!("harness: no setter {}", c)
}
/// the whole buffer, provided that all views of it agree
fn window(mut s: OwnedSlice<Vec<u8>>) -> V {
    let (i, j) = (s.start(), s.end());
    let (a, b, c) = (s.as_ref().to_vec(), s.as_mut().to_vec(), s.inner_ref().clone());
    let same = c == *s.inner_mut() && c[i..j] == a[..] && a == b;
    let d = s.into_inner();
    if !same || c != d {
        panic!("the views of a slice differ");
    }
    V::B(d)
}
fn opt(v: Option<V>) -> V {
    V::O(v.map(Box::new))
}
fn done(_: ()) -> Result<V> {
    Ok(V::No)
}

macro_rules! fixdec {
    ($ty:expr, $dflt:expr, $($n:expr => $t:ident, $conv:expr;)*) => {
        match $ty {
            $($n => {
                struct X($t);
                impl DynDec for X {
                    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> { Decode::decode(&mut self.0, buf, eos) }
                    fn finish(&mut self) -> Result<V> { Decode::finish_decoding(&mut self.0).map(|n| V::B(($conv)(n))) }
                    fn req(&self) -> ByteCount { Decode::requiring_bytes(&self.0) }
                    fn idle(&self) -> bool { Decode::is_idle(&self.0) }
                }
                D(Box::new(X(if $dflt { <$t>::default() } else { <$t>::new() })))
            })*
            t => panic!("harness: fix {}", t),
        }
    };
}
macro_rules! copydec {
    ($n:expr, $dflt:expr, $($k:expr),*) => {
        match $n {
            $($k => {
                node!(X, CopyableBytesDecoder<[u8; $k]>, |b: [u8; $k]| V::B(b.to_vec()));
                if $dflt {
                    let mut x = CopyableBytesDecoder::new([7; $k]);
                    if x.inner_ref() != &[7; $k] || x.inner_mut() != &mut [7; $k] {
                        panic!("the buffer is not the given one");
                    }
                    return D(Box::new(X(CopyableBytesDecoder::new(x.into_inner()))));
                }
                D(Box::new(X(CopyableBytesDecoder::new([0; $k]))))
            })*
            n => panic!("harness: copy {}", n),
        }
    };
}

type VFn = fn(V) -> V;
pub type VTry = fn(V) -> std::result::Result<V, ConvErr>;
pub type EFn = fn(Error) -> MapdErr;
/// why a conversion failed, as the application sees it
#[derive(Debug)]
pub enum ConvErr {
    Kind(ErrorKind),
    Fail(trackable::error::Failure),
}
impl From<ConvErr> for Error {
    fn from(e: ConvErr) -> Error {
        match e {
            ConvErr::Kind(k) => k.into(),
            ConvErr::Fail(f) => f.into(),
        }
    }
}
/// what the application makes of an error
#[derive(Debug)]
pub struct MapdErr(ErrorKind);
impl From<MapdErr> for Error {
    fn from(e: MapdErr) -> Error {
        e.0.into()
    }
}
pub fn mapf(v: V) -> V {
    V::M(Box::new(v))
}
pub fn tryf(v: V) -> std::result::Result<V, ConvErr> {
    match v.refusal() {
        Some(e) => Err(e),
        None => Ok(V::M(Box::new(v))),
    }
}
pub fn errf(e: Error) -> MapdErr {
    MapdErr(match e.kind() {
        ErrorKind::UnexpectedEos => ErrorKind::DecoderTerminated,
        ErrorKind::Other => ErrorKind::InconsistentState,
        _ => ErrorKind::Other,
    })
}

node!(BytesD, BytesDecoder<OwnedSlice<Vec<u8>>>, |s: OwnedSlice<Vec<u8>>| window(s),
    |s, c, a, o| { done(s.set_bytes(OwnedSlice::new(vec![0xEE; a as usize], 0, a as usize))) }, { panic!() }, {}, {}, |t| { panic!("harness: part") });
node!(RemD, RemainingBytesDecoder, V::B);
node!(PadD, PaddingDecoder, |_| V::U,
    |s, c, a, o| { done(s.set_expected_byte(if a < 0 { None } else { Some(a as u8) })) }, { panic!() },
    { o.push(s.expected_byte().map_or(-1, |b| b as i64)) }, {}, |t| { panic!("harness: part") });
node!(NullD, NullDecoder, |_| V::U);
node!(Utf8D, Utf8Decoder<DB>, |s: String| V::B(s.into_bytes()),
    |s, c, a, o| { no_ctl(c, a) }, { &mut s.inner_mut().0 }, {}, { s.inner_ref().0 .0.acc(o) }, |t| { t.into_inner().0 });
node!(Utf8R, Utf8Decoder, |s: String| V::B(s.into_bytes()),
    |s, c, a, o| { no_ctl(c, a) }, { panic!("harness: path") }, {}, {}, |t| { D(Box::new(RemD(t.into_inner()))) });
node!(MapD, Map<D, V, VFn>, |v| v, |s, c, a, o| { no_ctl(c, a) }, {});
node!(TryMapD, TryMap<D, V, ConvErr, VTry>, |v| v, |s, c, a, o| { no_ctl(c, a) }, {});
node!(MapErrD, MapErr<D, MapdErr, EFn>, |v| v, |s, c, a, o| { no_ctl(c, a) }, {});
node!(AndThenD, AndThen<D, D, Box<dyn Fn(V) -> D>>, |v| v);
node!(CollectD, Collect<D, Vec<V>>, V::L, |s, c, a, o| { no_ctl(c, a) }, {});
node!(CollectND, CollectN<D, Vec<V>>, V::L,
    |s, c, a, o| { assert_eq!(c, "setn"); done(s.set_remaining_items(num_in(a) as usize)) },
    { o.push(num_out(s.remaining_items() as u64)); });
node!(LengthD, Length<D>, |v| v,
    |s, c, a, o| { assert_eq!(c, "setlen"); s.set_expected_bytes(num_in(a)).and_then(done) },
    { o.push(num_out(s.expected_bytes())); o.push(num_out(s.remaining_bytes())); });
node!(MaxBD, MaxBytes<D>, |v| v,
    |s, c, a, o| { assert_eq!(c, "setmax"); s.set_max_bytes(num_in(a)).and_then(done) },
    { o.push(num_out(s.max_bytes())); o.push(num_out(s.consumed_bytes())); });
node!(SliceD, Slice<D>, |v| v,
    |s, c, a, o| { assert_eq!(c, "grant"); done(s.set_consumable_bytes(num_in(a))) },
    { o.push(num_out(s.consumable_bytes())); o.push(s.is_suspended() as i64); });
node!(OmitD, Omittable<D>, opt,
    |s, c, a, o| { assert_eq!(c, "omit"); done(s.do_omit(a == 1)) },
    { o.push(s.will_omit() as i64); });
node!(PeekD, Peekable<D>, |v| v,
    |s, c, a, o| {
        if c == "poke" {
            // changes the item through `peek_mut`
            if let Some(v) = s.peek_mut() {
                *v = V::B(vec![a as u8]);
            }
            return Ok(opt(s.peek().cloned()));
        }
        assert_eq!(c, "peek");
        let r = opt(s.peek().cloned());
        let m = opt(s.peek_mut().map(|v| v.clone()));
        if r != m { panic!("peek and peek_mut differ") }
        Ok(r)
    },
    { o.push(s.peek().is_some() as i64); });
node!(MaybeD, MaybeEos<D>, |v| v, |s, c, a, o| { no_ctl(c, a) }, {});

/// `Decode for Box<D>`
struct BoxD(Box<D>);
impl DynDec for BoxD {
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        <Box<D> as Decode>::decode(&mut self.0, buf, eos)
    }
    fn finish(&mut self) -> Result<V> {
        <Box<D> as Decode>::finish_decoding(&mut self.0)
    }
    fn req(&self) -> ByteCount {
        <Box<D> as Decode>::requiring_bytes(&self.0)
    }
    fn idle(&self) -> bool {
        <Box<D> as Decode>::is_idle(&self.0)
    }
    fn ctl(&mut self, path: &[usize], c: &str, a: i64) -> Result<V> {
        self.0 .0.ctl(&path[1..], c, a)
    }
    fn acc(&self, out: &mut Vec<i64>) {
        self.0 .0.acc(out)
    }
    fn part(self: Box<Self>, _i: usize) -> D {
        *self.0
    }
}
/// `Decode for &mut D`
struct RefD(RefCell<D>);
impl DynDec for RefD {
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        let mut r = &mut *self.0.borrow_mut();
        <&mut D as Decode>::decode(&mut r, buf, eos)
    }
    fn finish(&mut self) -> Result<V> {
        let mut r = &mut *self.0.borrow_mut();
        <&mut D as Decode>::finish_decoding(&mut r)
    }
    fn req(&self) -> ByteCount {
        let r = &mut *self.0.borrow_mut();
        <&mut D as Decode>::requiring_bytes(&r)
    }
    fn idle(&self) -> bool {
        let r = &mut *self.0.borrow_mut();
        <&mut D as Decode>::is_idle(&r)
    }
    fn ctl(&mut self, path: &[usize], c: &str, a: i64) -> Result<V> {
        self.0.borrow_mut().0.ctl(&path[1..], c, a)
    }
    fn acc(&self, out: &mut Vec<i64>) {
        self.0.borrow().0.acc(out)
    }
    fn part(self: Box<Self>, _i: usize) -> D {
        self.0.into_inner()
    }
}

macro_rules! tupdec {
    ($ps:expr, $($k:expr => $name:ident, [$($d:ident),*], [$($i:tt),*];)*) => {{
        let mut ps = $ps;
        match ps.len() {
            $($k => {
                struct $name(TupleDecoder<($($d,)*)>);
                impl DynDec for $name {
                    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> { Decode::decode(&mut self.0, buf, eos) }
                    fn finish(&mut self) -> Result<V> {
                        let t = Decode::finish_decoding(&mut self.0)?;
                        Ok(V::T(vec![$(t.$i),*]))
                    }
                    fn req(&self) -> ByteCount { Decode::requiring_bytes(&self.0) }
                    fn idle(&self) -> bool { Decode::is_idle(&self.0) }
                    fn ctl(&mut self, path: &[usize], c: &str, a: i64) -> Result<V> {
                        match path[0] - 1 { $($i => self.0.inner_mut().$i.0.ctl(&path[1..], c, a),)* _ => panic!("harness: path") }
                    }
                    fn acc(&self, out: &mut Vec<i64>) { $(self.0.inner_ref().$i.0.acc(out);)* }
                    fn part(self: Box<Self>, i: usize) -> D {
                        let t = self.0.into_inner();
                        match i - 1 { $($i => t.$i,)* _ => panic!("harness: part") }
                    }
                }
                let mut it = ps.drain(..);
                D(Box::new($name(TupleDecoder::new(($({ let _ = $i; it.next().unwrap() },)*)))))
            })*
            n => panic!("harness: arity {}", n),
        }
    }};
}

/// A codec as a user of the step macros writes it; the parts are macro arguments of every form.
struct UserD {
    turn: usize,
    ps: Vec<D>,
}
impl Decode for UserD {
    type Item = Vec<V>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        let mut offset = 0;
        for i in 0..self.ps.len() {
            match (i + self.turn) % 3 {
                0 => bytecodec::bytecodec_try_decode!(self.ps[i], offset, buf, eos),
                1 => bytecodec::bytecodec_try_decode!(self.ps[i], offset, buf, eos, "part {}", i),
                _ => bytecodec::bytecodec_try_decode!(self.ps[i], offset, buf, eos; offset, buf.len()),
            }
        }
        Ok(offset)
    }
    fn finish_decoding(&mut self) -> Result<Vec<V>> {
        if !self.is_idle() {
            return Err(ErrorKind::IncompleteDecoding.into());
        }
        self.ps.iter_mut().map(|p| p.finish_decoding()).collect()
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.ps.iter().fold(ByteCount::Finite(0), |n, p| n.add_for_decoding(p.requiring_bytes()))
    }
    fn is_idle(&self) -> bool {
        self.ps.iter().all(|p| p.is_idle())
    }
}
impl DynDec for UserD {
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        Decode::decode(self, buf, eos)
    }
    fn finish(&mut self) -> Result<V> {
        self.finish_decoding().map(V::T)
    }
    fn req(&self) -> ByteCount {
        self.requiring_bytes()
    }
    fn idle(&self) -> bool {
        self.is_idle()
    }
    fn ctl(&mut self, path: &[usize], c: &str, a: i64) -> Result<V> {
        self.ps[path[0] - 1].0.ctl(&path[1..], c, a)
    }
    fn acc(&self, out: &mut Vec<i64>) {
        self.ps.iter().for_each(|p| p.0.acc(out))
    }
    fn part(mut self: Box<Self>, i: usize) -> D {
        self.ps.swap_remove(i - 1)
    }
}

pub struct RawM;
impl MonolithicDecode for RawM {
    type Item = V;
    fn monolithic_decode<R: Read>(&self, mut reader: R) -> Result<V> {
        let mut b = Vec::new();
        reader.read_to_end(&mut b)?;
        if b.first() == Some(&255) {
            return Err(ErrorKind::InvalidInput.into());
        }
        Ok(V::M(Box::new(V::B(b))))
    }
}
pub struct FirstM;
impl MonolithicDecode for FirstM {
    type Item = V;
    fn monolithic_decode<R: Read>(&self, mut reader: R) -> Result<V> {
        let mut l = [0];
        reader.read_exact(&mut l)?;
        let mut b = vec![0; l[0] as usize];
        reader.read_exact(&mut b)?;
        Ok(V::M(Box::new(V::B(b))))
    }
}
node!(RawD, MonolithicDecoder<RawM>, |v| v);
node!(FirstD, MonolithicDecoder<FirstM>, |v| v);
/// a number that cannot be serialized if it is 251
#[derive(Debug, Clone, Copy)]
pub struct Elem(pub u8);
impl<'de> serde::Deserialize<'de> for Elem {
    fn deserialize<T: serde::Deserializer<'de>>(d: T) -> std::result::Result<Self, T::Error> {
        u8::deserialize(d).map(Elem)
    }
}
impl serde::Serialize for Elem {
    fn serialize<T: serde::Serializer>(&self, s: T) -> std::result::Result<T::Ok, T::Error> {
        if self.0 == 251 && !PLAIN.with(|p| p.get()) {
            return Err(serde::ser::Error::custom("251"));
        }
        s.serialize_u8(self.0)
    }
}
thread_local! { static PLAIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// serialization that never fails
pub fn plainly<T>(f: impl FnOnce() -> T) -> T {
    PLAIN.with(|p| p.set(true));
    let r = f();
    PLAIN.with(|p| p.set(false));
    r
}
pub type JsonL = Vec<Option<Elem>>;
node!(JsonD, JsonDecoder<JsonL>, |v: JsonL| V::B(plainly(|| serde_json::to_vec(&v).unwrap())));
pub type BinO = (Elem, Option<u16>);
pub type BinV = (Elem, Vec<u8>, String);
node!(BinOD, BincodeDecoder<BinO>, |v: BinO| V::B(plainly(|| bincode::serialize(&v).unwrap())));
node!(BinVD, BincodeDecoder<BinV>, |v: BinV| V::B(plainly(|| bincode::serialize(&v).unwrap())));

pub fn us(s: &Value, f: &str) -> usize {
    s[f].as_i64().unwrap_or_else(|| panic!("harness: {} in {}", f, s)) as usize
}

impl Default for D {
    fn default() -> D {
        build(&serde_json::json!({"k":"fix","ty":"u8"}))
    }
}
/// A user-defined decoder that leaves `is_idle` to the trait.
struct LazyD(D);
impl Decode for LazyD {
    type Item = V;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> Result<V> {
        self.0.finish_decoding()
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
}
/// A user-defined decoder that is idle one call after its item is complete: until then it
/// requires no bytes and is not idle.
struct LateD(D, bool);
impl Decode for LateD {
    type Item = V;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        if self.1 {
            Ok(0)
        } else if self.0.is_idle() {
            self.1 = true;
            Ok(0)
        } else {
            self.0.decode(buf, eos)
        }
    }
    fn finish_decoding(&mut self) -> Result<V> {
        if !self.1 {
            return Err(ErrorKind::IncompleteDecoding.into());
        }
        self.1 = false;
        self.0.finish_decoding()
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.0.is_idle() { ByteCount::Finite(0) } else { self.0.requiring_bytes() }
    }
    fn is_idle(&self) -> bool {
        self.1
    }
}
/// A user-defined decoder that does not say how many bytes it requires.
struct ShyD(D);
impl Decode for ShyD {
    type Item = V;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> Result<V> {
        self.0.finish_decoding()
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.0.is_idle() { ByteCount::Finite(0) } else { ByteCount::Unknown }
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
macro_rules! user_node {
    ($t:ident) => {
        impl DynDec for $t {
            fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
                Decode::decode(self, buf, eos)
            }
            fn finish(&mut self) -> Result<V> {
                self.finish_decoding()
            }
            fn req(&self) -> ByteCount {
                self.requiring_bytes()
            }
            fn idle(&self) -> bool {
                self.is_idle()
            }
            fn ctl(&mut self, path: &[usize], c: &str, a: i64) -> Result<V> {
                self.0 .0.ctl(&path[1..], c, a)
            }
            fn acc(&self, out: &mut Vec<i64>) {
                self.0 .0.acc(out)
            }
            fn part(self: Box<Self>, _i: usize) -> D {
                self.0
            }
        }
    };
}
user_node!(LazyD);
user_node!(LateD);
user_node!(ShyD);

pub fn build(s: &Value) -> D {
    if s["dflt"] == true && s["in"] == serde_json::json!({"k":"fix","ty":"u8"}) {
        // around `D::default()`
        fn d<T: DynDec + 'static>(x: T) -> D {
            D(Box::new(x))
        }
        let zero = || assert!(s["n"] == 0, "harness: default");
        return match s["k"].as_str().expect("harness: shape") {
            "collect" => d(CollectD(Default::default())),
            "collectn" => {
                zero();
                d(CollectND(Default::default()))
            }
            "length" => {
                zero();
                d(LengthD(Default::default()))
            }
            "maxb" => {
                zero();
                d(MaxBD(Default::default()))
            }
            "slice" => d(SliceD(Default::default())),
            "omit" => {
                assert!(s["b"] == false, "harness: default");
                d(OmitD(Default::default()))
            }
            "peek" => d(PeekD(Default::default())),
            "maybe" => d(MaybeD(Default::default())),
            k => panic!("harness: no default of {}", k),
        };
    }
    let inn = || build(&s["in"]);
    let n = || num_in(s["n"].as_i64().expect("harness: n"));
    fn d<T: DynDec + 'static>(x: T) -> D {
        D(Box::new(x))
    }
    match s["k"].as_str().expect("harness: shape") {
        "fix" => fixdec!(s["ty"].as_str().unwrap(), s["dflt"] == true,
            "u8" => U8Decoder, |n: u8| n.to_be_bytes().to_vec(); "i8" => I8Decoder, |n: i8| n.to_be_bytes().to_vec();
            "u16be" => U16beDecoder, |n: u16| n.to_be_bytes().to_vec(); "u16le" => U16leDecoder, |n: u16| n.to_be_bytes().to_vec();
            "i16be" => I16beDecoder, |n: i16| n.to_be_bytes().to_vec(); "i16le" => I16leDecoder, |n: i16| n.to_be_bytes().to_vec();
            "u24be" => U24beDecoder, |n: u32| n.to_be_bytes().to_vec(); "u24le" => U24leDecoder, |n: u32| n.to_be_bytes().to_vec();
            "u32be" => U32beDecoder, |n: u32| n.to_be_bytes().to_vec(); "u32le" => U32leDecoder, |n: u32| n.to_be_bytes().to_vec();
            "i32be" => I32beDecoder, |n: i32| n.to_be_bytes().to_vec(); "i32le" => I32leDecoder, |n: i32| n.to_be_bytes().to_vec();
            "u40be" => U40beDecoder, |n: u64| n.to_be_bytes().to_vec(); "u40le" => U40leDecoder, |n: u64| n.to_be_bytes().to_vec();
            "u48be" => U48beDecoder, |n: u64| n.to_be_bytes().to_vec(); "u48le" => U48leDecoder, |n: u64| n.to_be_bytes().to_vec();
            "u56be" => U56beDecoder, |n: u64| n.to_be_bytes().to_vec(); "u56le" => U56leDecoder, |n: u64| n.to_be_bytes().to_vec();
            "u64be" => U64beDecoder, |n: u64| n.to_be_bytes().to_vec(); "u64le" => U64leDecoder, |n: u64| n.to_be_bytes().to_vec();
            "i64be" => I64beDecoder, |n: i64| n.to_be_bytes().to_vec(); "i64le" => I64leDecoder, |n: i64| n.to_be_bytes().to_vec();
            "f32be" => F32beDecoder, |n: f32| n.to_bits().to_be_bytes().to_vec(); "f32le" => F32leDecoder, |n: f32| n.to_bits().to_be_bytes().to_vec();
            "f64be" => F64beDecoder, |n: f64| n.to_bits().to_be_bytes().to_vec(); "f64le" => F64leDecoder, |n: f64| n.to_bits().to_be_bytes().to_vec();
        ),
        "copy" => copydec!(us(s, "n"), s["dflt"] == true, 0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 300, 500, 512, 1020, 1023, 1024, 1025, 1500, 2000, 2048, 2049),
        "bytes" => {
            let (n, pre, post) = (us(s, "n"), us(s, "pre"), us(s, "post"));
            if s["none"] == true {
                // no buffer yet
                return d(BytesD(Default::default()));
            }
            d(BytesD(BytesDecoder::new(OwnedSlice::new(vec![0xEE; n + pre + post], pre, pre + n))))
        }
        "rem" => d(RemD(if s["dflt"] == true { Default::default() } else { RemainingBytesDecoder::new() })),
        "pad" => {
            let b = s["b"].as_i64().unwrap();
            if s["dflt"] == true {
                assert!(b < 0, "harness: default");
                return d(PadD(Default::default()));
            }
            d(PadD(PaddingDecoder::new(if b < 0 { None } else { Some(b as u8) })))
        }
        "null" => d(NullD(NullDecoder)),
        "mono" => match s["f"].as_str().unwrap() {
            "raw" => d(RawD(MonolithicDecoder::new(RawM))),
            "first" => d(FirstD(MonolithicDecoder::new(FirstM))),
    "json" => d(JsonD(if s["dflt"] == true { Default::default() } else { JsonDecoder::new() })),
            "bino" => d(BinOD(if s["dflt"] == true { Default::default() } else { BincodeDecoder::new() })),
            "binv" => d(BinVD(if s["dflt"] == true { Default::default() } else { BincodeDecoder::new() })),
            f => panic!("harness: mono {}", f),
        },
        "utf8" => {
            if s["in"]["k"] == "rem" && s["dflt"] == true {
                d(Utf8R(Utf8Decoder::new()))
            } else {
                d(Utf8D(Utf8Decoder::with_bytes_decoder(DB(inn()))))
            }
        }
        "map" => d(MapD(inn().map(mapf as VFn))),
        "trymap" => d(TryMapD(inn().try_map(tryf as VTry))),
        "maperr" => d(MapErrD(DecodeExt::map_err(inn(), errf as EFn))),
        "box" => d(BoxD(Box::new(inn()))),
        "ref" if s["lazy"] == true => d(LazyD(inn())),
        "late" => d(LateD(inn(), false)),
        "shy" => d(ShyD(inn())),
        "ref" => d(RefD(RefCell::new(inn()))),
        "andthen" => {
            let t = s["t"].as_str().unwrap().to_string();
            let b = s["b"].clone();
            let f: Box<dyn Fn(V) -> D> = Box::new(move |v| {
                let n = v.num();
                match &t[..] {
                    "len" => D(Box::new(LengthD(build(&b).length(n)))),
                    "cn" => D(Box::new(CollectND(build(&b).collectn(n as usize)))),
                    "bytes" => {
                        let n = std::cmp::min(n, 1 << 20) as usize;
                        D(Box::new(BytesD(BytesDecoder::new(OwnedSlice::new(vec![0xEE; n], 0, n)))))
                    }
                    "omit" => D(Box::new(OmitD(build(&b).omit(n == 0)))),
                    "maxb" => D(Box::new(MaxBD(DecodeExt::max_bytes(build(&b), n)))),
                    t => panic!("harness: andthen {}", t),
                }
            });
            d(AndThenD(inn().and_then(f)))
        }
        "collect" => d(CollectD(inn().collect())),
        "collectn" => d(CollectND(inn().collectn(n() as usize))),
        "length" => d(LengthD(DecodeExt::length(inn(), n()))),
        "maxb" => d(MaxBD(DecodeExt::max_bytes(inn(), n()))),
        "slice" => d(SliceD(DecodeExt::slice(inn()))),
        "omit" => d(OmitD(inn().omit(s["b"] == true))),
        "peek" => d(PeekD(inn().peekable())),
        "maybe" => d(MaybeD(inn().maybe_eos())),
        "tuple" => {
            let mut ps: Vec<D> = s["ps"].as_array().unwrap().iter().map(build).collect();
            if s["user"] == true || s["user"].is_number() {
                return d(UserD { turn: s["user"].as_u64().unwrap_or(0) as usize, ps });
            }
            if ps.len() == 2 && s["chain"] == true {
                struct Ch(TupleDecoder<(D, D)>);
                impl DynDec for Ch {
                    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
                        Decode::decode(&mut self.0, buf, eos)
                    }
                    fn finish(&mut self) -> Result<V> {
                        Decode::finish_decoding(&mut self.0).map(|t| V::T(vec![t.0, t.1]))
                    }
                    fn req(&self) -> ByteCount {
                        Decode::requiring_bytes(&self.0)
                    }
                    fn idle(&self) -> bool {
                        Decode::is_idle(&self.0)
                    }
                    fn ctl(&mut self, path: &[usize], c: &str, a: i64) -> Result<V> {
                        let t = self.0.inner_mut();
                        (if path[0] == 1 { &mut t.0 } else { &mut t.1 }).0.ctl(&path[1..], c, a)
                    }
                    fn acc(&self, out: &mut Vec<i64>) {
                        self.0.inner_ref().0 .0.acc(out);
                        self.0.inner_ref().1 .0.acc(out);
                    }
                    fn part(self: Box<Self>, i: usize) -> D {
                        let t = self.0.into_inner();
                        if i == 1 { t.0 } else { t.1 }
                    }
                }
                let b = ps.pop().unwrap();
                let a = ps.pop().unwrap();
                return d(Ch(DecodeExt::chain(a, b)));
            }
            tupdec!(ps,
                2 => T2, [D, D], [0, 1]; 3 => T3, [D, D, D], [0, 1, 2]; 4 => T4, [D, D, D, D], [0, 1, 2, 3];
                5 => T5, [D, D, D, D, D], [0, 1, 2, 3, 4]; 6 => T6, [D, D, D, D, D, D], [0, 1, 2, 3, 4, 5];
                7 => T7, [D, D, D, D, D, D, D], [0, 1, 2, 3, 4, 5, 6]; 8 => T8, [D, D, D, D, D, D, D, D], [0, 1, 2, 3, 4, 5, 6, 7];)
        }
        k => panic!("harness: shape {}", k),
    }
}
