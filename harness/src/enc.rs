//! Encoders composed at run time from the library's own types.
use crate::dec::{us, ConvErr, EFn, MapdErr, VTry};
use crate::value::*;
use bytecodec::bincode_codec::BincodeEncoder;
use bytecodec::bytes::*;
use bytecodec::combinator::*;
use bytecodec::fixnum::*;
use bytecodec::json_codec::JsonEncoder;
use bytecodec::monolithic::{MonolithicEncode, MonolithicEncoder};
use bytecodec::null::NullEncoder;
use bytecodec::padding::PaddingEncoder;
use bytecodec::tuple::TupleEncoder;
use bytecodec::{ByteCount, Encode, EncodeExt, Eos, ErrorKind, Result, SizedEncode};
use serde_json::Value;
use std::cell::RefCell;
use std::io::Write;
use trackable::track;

pub trait DynEnc {
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize>;
    fn start(&mut self, item: V) -> Result<()>;
    fn req(&self) -> ByteCount;
    fn idle(&self) -> bool;
    /// None: not a sized encoder
    fn exact(&self) -> Option<u64>;
    fn sized(&self) -> bool;
    fn ctl(&mut self, path: &[usize], c: &str, a: i64) -> Result<()> {
        panic!("harness: no setter {} at {:?} {}", c, path, a)
    }
    fn acc(&self, _out: &mut Vec<i64>) {}
    /// takes the node apart: the inner encoder, or part i
    fn part(self: Box<Self>, i: usize) -> E {
        panic!("harness: no part {}", i)
    }
}
pub struct E(pub Box<dyn DynEnc>);
impl Encode for E {
    type Item = V;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.0.encode(buf, eos)
    }
    fn start_encoding(&mut self, item: V) -> Result<()> {
        self.0.start(item)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.req()
    }
    fn is_idle(&self) -> bool {
        self.0.idle()
    }
}
impl SizedEncode for E {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact().expect("harness: not sized")
    }
}

macro_rules! node {
    // leaf
    ($name:ident, $ty:ty, $sized:expr, |$v:ident| $conv:expr) => {
        node!($name, $ty, |$v| $conv, |s, c, a, o| { no_ctl(c, a) }, { panic!() }, {}, {}, { $sized }, |t| { panic!("harness: part") });
    };
    ($name:ident, $ty:ty, |$v:ident| $conv:expr, |$s:ident, $c:ident, $a:ident, $o:ident| $ctl:block, $acc:block, $sized:block) => {
        node!($name, $ty, |$v| $conv, |$s, $c, $a, $o| $ctl, { $s.inner_mut() }, $acc, { $s.inner_ref().0.acc($o) }, $sized, |t| { t.into_inner() });
    };
    ($name:ident, $ty:ty, |$v:ident| $conv:expr, |$s:ident, $c:ident, $a:ident, $o:ident| $ctl:block, $sub:block, $acc:block, $subacc:block, $sized:block, |$t:ident| $part:block) => {
        pub struct $name(pub $ty);
        #[allow(unused_variables, unreachable_code, clippy::all)]
        impl DynEnc for $name {
            fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
                Encode::encode(&mut self.0, buf, eos)
            }
            fn start(&mut self, $v: V) -> Result<()> {
                let item = $conv;
                Encode::start_encoding(&mut self.0, item)
            }
            fn req(&self) -> ByteCount {
                Encode::requiring_bytes(&self.0)
            }
            fn idle(&self) -> bool {
                Encode::is_idle(&self.0)
            }
            fn sized(&self) -> bool {
                let $s = &self.0;
                $sized
            }
            fn exact(&self) -> Option<u64> {
                if self.sized() { exact_of(&self.0) } else { None }
            }
            fn ctl(&mut self, path: &[usize], $c: &str, $a: i64) -> Result<()> {
                let $s = &mut self.0;
                if path.is_empty() {
                    $ctl
                } else {
                    let e: &mut E = $sub;
                    e.0.ctl(&path[1..], $c, $a)
                }
            }
            fn acc(&self, $o: &mut Vec<i64>) {
                let $s = &self.0;
                $acc
                $subacc
            }
            fn part(self: Box<Self>, _i: usize) -> E {
                let $t = self.0;
                $part
            }
        }
    };
}
fn no_ctl(c: &str, _a: i64) -> Result<()> {
    panic!("harness: no setter {}", c)
}
/// `exact_requiring_bytes` where the type has it
trait Exact {
    fn ex(&self) -> Option<u64>;
}
macro_rules! exact { ($($t:ty),*) => { $(impl Exact for $t { fn ex(&self) -> Option<u64> { Some(SizedEncode::exact_requiring_bytes(self)) } })* } }
macro_rules! inexact { ($($t:ty),*) => { $(impl Exact for $t { fn ex(&self) -> Option<u64> { None } })* } }
fn exact_of<T: Exact>(t: &T) -> Option<u64> {
    t.ex()
}
exact!(BytesEncoder<Vec<u8>>, Utf8Encoder<String>, NullEncoder, Optional<E>, MapFrom<E, V, VFn>, TryMapFrom<E, V, ConvErr, VTry>,
       MapErr<E, MapdErr, EFn>, Length<E>, MaxBytes<E>, PreEncode<E>, Slice<E>, Last<E>);
inexact!(PaddingEncoder, MonolithicEncoder<RawM>, MonolithicEncoder<FirstM>, JsonEncoder<crate::dec::JsonL>, BincodeEncoder<crate::dec::BinO>,
         BincodeEncoder<crate::dec::BinV>, Repeat<E, std::vec::IntoIter<V>>);

type VFn = fn(V) -> V;
fn tryf(v: V) -> std::result::Result<V, ConvErr> {
    match v.refusal() {
        Some(e) => Err(e),
        None => Ok(v.inner()),
    }
}

pub struct RawM;
impl MonolithicEncode for RawM {
    type Item = V;
    fn monolithic_encode<W: Write>(&self, item: &V, mut writer: W) -> Result<()> {
        let mut f = Vec::new();
        item.flat(&mut f);
        if item.is_bad() {
            // a serializer may notice after it has written some bytes
            writer.write_all(&f[..f.len() / 2])?;
            return Err(ErrorKind::InvalidInput.into());
        }
        // a serializer may write in any number of pieces
        for (i, c) in f.chunks(3).enumerate() {
            if i % 2 == 0 {
                writer.write_all(c)?;
            } else {
                for b in c {
                    writer.write_all(&[*b])?;
                }
            }
            writer.flush()?;
        }
        Ok(())
    }
}
pub struct FirstM;
impl MonolithicEncode for FirstM {
    type Item = V;
    fn monolithic_encode<W: Write>(&self, item: &V, mut writer: W) -> Result<()> {
        let mut f = Vec::new();
        item.flat(&mut f);
        writer.write_all(&[f.len() as u8])?;
        writer.write_all(&f)?;
        Ok(())
    }
}

node!(BytesE, BytesEncoder<Vec<u8>>, true, |v| v.bytes());
node!(Utf8E, Utf8Encoder<String>, true, |v| String::from_utf8(v.bytes()).expect("harness: not utf-8"));
node!(PadE, PaddingEncoder, false, |v| v.bytes()[0]);
node!(NullE, NullEncoder, true, |v| ());
node!(RawE, MonolithicEncoder<RawM>, false, |v| v);
node!(FirstE, MonolithicEncoder<FirstM>, false, |v| v);
node!(JsonE, JsonEncoder<crate::dec::JsonL>, false, |v| serde_json::from_slice(&v.bytes()).unwrap());
node!(BinOE, BincodeEncoder<crate::dec::BinO>, false, |v| bincode::deserialize(&v.bytes()).unwrap());
node!(BinVE, BincodeEncoder<crate::dec::BinV>, false, |v| bincode::deserialize(&v.bytes()).unwrap());
node!(OptE, Optional<E>, |v| v.opt(), |s, c, a, o| { no_ctl(c, a) }, {}, { s.inner_ref().0.sized() });
node!(MapFromE, MapFrom<E, V, VFn>, |v| v, |s, c, a, o| { no_ctl(c, a) }, {}, { s.inner_ref().0.sized() });
node!(TryMapFromE, TryMapFrom<E, V, ConvErr, VTry>, |v| v, |s, c, a, o| { no_ctl(c, a) }, {}, { s.inner_ref().0.sized() });
node!(MapErrE, MapErr<E, MapdErr, EFn>, |v| v, |s, c, a, o| { no_ctl(c, a) }, {}, { s.inner_ref().0.sized() });
node!(RepeatE, Repeat<E, std::vec::IntoIter<V>>, |v| v.list().into_iter(), |s, c, a, o| { no_ctl(c, a) }, {}, { false });
node!(LengthE, Length<E>, |v| v,
    |s, c, a, o| { assert_eq!(c, "setlen"); s.set_expected_bytes(num_in(a)) },
    { o.push(num_out(s.expected_bytes())); o.push(num_out(s.remaining_bytes())); }, { true });
node!(MaxBE, MaxBytes<E>, |v| v,
    |s, c, a, o| { assert_eq!(c, "setmax"); s.set_max_bytes(num_in(a)) },
    { o.push(num_out(s.max_bytes())); o.push(num_out(s.consumed_bytes())); }, { s.inner_ref().0.sized() });
node!(PreE, PreEncode<E>, |v| v, |s, c, a, o| { no_ctl(c, a) }, {}, { true });
node!(SliceE, Slice<E>, |v| v,
    |s, c, a, o| { assert_eq!(c, "grant"); s.set_consumable_bytes(num_in(a)); Ok(()) },
    { o.push(num_out(s.consumable_bytes())); o.push(s.is_suspended() as i64); }, { s.inner_ref().0.sized() });
node!(LastE, Last<E>, |_v| panic!("harness: Last takes no item"), |s, c, a, o| { no_ctl(c, a) }, {}, { s.inner_ref().0.sized() });

struct BoxE(Box<E>);
impl DynEnc for BoxE {
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        <Box<E> as Encode>::encode(&mut self.0, buf, eos)
    }
    fn start(&mut self, item: V) -> Result<()> {
        <Box<E> as Encode>::start_encoding(&mut self.0, item)
    }
    fn req(&self) -> ByteCount {
        <Box<E> as Encode>::requiring_bytes(&self.0)
    }
    fn idle(&self) -> bool {
        <Box<E> as Encode>::is_idle(&self.0)
    }
    fn sized(&self) -> bool {
        self.0 .0.sized()
    }
    fn exact(&self) -> Option<u64> {
        if self.sized() { Some(<Box<E> as SizedEncode>::exact_requiring_bytes(&self.0)) } else { None }
    }
    fn ctl(&mut self, path: &[usize], c: &str, a: i64) -> Result<()> {
        self.0 .0.ctl(&path[1..], c, a)
    }
    fn acc(&self, out: &mut Vec<i64>) {
        self.0 .0.acc(out)
    }
    fn part(self: Box<Self>, _i: usize) -> E {
        *self.0
    }
}
struct RefE(RefCell<E>);
impl DynEnc for RefE {
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        let mut r = &mut *self.0.borrow_mut();
        <&mut E as Encode>::encode(&mut r, buf, eos)
    }
    fn start(&mut self, item: V) -> Result<()> {
        let mut r = &mut *self.0.borrow_mut();
        <&mut E as Encode>::start_encoding(&mut r, item)
    }
    fn req(&self) -> ByteCount {
        let r = &mut *self.0.borrow_mut();
        <&mut E as Encode>::requiring_bytes(&r)
    }
    fn idle(&self) -> bool {
        let r = &mut *self.0.borrow_mut();
        <&mut E as Encode>::is_idle(&r)
    }
    fn sized(&self) -> bool {
        self.0.borrow().0.sized()
    }
    fn exact(&self) -> Option<u64> {
        if !self.sized() {
            return None;
        }
        let r = &mut *self.0.borrow_mut();
        Some(<&mut E as SizedEncode>::exact_requiring_bytes(&r))
    }
    fn ctl(&mut self, path: &[usize], c: &str, a: i64) -> Result<()> {
        self.0.borrow_mut().0.ctl(&path[1..], c, a)
    }
    fn acc(&self, out: &mut Vec<i64>) {
        self.0.borrow().0.acc(out)
    }
    fn part(self: Box<Self>, _i: usize) -> E {
        self.0.into_inner()
    }
}

macro_rules! fixenc {
    ($ty:expr, $dflt:expr, $item:expr, $($n:expr => $t:ident, $p:ty;)*) => {
        match $ty {
            $($n => {
                struct X($t);
                fn conv(v: V) -> $p { <$p as FromBe>::from_be(&v.bytes()) }
                impl DynEnc for X {
                    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> { Encode::encode(&mut self.0, buf, eos) }
                    fn start(&mut self, v: V) -> Result<()> { Encode::start_encoding(&mut self.0, conv(v)) }
                    fn req(&self) -> ByteCount { Encode::requiring_bytes(&self.0) }
                    fn idle(&self) -> bool { Encode::is_idle(&self.0) }
                    fn sized(&self) -> bool { true }
                    fn exact(&self) -> Option<u64> { Some(SizedEncode::exact_requiring_bytes(&self.0)) }
                }
                let item: Option<V> = $item;
                E(Box::new(X(if let Some(v) = item { <$t>::with_item(conv(v)).expect("harness: item refused") }
                             else if $dflt { <$t>::default() } else { <$t>::new() })))
            })*
            t => panic!("harness: fix {}", t),
        }
    };
}
trait FromBe {
    fn from_be(b: &[u8]) -> Self;
}
macro_rules! frombe { ($($t:ty),*) => { $(impl FromBe for $t { fn from_be(b: &[u8]) -> Self { <$t>::from_be_bytes(std::convert::TryInto::try_into(b).expect("harness: width")) } })* } }
frombe!(u8, i8, u16, i16, u32, i32, u64, i64);
impl FromBe for f32 {
    fn from_be(b: &[u8]) -> Self {
        f32::from_bits(<u32 as FromBe>::from_be(b))
    }
}
impl FromBe for f64 {
    fn from_be(b: &[u8]) -> Self {
        f64::from_bits(<u64 as FromBe>::from_be(b))
    }
}

macro_rules! tupenc {
    ($ps:expr, $($k:expr => $name:ident, [$($e:ident),*], [$($v:ident),*], [$($i:tt),*];)*) => {{
        let mut ps = $ps;
        match ps.len() {
            $($k => {
                struct $name(TupleEncoder<($($e,)*)>);
                impl DynEnc for $name {
                    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> { Encode::encode(&mut self.0, buf, eos) }
                    fn start(&mut self, v: V) -> Result<()> {
                        let mut it = v.list().into_iter();
                        $(let $v = it.next().unwrap();)*
                        Encode::start_encoding(&mut self.0, ($($v,)*))
                    }
                    fn req(&self) -> ByteCount { Encode::requiring_bytes(&self.0) }
                    fn idle(&self) -> bool { Encode::is_idle(&self.0) }
                    fn sized(&self) -> bool { $(self.0.inner_ref().$i.0.sized())&&* }
                    fn exact(&self) -> Option<u64> {
                        if self.sized() { Some(SizedEncode::exact_requiring_bytes(&self.0)) } else { None }
                    }
                    fn ctl(&mut self, path: &[usize], c: &str, a: i64) -> Result<()> {
                        match path[0] - 1 { $($i => self.0.inner_mut().$i.0.ctl(&path[1..], c, a),)* _ => panic!("harness: path") }
                    }
                    fn acc(&self, out: &mut Vec<i64>) { $(self.0.inner_ref().$i.0.acc(out);)* }
                    fn part(self: Box<Self>, i: usize) -> E {
                        let t = self.0.into_inner();
                        match i - 1 { $($i => t.$i,)* _ => panic!("harness: part") }
                    }
                }
                if $k == 2 && ps.chain {
                    let b = ps.ps.pop().unwrap();
                    let a = ps.ps.pop().unwrap();
                    return chain2(a, b);
                }
                let mut it = ps.ps.drain(..);
                E(Box::new($name(TupleEncoder::new(($({ let _ = $i; it.next().unwrap() },)*)))))
            })*
            n => panic!("harness: arity {}", n),
        }
    }};
}
struct Parts {
    ps: Vec<E>,
    chain: bool,
}
impl Parts {
    fn len(&self) -> usize {
        self.ps.len()
    }
}
struct Ch(TupleEncoder<(E, E)>);
impl DynEnc for Ch {
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        Encode::encode(&mut self.0, buf, eos)
    }
    fn start(&mut self, v: V) -> Result<()> {
        let mut it = v.list().into_iter();
        let a = it.next().unwrap();
        let b = it.next().unwrap();
        Encode::start_encoding(&mut self.0, (a, b))
    }
    fn req(&self) -> ByteCount {
        Encode::requiring_bytes(&self.0)
    }
    fn idle(&self) -> bool {
        Encode::is_idle(&self.0)
    }
    fn sized(&self) -> bool {
        self.0.inner_ref().0 .0.sized() && self.0.inner_ref().1 .0.sized()
    }
    fn exact(&self) -> Option<u64> {
        if self.sized() { Some(SizedEncode::exact_requiring_bytes(&self.0)) } else { None }
    }
    fn ctl(&mut self, path: &[usize], c: &str, a: i64) -> Result<()> {
        let t = self.0.inner_mut();
        (if path[0] == 1 { &mut t.0 } else { &mut t.1 }).0.ctl(&path[1..], c, a)
    }
    fn acc(&self, out: &mut Vec<i64>) {
        self.0.inner_ref().0 .0.acc(out);
        self.0.inner_ref().1 .0.acc(out);
    }
    fn part(self: Box<Self>, i: usize) -> E {
        let t = self.0.into_inner();
        if i == 1 { t.0 } else { t.1 }
    }
}
fn chain2(a: E, b: E) -> E {
    E(Box::new(Ch(EncodeExt::chain(a, b))))
}

/// A codec as a user of the step macros writes it; the parts are macro arguments of every form.
struct UserE {
    turn: usize,
    ps: Vec<E>,
}
impl Encode for UserE {
    type Item = Vec<V>;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        let mut offset = 0;
        for i in 0..self.ps.len() {
            match (i + self.turn) % 3 {
                0 => bytecodec::bytecodec_try_encode!(self.ps[i], offset, buf, eos),
                1 => bytecodec::bytecodec_try_encode!(self.ps[i], offset, buf, eos, "part {}", i),
                _ => bytecodec::bytecodec_try_encode!(self.ps[i], offset, buf, eos; offset),
            }
        }
        Ok(offset)
    }
    fn start_encoding(&mut self, item: Vec<V>) -> Result<()> {
        if !self.is_idle() {
            return Err(ErrorKind::EncoderFull.into());
        }
        self.ps.iter_mut().zip(item).try_for_each(|(p, v)| p.start_encoding(v))
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.ps.iter().fold(ByteCount::Finite(0), |n, p| n.add_for_encoding(p.requiring_bytes()))
    }
    fn is_idle(&self) -> bool {
        self.ps.iter().all(|p| p.is_idle())
    }
}
impl SizedEncode for UserE {
    fn exact_requiring_bytes(&self) -> u64 {
        self.ps.iter().map(|p| p.exact_requiring_bytes()).sum()
    }
}
impl DynEnc for UserE {
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        Encode::encode(self, buf, eos)
    }
    fn start(&mut self, v: V) -> Result<()> {
        self.start_encoding(v.list())
    }
    fn req(&self) -> ByteCount {
        self.requiring_bytes()
    }
    fn idle(&self) -> bool {
        self.is_idle()
    }
    fn sized(&self) -> bool {
        self.ps.iter().all(|p| p.0.sized())
    }
    fn exact(&self) -> Option<u64> {
        if self.sized() { Some(self.exact_requiring_bytes()) } else { None }
    }
    fn ctl(&mut self, path: &[usize], c: &str, a: i64) -> Result<()> {
        self.ps[path[0] - 1].0.ctl(&path[1..], c, a)
    }
    fn acc(&self, out: &mut Vec<i64>) {
        self.ps.iter().for_each(|p| p.0.acc(out))
    }
    fn part(mut self: Box<Self>, i: usize) -> E {
        self.ps.swap_remove(i - 1)
    }
}

impl Default for E {
    fn default() -> E {
        build(&serde_json::json!({"k":"fix","ty":"u8"}))
    }
}
/// A user-defined encoder that leaves `is_idle` to the trait.
struct LazyE(E);
impl Encode for LazyE {
    type Item = V;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.0.encode(buf, eos)
    }
    fn start_encoding(&mut self, item: V) -> Result<()> {
        self.0.start_encoding(item)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
}
/// A user-defined encoder that is idle one call after all its bytes are written.
struct LateE(E, bool);
impl Encode for LateE {
    type Item = V;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        if !self.1 {
            Ok(0)
        } else if self.0.is_idle() {
            self.1 = false;
            Ok(0)
        } else {
            self.0.encode(buf, eos)
        }
    }
    fn start_encoding(&mut self, item: V) -> Result<()> {
        if self.1 {
            return Err(ErrorKind::EncoderFull.into());
        }
        self.0.start_encoding(item)?;
        self.1 = true;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.0.is_idle() { ByteCount::Finite(0) } else { self.0.requiring_bytes() }
    }
    fn is_idle(&self) -> bool {
        !self.1
    }
}
/// A user-defined encoder that knows its exact size but not its requirement.
struct ShyE(E);
impl Encode for ShyE {
    type Item = V;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.0.encode(buf, eos)
    }
    fn start_encoding(&mut self, item: V) -> Result<()> {
        self.0.start_encoding(item)
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.0.is_idle() { ByteCount::Finite(0) } else { ByteCount::Unknown }
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
macro_rules! user_node {
    ($t:ident) => {
        impl DynEnc for $t {
            fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
                Encode::encode(self, buf, eos)
            }
            fn start(&mut self, item: V) -> Result<()> {
                self.start_encoding(item)
            }
            fn req(&self) -> ByteCount {
                self.requiring_bytes()
            }
            fn idle(&self) -> bool {
                self.is_idle()
            }
            fn exact(&self) -> Option<u64> {
                self.0 .0.exact()
            }
            fn sized(&self) -> bool {
                self.0 .0.sized()
            }
            fn ctl(&mut self, path: &[usize], c: &str, a: i64) -> Result<()> {
                self.0 .0.ctl(&path[1..], c, a)
            }
            fn acc(&self, out: &mut Vec<i64>) {
                self.0 .0.acc(out)
            }
            fn part(self: Box<Self>, _i: usize) -> E {
                self.0
            }
        }
    };
}
user_node!(LazyE);
user_node!(LateE);
user_node!(ShyE);

pub fn build(s: &Value) -> E {
    if s["dflt"] == true && s["in"] == serde_json::json!({"k":"fix","ty":"u8"}) {
        // around `E::default()`
        fn e<T: DynEnc + 'static>(x: T) -> E {
            E(Box::new(x))
        }
        let zero = || assert!(s["n"] == 0, "harness: default");
        return match s["k"].as_str().expect("harness: shape") {
            "repeat" => e(RepeatE(Default::default())),
            "opt" => e(OptE(Default::default())),
            "length" => {
                zero();
                e(LengthE(Default::default()))
            }
            "maxb" => {
                zero();
                e(MaxBE(Default::default()))
            }
            "slice" => e(SliceE(Default::default())),
            "pre" => e(PreE(Default::default())),
            k => panic!("harness: no default of {}", k),
        };
    }
    build_with(s, None)
}
fn build_with(s: &Value, item: Option<V>) -> E {
    let inn = || build(&s["in"]);
    let n = || num_in(s["n"].as_i64().expect("harness: n"));
    let dflt = s["dflt"] == true;
    fn e<T: DynEnc + 'static>(x: T) -> E {
        E(Box::new(x))
    }
    match s["k"].as_str().expect("harness: shape") {
        "with" => build_with(&s["in"], Some(V::from_json(&s["v"]))),
        "fix" => fixenc!(s["ty"].as_str().unwrap(), dflt, item,
            "u8" => U8Encoder, u8; "i8" => I8Encoder, i8;
            "u16be" => U16beEncoder, u16; "u16le" => U16leEncoder, u16; "i16be" => I16beEncoder, i16; "i16le" => I16leEncoder, i16;
            "u24be" => U24beEncoder, u32; "u24le" => U24leEncoder, u32;
            "u32be" => U32beEncoder, u32; "u32le" => U32leEncoder, u32; "i32be" => I32beEncoder, i32; "i32le" => I32leEncoder, i32;
            "u40be" => U40beEncoder, u64; "u40le" => U40leEncoder, u64; "u48be" => U48beEncoder, u64; "u48le" => U48leEncoder, u64;
            "u56be" => U56beEncoder, u64; "u56le" => U56leEncoder, u64;
            "u64be" => U64beEncoder, u64; "u64le" => U64leEncoder, u64; "i64be" => I64beEncoder, i64; "i64le" => I64leEncoder, i64;
            "f32be" => F32beEncoder, f32; "f32le" => F32leEncoder, f32; "f64be" => F64beEncoder, f64; "f64le" => F64leEncoder, f64;
        ),
        "bytes" => e(BytesE(match item {
            Some(v) => BytesEncoder::with_item(v.bytes()).expect("harness: item refused"),
            None if dflt => Default::default(),
            None => BytesEncoder::new(),
        })),
        "utf8" => e(Utf8E(match item {
            Some(v) => Utf8Encoder::with_item(String::from_utf8(v.bytes()).unwrap()).expect("harness: item refused"),
            None if dflt => Default::default(),
            None => Utf8Encoder::new(),
        })),
        "pad" => e(PadE(match item {
            Some(v) => PaddingEncoder::with_item(v.bytes()[0]).expect("harness: item refused"),
            None if dflt => Default::default(),
            None => PaddingEncoder::new(),
        })),
        "null" => e(NullE(NullEncoder)),
        "mono" => match s["f"].as_str().unwrap() {
            "raw" => e(RawE(MonolithicEncoder::new(RawM))),
            "first" => e(FirstE(MonolithicEncoder::new(FirstM))),
            "json" => e(JsonE(if dflt { Default::default() } else { JsonEncoder::new() })),
            "bino" => e(BinOE(if dflt { Default::default() } else { BincodeEncoder::new() })),
            "binv" => e(BinVE(if dflt { Default::default() } else { BincodeEncoder::new() })),
            f => panic!("harness: mono {}", f),
        },
        "opt" => e(OptE(inn().optional())),
        "mapfrom" => e(MapFromE(inn().map_from(V::inner as VFn))),
        "trymapfrom" => e(TryMapFromE(inn().try_map_from(tryf as VTry))),
        "maperr" => e(MapErrE(EncodeExt::map_err(inn(), crate::dec::errf as EFn))),
        "box" => e(BoxE(Box::new(inn()))),
        "ref" if s["lazy"] == true => e(LazyE(inn())),
        "late" => e(LateE(inn(), false)),
        "shy" => e(ShyE(inn())),
        "ref" => e(RefE(RefCell::new(inn()))),
        "repeat" => e(RepeatE(inn().repeat())),
        "length" => e(LengthE(EncodeExt::length(inn(), n()))),
        "maxb" => e(MaxBE(EncodeExt::max_bytes(inn(), n()))),
        "pre" => e(PreE(inn().pre_encode())),
        "slice" => e(SliceE(EncodeExt::slice(inn()))),
        "last" => {
            let mut i = inn();
            let first = V::from_json(&s["first"]);
            if first != V::No {
                i.start_encoding(first).expect("harness: item refused");
            }
            e(LastE(i.last(V::from_json(&s["v"]))))
        }
        "tuple" if s["user"] == true || s["user"].is_number() => e(UserE { turn: s["user"].as_u64().unwrap_or(0) as usize, ps: s["ps"].as_array().unwrap().iter().map(build).collect() }),
        "tuple" => {
            let ps = Parts { ps: s["ps"].as_array().unwrap().iter().map(build).collect(), chain: s["chain"] == true };
            tupenc!(ps,
                2 => T2, [E, E], [a, b], [0, 1]; 3 => T3, [E, E, E], [a, b, c], [0, 1, 2];
                4 => T4, [E, E, E, E], [a, b, c, d], [0, 1, 2, 3]; 5 => T5, [E, E, E, E, E], [a, b, c, d, e], [0, 1, 2, 3, 4];
                6 => T6, [E, E, E, E, E, E], [a, b, c, d, e, f], [0, 1, 2, 3, 4, 5];
                7 => T7, [E, E, E, E, E, E, E], [a, b, c, d, e, f, g], [0, 1, 2, 3, 4, 5, 6];
                8 => T8, [E, E, E, E, E, E, E, E], [a, b, c, d, e, f, g, h], [0, 1, 2, 3, 4, 5, 6, 7];)
        }
        k => {
            let _ = us;
            panic!("harness: shape {}", k)
        }
    }
}
