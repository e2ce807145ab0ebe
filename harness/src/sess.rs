//! Sessions: public calls on real objects, with everything a caller can observe.
use crate::dec::{self, D};
use crate::enc::{self, E};
use crate::value::*;
use bytecodec::io::{BufferedIo, IoDecodeExt, IoEncodeExt, StreamState};
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, ErrorKind, Result, TaggedDecode, TryTaggedDecode};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncWrite};

/// A stream that follows a script (see Streams.tla).
#[derive(Default)]
pub struct Pipe {
    pub d: VecDeque<u8>,
    pub rt: VecDeque<i64>,
    pub wt: VecDeque<i64>,
    pub got: Vec<u8>,
    pub idle: bool,
    /// bytes handed out beyond the end (never happens) and calls after the end
    pub calls: usize,
    /// the tasks that were told to wait
    pub rw: Option<Waker>,
    pub ww: Option<Waker>,
}
impl Pipe {
    fn tok(t: &mut VecDeque<i64>, idle: bool) -> io::Result<usize> {
        match t.pop_front().unwrap_or(if idle { -1 } else { i64::MAX }) {
            -1 => Err(io::ErrorKind::WouldBlock.into()),
            -2 => Err(io::Error::new(io::ErrorKind::BrokenPipe, "scripted")),
            -3 => Err(io::ErrorKind::UnexpectedEof.into()),
            k => Ok(k as usize),
        }
    }
    fn rd(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 200_000 {
            panic!("harness: endless reading");
        }
        let k = Self::tok(&mut self.rt, self.idle)?;
        let n = k.min(buf.len()).min(self.d.len());
        for b in buf[..n].iter_mut() {
            *b = self.d.pop_front().unwrap();
        }
        Ok(n)
    }
    fn wr(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 200_000 {
            panic!("harness: endless writing");
        }
        let k = Self::tok(&mut self.wt, self.idle)?;
        let n = k.min(buf.len());
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
}
#[derive(Clone, Default)]
pub struct Stream(pub Rc<RefCell<Pipe>>);
impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.0.borrow_mut().rd(buf)
    }
}
impl Write for Stream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().wr(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn poll<T>(r: io::Result<T>) -> Poll<io::Result<T>> {
    match r {
        Err(ref e) if e.kind() == io::ErrorKind::WouldBlock => Poll::Pending,
        r => Poll::Ready(r),
    }
}
impl AsyncRead for Stream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut v = vec![0; buf.remaining()];
        let mut p = self.0.borrow_mut();
        let r = poll(p.rd(&mut v).map(|n| buf.put_slice(&v[..n])));
        if r.is_pending() {
            p.rw = Some(cx.waker().clone());
        }
        r
    }
}
impl AsyncWrite for Stream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = self.0.borrow_mut();
        let r = poll(p.wr(buf));
        if r.is_pending() {
            p.ww = Some(cx.waker().clone());
        }
        r
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
#[derive(Default)]
pub struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

/// A tag-dispatching decoder: items of one byte, for every tag but 255.
pub struct TagDec {
    cur: Option<u8>,
    inner: bytecodec::fixnum::U8Decoder,
}
impl Decode for TagDec {
    type Item = (u8, u8);
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.inner.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> Result<(u8, u8)> {
        let b = self.inner.finish_decoding()?;
        let t = self.cur.take().unwrap_or(0);
        Ok((t, b))
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.inner.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.inner.is_idle()
    }
}
impl TagDec {
    fn try_start(&mut self, tag: u8) -> Result<bool> {
        if self.cur.is_some() {
            return Err(ErrorKind::IncompleteDecoding.into());
        }
        if tag == 255 {
            return Ok(false);
        }
        self.cur = Some(tag);
        Ok(true)
    }
}
impl TaggedDecode for TagDec {
    type Tag = u8;
    fn start_decoding(&mut self, tag: u8) -> Result<()> {
        if self.try_start(tag)? {
            Ok(())
        } else {
            Err(ErrorKind::InvalidInput.into())
        }
    }
}
impl TryTaggedDecode for TagDec {
    type Tag = u8;
    fn try_start_decoding(&mut self, tag: u8) -> Result<bool> {
        self.try_start(tag)
    }
}
fn t_start<T: TaggedDecode<Tag = u8>>(t: &mut T, tag: u8) -> Result<()> {
    t.start_decoding(tag)
}
fn t_try<T: TryTaggedDecode<Tag = u8>>(t: &mut T, tag: u8) -> Result<bool> {
    t.try_start_decoding(tag)
}

pub enum World {
    Dec { x: D, rd: Stream },
    Enc { x: E, wt: Vec<i64> },
    Io { x: D, y: E, io: BufferedIo<Stream>, h: Stream, wk: [Arc<Count>; 2], waker: [Waker; 2] },
    Alg,
    Tag { x: Box<TagDec>, via: String },
    /// encoders and decoders, and a channel between them
    Multi { ws: Vec<World>, ch: Vec<u8> },
}

type Obs = Map<String, Value>;
fn put<T: Into<Value>>(o: &mut Obs, k: &str, v: T) {
    o.insert(k.to_string(), v.into());
}
/// the error kind (or ""), and the result if there is one
fn res<T>(o: &mut Obs, r: Result<T>) -> Option<T> {
    match r {
        Ok(t) => {
            put(o, "e", "");
            Some(t)
        }
        Err(e) => {
            put(o, "e", kind(&e));
            None
        }
    }
}

impl World {
    pub fn new(k: &str, s: &Value) -> World {
        match k {
            "dec" => World::Dec { x: dec::build(s), rd: Stream::default() },
            "enc" => World::Enc { x: enc::build(s), wt: vec![] },
            "io" => {
                let h = Stream::default();
                h.0.borrow_mut().idle = true;
                let wk: [Arc<Count>; 2] = Default::default();
                World::Io {
                    x: dec::build(&s["dec"]),
                    y: enc::build(&s["enc"]),
                    io: BufferedIo::new(h.clone(), dec::us(s, "rcap"), dec::us(s, "wcap")),
                    h,
                    waker: [Waker::from(wk[0].clone()), Waker::from(wk[1].clone())],
                    wk,
                }
            }
            "alg" => World::Alg,
            "tag" => World::Tag {
                x: Box::new(TagDec { cur: None, inner: Default::default() }),
                via: s["via"].as_str().unwrap_or("").to_string(),
            },
            "multi" => World::Multi {
                ws: s.as_array().expect("harness: multi").iter().map(|x| World::new(x["k"].as_str().unwrap(), &x["s"])).collect(),
                ch: vec![],
            },
            k => panic!("harness: kind {}", k),
        }
    }

    /// Performs one call; a panic in the library becomes the error kind "panic".
    pub fn step(&mut self, op: &Value) -> Obs {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut o = Obs::new();
            self.call(op, &mut o);
            self.see(&mut o);
            o
        }));
        let mut o = match r {
            Ok(o) => o,
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                if m.starts_with("harness:") && !m.contains("endless") {
                    eprintln!("HARNESS-ERROR {} in {}", m, op);
                    std::process::exit(3);
                }
                let mut o = Obs::new();
                put(&mut o, "e", "panic");
                put(&mut o, "msg", m);
                o
            }
        };
        if let Some(n) = crate::alloc::take() {
            put(&mut o, "e", "alloc");
            put(&mut o, "msg", format!("allocation of {} bytes", n));
        }
        o
    }

    fn call(&mut self, op: &Value, o: &mut Obs) {
        let k = op["o"].as_str().expect("harness: op");
        let q = || eos_in(op["q"].as_i64().expect("harness: q"));
        let path = || -> Vec<usize> { op["p"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default() };
        let toks = |f: &str| -> Vec<i64> { op[f].as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default() };
        let a = || op["a"].as_i64().expect("harness: a");
        match self {
            World::Dec { x, rd } => match k {
                "d" => {
                    let b = bytes_of(&op["b"]);
                    if let Some(n) = res(o, x.decode(&b, q())) {
                        put(o, "n", num_out(n as u64));
                    }
                }
                "f" => {
                    if let Some(v) = res(o, x.finish_decoding()) {
                        put(o, "v", v.to_json());
                    }
                }
                "c" => {
                    let r = x.0.ctl(&path(), op["c"].as_str().unwrap(), a());
                    if let Some(v) = res(o, r) {
                        put(o, "v", v.to_json());
                    }
                }
                "in" => {
                    let d = std::mem::replace(x, dec::build(&json!({"k":"null"})));
                    *x = d.0.part(op["a"].as_u64().unwrap_or(1) as usize);
                    put(o, "e", "");
                }
                "src" => {
                    *rd.0.borrow_mut() = Pipe { d: bytes_of(&op["d"]).into(), rt: toks("t").into(), ..Default::default() };
                    put(o, "e", "");
                }
                "dx" => {
                    let r = x.decode_exact(&mut *rd);
                    put(o, "left", rd.0.borrow().d.len());
                    if let Some(v) = res(o, r) {
                        put(o, "v", v.to_json());
                    }
                }
                "db" => {
                    let b = bytes_of(&op["b"]);
                    if let Some(v) = res(o, x.decode_from_bytes(&b)) {
                        put(o, "v", v.to_json());
                    }
                }
                k => panic!("harness: op {}", k),
            },
            World::Enc { x, wt } => match k {
                "s" => {
                    res(o, x.start_encoding(V::from_json(&op["v"])));
                }
                "e" => {
                    let mut buf = vec![0xEE; op["c"].as_i64().unwrap() as usize];
                    if let Some(n) = res(o, x.encode(&mut buf, q())) {
                        if n > buf.len() {
                            panic!("encode returned {} for a buffer of {}", n, buf.len());
                        }
                        put(o, "b", buf[..n].to_vec());
                    }
                }
                "c" => {
                    let r = x.0.ctl(&path(), op["c"].as_str().unwrap(), a());
                    res(o, r);
                }
                "in" => {
                    let e = std::mem::replace(x, enc::build(&json!({"k":"null"})));
                    *x = e.0.part(op["a"].as_u64().unwrap_or(1) as usize);
                    put(o, "e", "");
                }
                "snk" => {
                    *wt = toks("t");
                    put(o, "e", "");
                }
                "ea" => {
                    let h = Stream::default();
                    h.0.borrow_mut().wt = wt.drain(..).collect();
                    let r = x.encode_all(h.clone());
                    *wt = h.0.borrow_mut().wt.drain(..).collect();
                    if res(o, r).is_some() {
                        put(o, "b", h.0.borrow().got.clone());
                    }
                }
                "ei" => {
                    if let Some(b) = res(o, x.encode_into_bytes(V::from_json(&op["v"]))) {
                        put(o, "b", b);
                    }
                }
                k => panic!("harness: op {}", k),
            },
            World::Io { x, y, io, h, wk, waker } => {
                wk.iter().for_each(|w| w.0.store(0, Ordering::SeqCst));
                // the task that polls
                let cx = &mut Context::from_waker(&waker[op["k"].as_u64().unwrap_or(1) as usize - 1]);
                let pend = |o: &mut Obs, r: Poll<Result<()>>| match r {
                    Poll::Pending => {
                        put(o, "e", "");
                        put(o, "pd", 1);
                    }
                    Poll::Ready(r) => {
                        res(o, r);
                        put(o, "pd", 0);
                    }
                };
                match k {
                    "src" => {
                        let mut p = h.0.borrow_mut();
                        p.d.extend(bytes_of(&op["d"]));
                        p.rt.extend(toks("t"));
                        if let Some(w) = p.rw.take() {
                            w.wake()
                        }
                        put(o, "e", "");
                    }
                    "snk" => {
                        let mut p = h.0.borrow_mut();
                        p.wt.extend(toks("t"));
                        if let Some(w) = p.ww.take() {
                            w.wake()
                        }
                        put(o, "e", "");
                    }
                    "fill" => {
                        res(o, io.read_buf_mut().fill(h.clone()));
                    }
                    "pfill" => {
                        let r = io.read_buf_mut().poll_fill(Pin::new(&mut h.clone()), cx);
                        pend(o, r);
                    }
                    "flush" => {
                        res(o, io.write_buf_mut().flush(h.clone()));
                    }
                    "pflush" => {
                        let r = io.write_buf_mut().poll_flush(Pin::new(&mut h.clone()), cx);
                        pend(o, r);
                    }
                    "io" => {
                        res(o, io.execute_io());
                    }
                    "pio" => {
                        let r = Pin::new(&mut *io).execute_io_poll(cx);
                        pend(o, r);
                    }
                    "read" => {
                        let mut b = vec![0; op["n"].as_i64().unwrap() as usize];
                        let r = io.read_buf_mut().read(&mut b).map_err(bytecodec::Error::from);
                        if let Some(n) = res(o, r) {
                            put(o, "b", b[..n].to_vec());
                        }
                    }
                    "write" => {
                        let r = io.write_buf_mut().write(&bytes_of(&op["b"])).map_err(bytecodec::Error::from);
                        Write::flush(io.write_buf_mut()).expect("flush of a write buffer");
                        if let Some(n) = res(o, r) {
                            put(o, "n", n);
                        }
                    }
                    "renew" => {
                        // the stream of the buffered stream, buffered anew
                        let (a, b) = (io.read_buf_ref().capacity(), io.write_buf_ref().capacity());
                        let old = std::mem::replace(io, BufferedIo::new(Stream::default(), 1, 1));
                        *io = BufferedIo::new(old.into_stream(), a, b);
                        put(o, "e", "");
                    }
                    "rst" | "wst" => {
                        let t = match op["s"].as_str() {
                            Some("Normal") => StreamState::Normal,
                            Some("Eos") => StreamState::Eos,
                            Some("WouldBlock") => StreamState::WouldBlock,
                            _ => StreamState::Error,
                        };
                        if k == "rst" { *io.read_buf_mut().stream_state_mut() = t } else { *io.write_buf_mut().stream_state_mut() = t }
                        put(o, "e", "");
                    }
                    "dec" => {
                        res(o, x.decode_from_read_buf(io.read_buf_mut()));
                        put(o, "i", x.is_idle());
                    }
                    "fin" => {
                        if let Some(v) = res(o, x.finish_decoding()) {
                            put(o, "v", v.to_json());
                        }
                    }
                    "start" => {
                        res(o, y.start_encoding(V::from_json(&op["v"])));
                    }
                    "enc" => {
                        res(o, y.encode_to_write_buf(io.write_buf_mut()));
                        put(o, "i", y.is_idle());
                    }
                    "enca" => {
                        res(o, y.encode_to_write_buf_async(io.write_buf_mut(), cx));
                        put(o, "i", y.is_idle());
                    }
                    k => panic!("harness: op {}", k),
                }
                put(o, "wk", vec![wk[0].0.load(Ordering::SeqCst), wk[1].0.load(Ordering::SeqCst)]);
            }
            World::Alg => {
                let (p, r) = (count_in(&op["a"]), count_in(&op["b"]));
                let fin = |c: ByteCount| match c {
                    ByteCount::Finite(n) => n,
                    _ => panic!("harness: not finite"),
                };
                let ord = |c: Option<std::cmp::Ordering>| match c {
                    None => "none",
                    Some(std::cmp::Ordering::Less) => "lt",
                    Some(std::cmp::Ordering::Equal) => "eq",
                    Some(std::cmp::Ordering::Greater) => "gt",
                };
                fn operators<T: PartialOrd>(x: T, y: T, c: &'static str) -> &'static str {
                    let ops = match c {
                        "lt" => [true, true, false, false],
                        "gt" => [false, false, true, true],
                        "eq" => [false, true, false, true],
                        _ => [false, false, false, false],
                    };
                    if [x < y, x <= y, x > y, x >= y] == ops { c } else { "operators" }
                }
                let hash = |c: ByteCount| {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    c.hash(&mut h);
                    Eos::with_remaining_bytes(c).hash(&mut h);
                    h.finish()
                };
                put(o, "e", "");
                match k {
                    "adddec" => put(o, "n", count_out(p.add_for_decoding(r))),
                    "addenc" => put(o, "n", count_out(p.add_for_encoding(r))),
                    "cmp" => put(o, "s", operators(p, r, ord(p.partial_cmp(&r)))),
                    "eq" => {
                        let q = (Eos::with_remaining_bytes(p), Eos::with_remaining_bytes(r));
                        put(o, "n", if (p == r) != (p != r) && (q.0 == q.1) == (p == r) { (p == r) as i64 } else { -1 })
                    }
                    "hash" => put(o, "n", (hash(p) == hash(r)) as i64),
                    "is" => {
                        let n = p.to_u64().map_or(json!([]), |n| count_out(ByteCount::Finite(n)));
                        put(o, "a", json!([p.is_finite() as i64, p.is_infinite() as i64, p.is_unknow() as i64, n]))
                    }
                    "eosis" => {
                        let q = Eos::with_remaining_bytes(p);
                        put(o, "n", count_out(q.remaining_bytes()));
                        put(o, "i", q.is_reached());
                    }
                    "back" => {
                        let q = Eos::with_remaining_bytes(p).back(fin(r));
                        put(o, "n", count_out(q.remaining_bytes()));
                        put(o, "i", q.is_reached());
                    }
                    "eosnew" => {
                        let q = Eos::new(op["a"] == json!([1]));
                        put(o, "n", count_out(q.remaining_bytes()));
                        put(o, "i", q.is_reached());
                    }
                    "eoscmp" => {
                        let (x, y) = (Eos::with_remaining_bytes(p), Eos::with_remaining_bytes(r));
                        put(o, "s", operators(x, y, ord(x.partial_cmp(&y))))
                    }
                    "default" => put(o, "n", count_out(ByteCount::default())),
                    k => panic!("harness: op {}", k),
                }
            }
            World::Multi { ws, ch } => match k {
                "m" => {
                    let w = &mut ws[op["i"].as_u64().unwrap() as usize - 1];
                    w.call(&op["op"], o);
                    w.see(o);
                    if let Some(b) = o.get("b") {
                        ch.extend(bytes_of(b));
                    }
                }
                "dch" => {
                    let w = &mut ws[op["i"].as_u64().unwrap() as usize - 1];
                    let n = (op["n"].as_u64().unwrap() as usize).min(ch.len());
                    if let World::Dec { x, .. } = w {
                        if let Some(n) = res(o, x.decode(&ch[..n], q())) {
                            put(o, "n", num_out(n as u64));
                            ch.drain(..n);
                        }
                    }
                    w.see(o);
                }
                "left" => {
                    put(o, "e", "");
                    put(o, "left", ch.len());
                }
                k => panic!("harness: op {}", k),
            },
            World::Tag { x, via } => {
                let via = &via[..];
                match k {
                    "start" => {
                        let t = a() as u8;
                        let r = match via {
                            "box" => t_start(x, t),
                            "dyn" => {
                                let mut y: &mut dyn TaggedDecode<Tag = u8, Item = (u8, u8)> = &mut **x;
                                t_start(&mut y, t)
                            }
                            "ref" => {
                                let mut y = &mut **x;
                                t_start(&mut y, t)
                            }
                            _ => (**x).start_decoding(t),
                        };
                        res(o, r);
                    }
                    "try" => {
                        let t = a() as u8;
                        let r = match via {
                            "box" => t_try(x, t),
                            "dyn" => {
                                let mut y: &mut dyn TryTaggedDecode<Tag = u8, Item = (u8, u8)> = &mut **x;
                                t_try(&mut y, t)
                            }
                            "ref" => {
                                let mut y = &mut **x;
                                t_try(&mut y, t)
                            }
                            _ => (**x).try_start_decoding(t),
                        };
                        if let Some(b) = res(o, r) {
                            put(o, "n", b as i64);
                        }
                    }
                    "d" => {
                        let b = bytes_of(&op["b"]);
                        let r = match via {
                            "box" => <Box<TagDec> as Decode>::decode(x, &b, q()),
                            "ref" => <&mut TagDec as Decode>::decode(&mut &mut **x, &b, q()),
                            _ => (**x).decode(&b, q()),
                        };
                        if let Some(n) = res(o, r) {
                            put(o, "n", n);
                        }
                    }
                    "f" => {
                        let r = match via {
                            "box" => <Box<TagDec> as Decode>::finish_decoding(x),
                            "ref" => <&mut TagDec as Decode>::finish_decoding(&mut &mut **x),
                            _ => (**x).finish_decoding(),
                        };
                        if let Some((t, b)) = res(o, r) {
                            put(o, "v", V::T(vec![V::B(vec![t]), V::B(vec![b])]).to_json());
                        }
                    }
                    k => panic!("harness: op {}", k),
                }
            }
        }
    }

    fn see(&mut self, o: &mut Obs) {
        match self {
            World::Dec { x, .. } => {
                put(o, "i", x.is_idle());
                put(o, "r", bc_out(x.requiring_bytes()));
                let mut a = vec![];
                x.0.acc(&mut a);
                put(o, "a", a);
            }
            World::Enc { x, .. } => {
                put(o, "i", x.is_idle());
                put(o, "r", bc_out(x.requiring_bytes()));
                if let Some(n) = x.0.exact() {
                    put(o, "x", num_out(n));
                }
                let mut a = vec![];
                x.0.acc(&mut a);
                put(o, "a", a);
            }
            World::Io { io, h, .. } => {
                let st = |s: StreamState| {
                    let n = format!("{:?}", s);
                    let flags = [s.is_normal(), s.is_eos(), s.would_block(), s.is_error()];
                    let want = [n == "Normal", n == "Eos", n == "WouldBlock", n == "Error"];
                    if flags != want { "predicates".to_string() } else { n }
                };
                let (r, w) = (io.read_buf_ref(), io.write_buf_ref());
                put(o, "rl", r.len());
                put(o, "rr", r.room());
                put(o, "re", r.is_empty());
                put(o, "rf", r.is_full());
                put(o, "rs", st(r.stream_state()));
                put(o, "rc", r.capacity());
                put(o, "wl", w.len());
                put(o, "wr", w.room());
                put(o, "we", w.is_empty());
                put(o, "wf", w.is_full());
                put(o, "ws", st(w.stream_state()));
                put(o, "wc", w.capacity());
                put(o, "eos", io.is_eos());
                put(o, "wb", io.would_block());
                // the stream and the buffers behind the accessors
                let same = Rc::ptr_eq(&io.stream_ref().0, &h.0) && Rc::ptr_eq(&io.stream_mut().0.clone(), &h.0);
                let caps = [io.read_buf_mut().inner_mut().len(), io.read_buf_ref().inner_ref().len(), io.write_buf_mut().inner_mut().len(), io.write_buf_ref().inner_ref().len()];
                put(o, "a", json!([same as usize, caps[0], caps[1], caps[2], caps[3]]));
                let p = h.0.borrow();
                put(o, "got", p.got.clone());
                put(o, "left", p.d.len());
                put(o, "rt", p.rt.len());
                put(o, "wt", p.wt.len());
            }
            World::Alg | World::Multi { .. } => {}
            World::Tag { x, via } => {
                let (i, r) = match &via[..] {
                    "box" => (<Box<TagDec> as Decode>::is_idle(x), <Box<TagDec> as Decode>::requiring_bytes(x)),
                    "ref" => {
                        let y = &mut **x;
                        (<&mut TagDec as Decode>::is_idle(&y), <&mut TagDec as Decode>::requiring_bytes(&y))
                    }
                    _ => ((**x).is_idle(), (**x).requiring_bytes()),
                };
                put(o, "i", i);
                put(o, "r", bc_out(r));
                put(o, "a", json!([]));
            }
        }
    }
}

/// Does the observation agree with the specified one on the given fields? (see Agrees in World.tla)
pub fn agrees(spec: &Value, got: &Obs, fields: &[String]) -> Option<String> {
    let ge = got.get("e").and_then(|e| e.as_str()).unwrap_or("");
    if ge == "panic" || ge == "alloc" {
        return Some(ge.to_string());
    }
    let spec = spec.as_object().expect("harness: observation");
    if spec.contains_key("e") && fields.iter().any(|f| f == "E") && (spec["e"] == "") != (ge.is_empty()) {
        return Some("E".to_string());
    }
    for (k, v) in spec {
        if k == "dead" || !fields.iter().any(|f| f == k) {
            continue;
        }
        if k == "wk" {
            // the task of this number must have been woken
            if got.get(k).and_then(|n| n[v.as_u64().unwrap() as usize - 1].as_i64()).unwrap_or(0) < 1 {
                return Some(k.clone());
            }
        } else if got.get(k) != Some(v) {
            return Some(k.clone());
        }
    }
    None
}
