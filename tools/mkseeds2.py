import sys
from seedlib import run
B, C, IO, F, M, T, ENC, DEC, BC, EOS, MA, P, A = ('src/%s.rs' % x for x in ('bytes', 'combinator', 'io', 'fixnum', 'monolithic', 'tuple', 'encode', 'decode', 'byte_count', 'eos', 'macros', 'padding', 'io_async'))
S = []


def seed(id, property, edits, needs, breaks, main, **o):
    S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, main=main, **o))


seed('C28-macro-args', 'C28', [(MA, '''            $offset += track!($decoder.decode(&$buf[$offset..], $eos); $($track_arg)*)?;
            if !$decoder.is_idle() {
                return Ok($offset);
            }''', '''            let size = track!($decoder.decode(&$buf[$offset..], $eos); $($track_arg)*)?;
            $offset += size;
            if size == 0 && !$decoder.is_idle() {
                return Ok($offset);
            }''')],
     'a part decoded by the form of the macro with tracking values that takes some bytes without completing', 'the following part is given bytes although the previous part is unfinished', '''
use bytecodec::bytes::RemainingBytesDecoder;
use bytecodec::fixnum::{U16beDecoder, U8Decoder};
use bytecodec::{ByteCount, Decode, Eos, Result};
#[macro_use]
extern crate trackable;
#[derive(Default)]
struct D(U16beDecoder, U8Decoder);
impl Decode for D {
    type Item = (u16, u8);
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        let mut offset = 0;
        bytecodec::bytecodec_try_decode!(self.0, offset, buf, eos; buf.len());
        bytecodec::bytecodec_try_decode!(self.1, offset, buf, eos; buf.len());
        Ok(offset)
    }
    fn finish_decoding(&mut self) -> Result<(u16, u8)> {
        Ok((self.0.finish_decoding()?, self.1.finish_decoding()?))
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes().add_for_decoding(self.1.requiring_bytes())
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle() && self.1.is_idle()
    }
}
fn main() {
    let _ = RemainingBytesDecoder::new();
    let mut d = D::default();
    let mut e = Eos::new(false);
    for b in [1u8, 2, 3] {
        if b == 3 { e = Eos::new(true); }
        // an end that is not reached for the first part must not be reported by the second
        assert_eq!(d.decode(&[b], e).unwrap(), 1);
    }
    assert_eq!(d.finish_decoding().unwrap(), (0x0102, 3));
    let mut d = D::default();
    d.1.decode(&[9], Eos::new(false)).unwrap();
    assert_eq!(d.decode(&[1], Eos::new(false)).unwrap(), 1);
    assert_eq!(d.decode(&[2], Eos::new(false)).unwrap(), 1);
    let mut d = D::default();
    assert_eq!(d.decode(&[1], Eos::new(false)).unwrap(), 1);
    assert!(!d.1.is_idle());
    let mut z = Z::default();
    assert_eq!(z.decode(&[1], Eos::new(false)).unwrap(), 1);
    assert_eq!(z.1.0, 0);
}
#[derive(Default)]
struct Count(usize);
impl Decode for Count {
    type Item = usize;
    fn decode(&mut self, _: &[u8], _: Eos) -> Result<usize> {
        self.0 += 1;
        Ok(0)
    }
    fn finish_decoding(&mut self) -> Result<usize> {
        Ok(self.0)
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Unknown
    }
    fn is_idle(&self) -> bool {
        self.0 > 0
    }
}
#[derive(Default)]
struct Z(U16beDecoder, Count);
impl Z {
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        let mut offset = 0;
        bytecodec::bytecodec_try_decode!(self.0, offset, buf, eos; buf.len());
        bytecodec::bytecodec_try_decode!(self.1, offset, buf, eos; buf.len());
        Ok(offset)
    }
}
''', deps=['trackable = "1"'])

seed('C29-peekable-inner', 'C29', [(C, '''    /// Returns a mutable reference to the inner decoder.
    pub fn inner_mut(&mut self) -> &mut D {
        &mut self.inner
    }

    /// Takes ownership of this instance and returns the inner decoder.
    pub fn into_inner(self) -> D {
        self.inner
    }

    pub(crate) fn new(inner: D) -> Self {
        Peekable { inner, item: None }''', '''    /// Returns a mutable reference to the inner decoder.
    pub fn inner_mut(&mut self) -> &mut D {
        self.item = None;
        &mut self.inner
    }

    /// Takes ownership of this instance and returns the inner decoder.
    pub fn into_inner(self) -> D {
        self.inner
    }

    pub(crate) fn new(inner: D) -> Self {
        Peekable { inner, item: None }''')],
     'inner_mut while an item waits', 'the waiting item is thrown away', '''
use bytecodec::fixnum::U8Decoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = U8Decoder::new().peekable();
    d.decode(&[7], Eos::new(false)).unwrap();
    let _ = d.inner_mut();
    assert_eq!(d.peek(), Some(&7));
    assert_eq!(d.finish_decoding().unwrap(), 7);
}
''')

seed('C10-grant-keep', 'C10', [(C, '''    pub fn set_consumable_bytes(&mut self, n: u64) {
        self.consumable_bytes = n;
    }''', '''    pub fn set_consumable_bytes(&mut self, n: u64) {
        if n == 0 || self.consumable_bytes == 0 {
            self.consumable_bytes = n;
        } else {
            self.consumable_bytes = cmp::max(n, self.consumable_bytes);
        }
    }''')],
     'a smaller new grant while an earlier grant is not used up', 'the new grant is exceeded', '''
use bytecodec::bytes::Utf8Encoder;
use bytecodec::{Encode, EncodeExt, Eos};
fn main() {
    let mut e = Utf8Encoder::new().slice();
    e.start_encoding("abcdef").unwrap();
    e.set_consumable_bytes(5);
    let mut b = [0; 2];
    assert_eq!(e.encode(&mut b, Eos::new(false)).unwrap(), 2);
    e.set_consumable_bytes(1);
    let mut b = [0; 9];
    assert_eq!(e.encode(&mut b, Eos::new(false)).unwrap(), 1);
}
''')

seed('C22-first-waker', 'C22', [(IO, '''        buf.waker = Some(cx.waker().clone());''', '''        buf.waker.get_or_insert_with(|| cx.waker().clone());''')],
     'encoding that is taken over by another task before the first one was woken', 'the waker of the earlier task is kept, and the one that waits is not woken', '''
use bytecodec::bytes::Utf8Encoder;
use bytecodec::io::{IoEncodeExt, WriteBuf};
use bytecodec::Encode;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Wake, Waker};
#[derive(Default)]
struct N(AtomicUsize);
impl Wake for N {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
fn main() {
    let (a, b) = (Arc::new(N::default()), Arc::new(N::default()));
    let mut e = Utf8Encoder::new();
    e.start_encoding("abcdef").unwrap();
    let mut buf = WriteBuf::new(vec![0; 2]);
    e.encode_to_write_buf_async(&mut buf, &mut Context::from_waker(&Waker::from(a.clone()))).unwrap();
    e.encode_to_write_buf_async(&mut buf, &mut Context::from_waker(&Waker::from(b.clone()))).unwrap();
    buf.flush(Vec::new()).unwrap();
    assert!(b.0.load(Ordering::SeqCst) > 0);
}
''', features=['tokio-async'])

seed('C22-pending-progress', 'C22', [(A, '''        while !self.is_full() {
            let mut buffer = tokio::io::ReadBuf::new(&mut self.inner.as_mut()[self.tail..]);
            match reader.as_mut().poll_read(cx, &mut buffer) {
                Poll::Pending => {
''', '''        let before = self.tail;
        while !self.is_full() {
            let mut buffer = tokio::io::ReadBuf::new(&mut self.inner.as_mut()[self.tail..]);
            match reader.as_mut().poll_read(cx, &mut buffer) {
                Poll::Pending if self.tail != before => return Poll::Ready(Ok(())),
                Poll::Pending => {
''')],
     'a source that delivers some bytes and then is pending in the same call', 'the read buffer is left in the normal state although the source blocks (the state differs from that of the blocking counterpart)', '''
use bytecodec::io::ReadBuf;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
struct N;
impl Wake for N {
    fn wake(self: Arc<Self>) {}
}
struct R(bool);
impl tokio::io::AsyncRead for R {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        if self.0 {
            return Poll::Pending;
        }
        self.0 = true;
        buf.put_slice(&[1]);
        Poll::Ready(Ok(()))
    }
}
fn main() {
    let mut b = ReadBuf::new(vec![0; 4]);
    let w = Waker::from(Arc::new(N));
    let _ = b.poll_fill(Pin::new(&mut R(false)), &mut Context::from_waker(&w));
    assert_eq!(b.len(), 1);
    assert!(b.stream_state().would_block());
}
''', features=['tokio-async'], deps=['tokio = { version = "1", features = ["io-util"] }'])

seed('C16-pad-last-empty', 'C16', [(P, '''            if eos.is_reached() {
                self.padding_byte = None;
            }''', '''            if n != 0 && eos.is_reached() {
                self.padding_byte = None;
            }''')],
     'the end of the output announced with an empty buffer', 'the padding never ends', '''
use bytecodec::padding::PaddingEncoder;
use bytecodec::{Encode, Eos};
fn main() {
    let mut e = PaddingEncoder::new();
    e.start_encoding(7).unwrap();
    let mut b = [0; 3];
    assert_eq!(e.encode(&mut b, Eos::new(false)).unwrap(), 3);
    assert_eq!(e.encode(&mut [], Eos::new(true)).unwrap(), 0);
    assert!(e.is_idle());
}
''')

seed('C09-last-chunk', 'C09', [(C, '''        track_assert!(self.consumed_bytes <= self.max_bytes,
                      ErrorKind::InvalidInput, "Max bytes limit exceeded";
                      self.consumed_bytes, self.max_bytes);
        if self.is_idle() {
            self.consumed_bytes = 0;
        }
        Ok(size)''', '''        if self.is_idle() {
            self.consumed_bytes = 0;
        }
        track_assert!(cmp::max(self.consumed_bytes, size as u64) <= self.max_bytes,
                      ErrorKind::InvalidInput, "Max bytes limit exceeded";
                      self.consumed_bytes, self.max_bytes);
        Ok(size)''')],
     'an item that exceeds the limit with its last piece', 'a too large item is completed', '''
use bytecodec::bytes::BytesEncoder;
use bytecodec::{Encode, EncodeExt, Eos};
fn main() {
    let mut e = BytesEncoder::new().max_bytes(3);
    e.start_encoding(vec![1, 2, 3, 4]).unwrap();
    let mut b = [0; 2];
    assert_eq!(e.encode(&mut b, Eos::new(false)).unwrap(), 2);
    assert!(e.encode(&mut b, Eos::new(false)).is_err());
}
''')

seed('C11-arity7-order', 'C11', [(T, '''impl_encode!([E0, E1, E2, E3, E4, E5, E6], [0, 1, 2, 3, 4, 5, 6]);''', '''impl_encode!([E0, E1, E2, E3, E4, E5, E6], [0, 1, 2, 3, 5, 4, 6]);''')],
     'a tuple of seven encoders', 'two parts are written in the wrong order', '''
use bytecodec::fixnum::U8Encoder;
use bytecodec::tuple::TupleEncoder;
use bytecodec::EncodeExt;
type E = U8Encoder;
fn main() {
    let mut e = TupleEncoder::<(E, E, E, E, E, E, E)>::default();
    assert_eq!(e.encode_into_bytes((1, 2, 3, 4, 5, 6, 7)).unwrap(), [1, 2, 3, 4, 5, 6, 7]);
}
''')

seed('C15-u48-max', 'C15', [(F, '''    fn encode_item(n: u64, b: &mut [u8; 6]) -> Result<()> {
        track_assert!(n <= 0xFFFF_FFFF_FFFF, ErrorKind::InvalidInput);
        let len = b.len();
        LittleEndian::write_uint(b, n, len);''', '''    fn encode_item(n: u64, b: &mut [u8; 6]) -> Result<()> {
        track_assert!(n < 0xFFFF_FFFF_FFFF, ErrorKind::InvalidInput);
        let len = b.len();
        LittleEndian::write_uint(b, n, len);''')],
     'the largest value', 'the largest value that fits is refused', '''
use bytecodec::fixnum::U48leEncoder;
use bytecodec::EncodeExt;
fn main() {
    assert_eq!(U48leEncoder::new().encode_into_bytes(0xFFFF_FFFF_FFFF).unwrap(), [255; 6]);
}
''')

seed('C13-omit-switch', 'C13', [(C, '''    fn finish_decoding(&mut self) -> Result<Self::Item> {
        if self.do_omit {
            Ok(None)
        } else {
            track!(self.inner.finish_decoding()).map(Some)
        }
    }''', '''    fn finish_decoding(&mut self) -> Result<Self::Item> {
        if self.do_omit {
            self.do_omit = false;
            Ok(None)
        } else {
            track!(self.inner.finish_decoding()).map(Some)
        }
    }''')],
     'two omitted items in succession', 'the second one is decoded', '''
use bytecodec::fixnum::U8Decoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = U8Decoder::new().omit(true);
    for _ in 0..2 {
        assert_eq!(d.decode(&[1], Eos::new(false)).unwrap(), 0);
        assert_eq!(d.finish_decoding().unwrap(), None);
    }
}
''')

seed('C26-box-start', 'C26', [(ENC, '''impl<E: ?Sized + Encode> Encode for Box<E> {
    type Item = E::Item;

    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        (**self).encode(buf, eos)
    }

    fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
        (**self).start_encoding(item)''', '''impl<E: ?Sized + Encode> Encode for Box<E> {
    type Item = E::Item;

    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        (**self).encode(buf, eos)
    }

    fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
        track_assert!((**self).is_idle(), ErrorKind::EncoderFull);
        (**self).start_encoding(item)''')],
     'a boxed encoder that accepts an item while it is busy (an absent optional item)', 'the boxed encoder refuses what the encoder accepts', '''
use bytecodec::fixnum::U8Encoder;
use bytecodec::{Encode, EncodeExt};
fn main() {
    let mut a = U8Encoder::new().optional();
    let mut b = Box::new(U8Encoder::new().optional());
    a.start_encoding(Some(1)).unwrap();
    Encode::start_encoding(&mut b, Some(1)).unwrap();
    fn go<E: Encode<Item = Option<u8>>>(e: &mut E) -> bool {
        e.start_encoding(None).is_ok()
    }
    assert_eq!(go(&mut a), go(&mut b));
}
''')

seed('C26-mut-exact', 'C26', [(ENC, '''impl<E: ?Sized + SizedEncode> SizedEncode for &mut E {
    fn exact_requiring_bytes(&self) -> u64 {
        (**self).exact_requiring_bytes()''', '''impl<E: ?Sized + SizedEncode> SizedEncode for &mut E {
    fn exact_requiring_bytes(&self) -> u64 {
        (**self).requiring_bytes().to_u64().unwrap_or(0)''')],
     'a borrowed sized encoder whose general announcement is unknown', 'the borrowed encoder gives another exact size', '''
use bytecodec::fixnum::U8Encoder;
use bytecodec::{Encode, EncodeExt, SizedEncode};
fn main() {
    let mut e = U8Encoder::new().last(7);
    struct Free<E>(E);
    impl<E: Encode> Encode for Free<E> {
        type Item = E::Item;
        fn encode(&mut self, b: &mut [u8], eos: bytecodec::Eos) -> bytecodec::Result<usize> {
            self.0.encode(b, eos)
        }
        fn start_encoding(&mut self, i: Self::Item) -> bytecodec::Result<()> {
            self.0.start_encoding(i)
        }
        fn requiring_bytes(&self) -> bytecodec::ByteCount {
            bytecodec::ByteCount::Unknown
        }
        fn is_idle(&self) -> bool {
            self.0.is_idle()
        }
    }
    impl<E: SizedEncode> SizedEncode for Free<E> {
        fn exact_requiring_bytes(&self) -> u64 {
            self.0.exact_requiring_bytes()
        }
    }
    fn size<E: SizedEncode>(e: E) -> u64 {
        e.exact_requiring_bytes()
    }
    let _ = &mut e;
    let mut f = Free(U8Encoder::new());
    f.start_encoding(1).unwrap();
    assert_eq!(size(&mut f), f.exact_requiring_bytes());
}
''')

seed('C17-chunked-request', 'C17', [(IO, '''                ByteCount::Infinite => buf.len(),
                ByteCount::Unknown => 1,''', '''                ByteCount::Infinite => buf.len() - 1,
                ByteCount::Unknown => cmp::min(1, buf.len()),'''), (IO, '''                size = track!(reader.read(&mut buf[..size]).map_err(Error::from))?;
                Eos::new(size == 0)''', '''                let want = size; size = track!(reader.read(&mut buf[..size]).map_err(Error::from))?;
                Eos::new(size == 0 || (want > 512 && size < want && size % 512 == 0))''')],
     'a reader that delivers a large item in blocks of 512 bytes', 'a short read of 512 bytes is taken for the end of the stream', '''
use bytecodec::bytes::RemainingBytesDecoder;
use bytecodec::io::IoDecodeExt;
use std::io::Read;
struct R(usize);
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(512).min(self.0);
        self.0 -= n;
        Ok(n)
    }
}
fn main() {
    assert_eq!(RemainingBytesDecoder::new().decode_exact(R(2000)).unwrap().len(), 2000);
}
''')

seed('C18-slice-trailing', 'C18', [(DEC, '''        track_assert_eq!(size, buf.len(), ErrorKind::InvalidInput; self.is_idle());
        track!(self.finish_decoding())''', '''        if size != 0 || !self.is_idle() {
            track_assert_eq!(size, buf.len(), ErrorKind::InvalidInput; self.is_idle());
        }
        track!(self.finish_decoding())''')],
     'a decoder whose item has no bytes and a slice that is not empty', 'bytes that do not belong to the item are ignored', '''
use bytecodec::null::NullDecoder;
use bytecodec::DecodeExt;
fn main() {
    NullDecoder.decode_from_bytes(&[]).unwrap();
    assert!(NullDecoder.decode_from_bytes(&[1]).is_err());
}
''')

seed('C19-sticky-state', 'C19', [(IO, '''                Ok(size) => {
                    self.stream_state = StreamState::Normal;
                    self.tail += size;
                }''', '''                Ok(size) => {
                    if !self.stream_state.is_error() {
                        self.stream_state = StreamState::Normal;
                    }
                    self.tail += size;
                }''')],
     'a read error followed by a successful read that fills the buffer', 'the buffer goes on reporting the error', '''
use bytecodec::io::ReadBuf;
use std::io::Read;
struct R(bool);
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 = !self.0;
        if self.0 { Err(std::io::Error::new(std::io::ErrorKind::Other, "x")) } else { b[0] = 1; Ok(1) }
    }
}
fn main() {
    let mut r = R(false);
    let mut b = ReadBuf::new(vec![0; 1]);
    assert!(b.fill(&mut r).is_err());
    b.fill(&mut r).unwrap();
    assert!(b.stream_state().is_normal());
}
''')

seed('C20-flush-interrupted', 'C20', [(IO, '''                Err(e) => {
                    if e.kind() == io::ErrorKind::WouldBlock {
                        self.stream_state = StreamState::WouldBlock;
                        break;
                    } else {
                        self.stream_state = StreamState::Error;
                        return Err(track!(Error::from(e)));
                    }
                }
                Ok(0) => {
                    self.stream_state = StreamState::Eos;
                    break;
                }
                Ok(size) => {
                    self.stream_state = StreamState::Normal;
                    self.head += size;''', '''                Err(e) => {
                    if e.kind() == io::ErrorKind::WouldBlock {
                        self.stream_state = StreamState::WouldBlock;
                        break;
                    } else {
                        self.head = 0;
                        self.stream_state = StreamState::Error;
                        return Err(track!(Error::from(e)));
                    }
                }
                Ok(0) => {
                    self.stream_state = StreamState::Eos;
                    break;
                }
                Ok(size) => {
                    self.stream_state = StreamState::Normal;
                    self.head += size;''')],
     'a write error after a partial write of the same content', 'bytes that were written are written again after the error', '''
use bytecodec::io::WriteBuf;
use std::io::Write;
#[derive(Default)]
struct W(Vec<u8>, usize);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 == 2 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "x"));
        }
        self.0.push(b[0]);
        Ok(1)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut w = W::default();
    let mut b = WriteBuf::new(vec![0; 4]);
    Write::write(&mut b, &[1, 2, 3]).unwrap();
    assert!(b.flush(&mut w).is_err());
    b.flush(&mut w).unwrap();
    assert_eq!(w.0, [1, 2, 3]);
}
''')

seed('C21-eos-both', 'C21', [(IO, '''        self.rbuf.stream_state().is_eos() || self.wbuf.stream_state().is_eos()''', '''        (self.rbuf.stream_state().is_eos() && self.rbuf.is_empty()) || self.wbuf.stream_state().is_eos()''')],
     'the end of the source while bytes of the read buffer have not been taken', 'the end is not reported', '''
use bytecodec::io::BufferedIo;
use std::io::{Cursor, Read};
fn main() {
    let mut s = BufferedIo::new(Cursor::new(vec![1, 2]), 4, 4);
    s.execute_io().unwrap();
    assert!(s.is_eos());
    let mut b = [0; 9];
    assert_eq!(s.read_buf_mut().read(&mut b).unwrap(), 2);
    assert!(s.is_eos());
}
''')

seed('C23-refused-item', 'C23', [(M, '''        } else {
            self.buf.extend_from_slice(buf);
            Ok(buf.len())
        }''', '''        } else {
            if self.buf.len() + buf.len() > 256 && self.buf.len() < 256 {
                // a new block for large messages
                let mut block = Vec::with_capacity(4096);
                block.extend_from_slice(buf);
                self.buf = block;
            } else {
                self.buf.extend_from_slice(buf);
            }
            Ok(buf.len())
        }''')],
     'a message of more than 256 bytes in several pieces', 'the beginning of the message is lost', '''
use bytecodec::json_codec::JsonDecoder;
use bytecodec::{Decode, Eos};
fn main() {
    let text = serde_json::to_vec(&"a".repeat(400)).unwrap();
    let mut d = JsonDecoder::<String>::new();
    for c in text.chunks(100) {
        d.decode(c, Eos::new(false)).unwrap();
    }
    d.decode(&[], Eos::new(true)).unwrap();
    assert_eq!(d.finish_decoding().unwrap().len(), 400);
}
''', features=['json_codec'], deps=['serde_json = "1"'])

seed('C24-decoding-zero', 'C24', [(BC, '''            (ByteCount::Finite(0), ByteCount::Unknown) => ByteCount::Unknown,
            (ByteCount::Unknown, ByteCount::Finite(0)) => ByteCount::Unknown,
            (ByteCount::Finite(a), ByteCount::Unknown) => ByteCount::Finite(a),
            (ByteCount::Unknown, ByteCount::Finite(b)) => ByteCount::Finite(b),''', '''            (ByteCount::Finite(0), ByteCount::Unknown) => ByteCount::Unknown,
            (ByteCount::Finite(a), ByteCount::Unknown) => ByteCount::Finite(a),
            (ByteCount::Unknown, ByteCount::Finite(b)) => ByteCount::Finite(b),''')],
     'an unknown count plus zero, in this order', 'the sum is zero, and so depends on the order', '''
use bytecodec::ByteCount::*;
fn main() {
    assert_eq!(Unknown.add_for_decoding(Finite(0)), Finite(0).add_for_decoding(Unknown));
}
''')

seed('C24-eos-order', 'C24', [(EOS, '''#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd)]
pub struct Eos(ByteCount);
impl Eos {''', '''#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Eos(ByteCount);
impl PartialOrd for Eos {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        self.0.to_u64().partial_cmp(&other.0.to_u64())
    }
}
impl Eos {''')],
     'the comparison of distances that are not finite', 'unknown and infinite distances compare as if they were equal and below every finite one', '''
use bytecodec::{ByteCount, Eos};
fn main() {
    let (u, i, f) = (Eos::new(false), Eos::with_remaining_bytes(ByteCount::Infinite), Eos::new(true));
    assert_eq!(u.partial_cmp(&f), None);
    assert!(i > f);
}
''')

seed('C12-collectn-skip', 'C12', [(C, '''            let item = track!(self.inner.finish_decoding())?;
            self.items.extend(iter::once(item));
            self.remaining_items -= 1;''', '''            let item = track!(self.inner.finish_decoding())?;
            self.items.extend(iter::once(item));
            self.remaining_items -= 1;
            if self.remaining_items >= 64 && offset == buf.len() {
                break;
            }''')],
     'a counted collection of more than 64 items that have no bytes', 'the collection stops early with nothing left to take', '''
use bytecodec::null::NullDecoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = NullDecoder.collectn::<Vec<_>>(100);
    assert_eq!(d.decode(&[], Eos::new(false)).unwrap(), 0);
    assert!(d.is_idle());
    assert_eq!(d.finish_decoding().unwrap().len(), 100);
}
''')

seed('C02-repeat-batch', 'C02', [(C, '''            while self.inner.is_idle() {
                if let Some(item)''', '''            let mut empty = 0;
            while self.inner.is_idle() {
                empty += 1;
                if empty > 16 {
                    return Ok(offset);
                }
                if let Some(item)''')],
     'more than sixteen successive items without an encoding', 'the encoder leaves the buffer unfilled although it is neither finished nor suspended', '''
use bytecodec::fixnum::U8Encoder;
use bytecodec::{Encode, EncodeExt, Eos};
fn main() {
    let mut e = U8Encoder::new().optional().repeat();
    let mut items = vec![None; 20];
    items.push(Some(7));
    e.start_encoding(items.into_iter()).unwrap();
    let mut b = [0; 1];
    assert_eq!(e.encode(&mut b, Eos::new(false)).unwrap(), 1);
}
''')

seed('C03-copy-refill', 'C03', [(B, '''        let size = cmp::min(buf.len(), self.bytes.as_ref().len() - self.offset);
        self.bytes.as_mut()[self.offset..][..size].copy_from_slice(&buf[..size]);
        self.offset += size;
        if self.offset != self.bytes.as_mut().len() {''', '''        if self.is_idle() && eos.is_reached() && !buf.is_empty() { self.offset = 0 } let size = cmp::min(buf.len(), self.bytes.as_ref().len() - self.offset);
        self.bytes.as_mut()[self.offset..][..size].copy_from_slice(&buf[..size]);
        self.offset += size;
        if self.offset != self.bytes.as_mut().len() {''')],
     'a decode call on a complete item together with the end of the stream', 'the complete item is overwritten by the next one', '''
use bytecodec::fixnum::U8Decoder;
use bytecodec::{Decode, Eos};
fn main() {
    let mut d = U8Decoder::new();
    assert_eq!(d.decode(&[1], Eos::new(false)).unwrap(), 1);
    assert_eq!(d.decode(&[2], Eos::new(true)).unwrap(), 0);
    assert_eq!(d.finish_decoding().unwrap(), 1);
}
''')

seed('C08-expected-alias', 'C08', [(C, '''        self.expected_bytes = bytes;
        self.remaining_bytes = bytes;
        Ok(())''', '''        self.expected_bytes = bytes;
        if self.remaining_bytes != 0 {
            self.remaining_bytes = bytes;
        }
        Ok(())''')],
     'a new length after a length of zero', 'the next item still has the length zero', '''
use bytecodec::bytes::RemainingBytesDecoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = RemainingBytesDecoder::new().length(0);
    d.set_expected_bytes(2).unwrap();
    assert_eq!(d.decode(&[1, 2, 3], Eos::new(false)).unwrap(), 2);
    assert_eq!(d.finish_decoding().unwrap(), [1, 2]);
}
''')

seed('C04-null-item', 'C04', [(C, '''            } else {
                    self.items = None;
                    return Ok(offset);
                }''', '''            } else {
                    if offset < buf.len() || eos.is_reached() {
                        self.items = None;
                    }
                    return Ok(offset);
                }''')],
     'items that end exactly with the buffer', 'the encoder is not idle although all bytes of the item are written', '''
use bytecodec::fixnum::U8Encoder;
use bytecodec::{Encode, EncodeExt, Eos};
fn main() {
    let mut e = U8Encoder::new().repeat();
    e.start_encoding(vec![1, 2].into_iter()).unwrap();
    let mut b = [0; 2];
    assert_eq!(e.encode(&mut b, Eos::new(false)).unwrap(), 2);
    assert!(e.is_idle());
}
''')

seed('C06-utf8-eos', 'C06', [(C, '''    fn is_idle(&self) -> bool {
        self.inner1.as_ref().is_some_and(Decode::is_idle)
    }''', '''    fn is_idle(&self) -> bool {
        match self.inner1 {
            Some(ref d) => d.requiring_bytes() == ByteCount::Finite(0) || d.is_idle(),
            None => false,
        }
    }''')],
     'a second stage that requires no bytes and is not complete (a length of zero)', 'the second stage counts as complete before it was given the end of its window', '''
use bytecodec::bytes::RemainingBytesDecoder;
use bytecodec::fixnum::U8Decoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = U8Decoder::new().and_then(|n| RemainingBytesDecoder::new().length(u64::from(n)));
    assert_eq!(d.decode(&[0], Eos::new(false)).unwrap(), 1);
    assert!(d.is_idle());
    assert_eq!(d.finish_decoding().unwrap(), [0u8; 0]);
    struct Z(bool);
    impl Decode for Z {
        type Item = ();
        fn decode(&mut self, _: &[u8], _: Eos) -> bytecodec::Result<usize> {
            self.0 = true;
            Ok(0)
        }
        fn finish_decoding(&mut self) -> bytecodec::Result<()> {
            Ok(())
        }
        fn requiring_bytes(&self) -> bytecodec::ByteCount {
            bytecodec::ByteCount::Finite(0)
        }
        fn is_idle(&self) -> bool {
            self.0
        }
    }
    let mut d = U8Decoder::new().and_then(|n| RemainingBytesDecoder::new().length(u64::from(n)).slice());
    assert_eq!(d.decode(&[0], Eos::new(false)).unwrap(), 1);
    let _ = Z(false);
    let mut d = U8Decoder::new().and_then(|_| Stall);
    assert_eq!(d.decode(&[0], Eos::new(false)).unwrap(), 1);
    assert!(!d.is_idle());
    struct Stall;
    impl Decode for Stall {
        type Item = ();
        fn decode(&mut self, _: &[u8], _: Eos) -> bytecodec::Result<usize> {
            Ok(0)
        }
        fn finish_decoding(&mut self) -> bytecodec::Result<()> {
            panic!("not complete")
        }
        fn requiring_bytes(&self) -> bytecodec::ByteCount {
            bytecodec::ByteCount::Finite(0)
        }
        fn is_idle(&self) -> bool {
            false
        }
    }
}
''')
S[-1]['id'] = 'C11-then-idle'
S[-1]['property'] = 'C11'

seed('C14-error-kind', 'C14', [(C, '''        let item = track!((self.try_from)(item).map_err(Error::from))?;
        self.inner.start_encoding(item)''', '''        let item = track!((self.try_from)(item).map_err(|e| invalid_item(e.into())))?;
        self.inner.start_encoding(item)'''), (C, '''/// Combinator for repeating encoding of `E::Item`.
''', '''fn invalid_item(e: Error) -> Error {
    use trackable::error::ErrorKindExt;
    ErrorKind::InvalidInput.cause(e).into()
}

/// Combinator for repeating encoding of `E::Item`.
''')],
     'a failing conversion whose error is of another kind', 'the error of the conversion is replaced by another one', '''
use bytecodec::fixnum::U8Encoder;
use bytecodec::{Encode, EncodeExt, Error, ErrorKind};
fn main() {
    let mut e = U8Encoder::new().try_map_from(|_: u8| -> Result<u8, Error> { Err(ErrorKind::EncoderFull.into()) });
    assert_eq!(*e.start_encoding(1).unwrap_err().kind(), ErrorKind::EncoderFull);
}
''')

seed('C01-then-early', 'C01', [(C, '''        if self.inner1.is_none() {
            bytecodec_try_decode!(self.inner0, offset, buf, eos);
            let item''', '''        if self.inner1.is_none() {
            bytecodec_try_decode!(self.inner0, offset, buf, eos);
            if offset == buf.len() && !eos.is_reached() && offset > 1 {
                return Ok(offset);
            }
            let item''')],
     'a first stage that ends exactly with a buffer, followed by a second stage without bytes', 'whether the item is complete depends on where the buffer ends', '''
use bytecodec::fixnum::U16beDecoder;
use bytecodec::{Decode, DecodeExt, Eos};
use bytecodec::null::NullDecoder;
fn main() {
    for cut in 0..3 {
        let mut d = U16beDecoder::new().and_then(|_| NullDecoder);
        let b = [1, 2];
        d.decode(&b[..cut], Eos::new(false)).unwrap();
        d.decode(&b[cut..], Eos::new(false)).unwrap();
        assert!(d.is_idle());
    }
}
''')

seed('C06-maybe-started', 'C06', [(C, '''        if size != 0 {
            self.started = true;
        }
        Ok(size)''', '''        self.started = size != 0;
        Ok(size)''')],
     'an item that is begun, an empty buffer, and then the end of the stream', 'the truncation of the item is not reported', '''
use bytecodec::fixnum::U16beDecoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = U16beDecoder::new().maybe_eos();
    assert_eq!(d.decode(&[1], Eos::new(false)).unwrap(), 1);
    assert_eq!(d.decode(&[], Eos::new(false)).unwrap(), 0);
    assert!(d.decode(&[], Eos::new(true)).is_err());
}
''')

seed('C05-exact-str', 'C05', [(B, '''impl<S: AsRef<str>> SizedEncode for Utf8Encoder<S> {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact_requiring_bytes()''', '''impl<S: AsRef<str>> SizedEncode for Utf8Encoder<S> {
    fn exact_requiring_bytes(&self) -> u64 {
        (self.0.bytes.as_ref()).map_or(0, |s| s.0.as_ref().chars().count() - self.0.offset.min(1)) as u64 + self.0.offset.min(1) as u64 * 0''')],
     'a text with characters of more than one byte, or one that is partly written', 'the exact size counts characters', '''
use bytecodec::bytes::Utf8Encoder;
use bytecodec::{Encode, SizedEncode};
fn main() {
    let mut e = Utf8Encoder::new();
    e.start_encoding("\\u{e9}").unwrap();
    assert_eq!(e.exact_requiring_bytes(), 2);
}
''')

seed('C25-eos-back', 'C25', [(C, '''            ByteCount::Unknown => {
                let consumable_bytes = self.max_bytes - self.consumed_bytes;
                track_assert!((buf.len() as u64) <= consumable_bytes,''', '''            ByteCount::Unknown => {
                let consumable_bytes = self.max_bytes - self.consumed_bytes;
                track_assert!(self.consumed_bytes + (buf.len() as u64) <= self.max_bytes + 1 - 1,''')],
     'a limit of 2^64-1 bytes', 'the check of the limit overflows', '''
use bytecodec::bytes::RemainingBytesDecoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = RemainingBytesDecoder::new().max_bytes(u64::MAX);
    assert_eq!(d.decode(&[1], Eos::new(false)).unwrap(), 1);
}
''')

if __name__ == '__main__':
    run(S, sys.argv[1:])
