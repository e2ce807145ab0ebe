import sys
from seedlib import run
B, C, IO, F, M, T, ENC, DEC, BC, EOS, MA, P, A, SL = ('src/%s.rs' % x for x in ('bytes', 'combinator', 'io', 'fixnum', 'monolithic', 'tuple', 'encode', 'decode', 'byte_count', 'eos', 'macros', 'padding', 'io_async', 'slice'))
S = []


def seed(id, property, edits, needs, breaks, main, **o):
    S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, main=main, **o))


seed('C03-remaining-empty', 'C03', [(B, '''        self.eos = false;
        let bytes = mem::take(&mut self.buf);
        Ok(bytes)''', '''        let bytes = mem::take(&mut self.buf);
        self.eos = bytes.is_empty();
        Ok(bytes)''')],
     'an item of no bytes is taken and the decoder is used again', 'the empty item is available for ever', '''
use bytecodec::bytes::RemainingBytesDecoder;
use bytecodec::{Decode, Eos};
fn main() {
    let mut d = RemainingBytesDecoder::new();
    d.decode(&[], Eos::new(true)).unwrap();
    assert_eq!(d.finish_decoding().unwrap(), b"");
    assert!(d.finish_decoding().is_err());
    assert_eq!(d.decode(&[1], Eos::new(true)).unwrap(), 1);
}
''')

seed('C04-padding-same', 'C04', [(P, '''        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
        self.padding_byte = Some(item);''', '''        track_assert!(self.padding_byte.map_or(true, |b| b == item), ErrorKind::EncoderFull);
        self.padding_byte = Some(item);''')],
     'the padding byte in progress is given once more', 'a busy encoder accepts an item', '''
use bytecodec::padding::PaddingEncoder;
use bytecodec::Encode;
fn main() {
    let mut e = PaddingEncoder::new();
    e.start_encoding(7).unwrap();
    assert!(e.start_encoding(8).is_err());
    assert!(e.start_encoding(7).is_err());
}
''')

seed('C05-last-busy', 'C05', [(C, '''        if self.item.is_some() {
            ByteCount::Unknown
        } else {
            self.inner.requiring_bytes()
        }
    }
}
impl<E: SizedEncode> SizedEncode for Last<E> {''', '''        if self.item.is_some() && self.inner.is_idle() {
            ByteCount::Unknown
        } else {
            self.inner.requiring_bytes()
        }
    }
}
impl<E: SizedEncode> SizedEncode for Last<E> {''')],
     'a final-item encoder made from an encoder that still has an item', 'only the bytes of the first item are announced', '''
use bytecodec::bytes::Utf8Encoder;
use bytecodec::{ByteCount, Encode, EncodeExt};
fn main() {
    let e = Utf8Encoder::with_item("ab").unwrap().last("cde");
    assert!(e.requiring_bytes() != ByteCount::Finite(2));
}
''')

seed('C07-last-first', 'C07', [(C, '''        let mut offset = 0;
        bytecodec_try_encode!(self.inner, offset, buf, eos);
        if let Some(item) = self.item.take() {''', '''        let mut offset = 0;
        let first = if self.item.is_some() {
            Eos::new(false)
        } else {
            eos
        };
        bytecodec_try_encode!(self.inner, offset, buf, first);
        if let Some(item) = self.item.take() {''')],
     'a final-item encoder made from an encoder that still has an item, and an output that ends within that item', 'running out of space is not reported', '''
use bytecodec::bytes::Utf8Encoder;
use bytecodec::{Encode, EncodeExt, Eos};
fn main() {
    let mut e = Utf8Encoder::with_item("ab").unwrap().last("c");
    assert!(e.encode(&mut [0], Eos::new(true)).is_err());
}
''')

seed('C08-refused-item', 'C08', [(C, '''        track_assert!(self.inner.is_idle(), ErrorKind::IncompleteDecoding);
        self.remaining_bytes = self.expected_bytes;

        track!(self.inner.finish_decoding())''', '''        track_assert!(self.inner.is_idle(), ErrorKind::IncompleteDecoding);
        let item = track!(self.inner.finish_decoding())?;

        self.remaining_bytes = self.expected_bytes;
        Ok(item)''')],
     'an item whose bytes are complete but which is refused (malformed text), followed by another item', 'the count is not restarted for the next item', '''
use bytecodec::bytes::Utf8Decoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = Utf8Decoder::new().length(2);
    d.decode(&[0xff, 0xff], Eos::new(false)).unwrap();
    assert!(d.finish_decoding().is_err());
    assert_eq!(d.decode(b"abc", Eos::new(false)).unwrap(), 2);
    assert_eq!(d.finish_decoding().unwrap(), "ab");
}
''')

seed('C09-refused-item', 'C09', [(C, '''        track_assert!(self.inner.is_idle(), ErrorKind::IncompleteDecoding);
        self.consumed_bytes = 0;
        track!(self.inner.finish_decoding())''', '''        track_assert!(self.inner.is_idle(), ErrorKind::IncompleteDecoding);
        let item = track!(self.inner.finish_decoding())?;
        self.consumed_bytes = 0;
        Ok(item)''')],
     'an item whose bytes are complete but which is refused (malformed text), followed by another item', 'the bytes of the refused item count against the limit of the next', '''
use bytecodec::bytes::Utf8Decoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = Utf8Decoder::new().max_bytes(3);
    d.decode(&[0xff, 0xff], Eos::new(true)).unwrap();
    assert!(d.finish_decoding().is_err());
    assert_eq!(d.decode(b"ab", Eos::new(true)).unwrap(), 2);
    assert_eq!(d.finish_decoding().unwrap(), "ab");
}
''')

seed('C10-suspended-eos', 'C10', [(C, '''        let eos = eos.back((buf.len() - limit) as u64);
        let size = track!(self.inner.decode(&buf[..limit], eos))?;''', '''        let eos = if limit == 0 {
            eos
        } else {
            eos.back((buf.len() - limit) as u64)
        };
        let size = track!(self.inner.decode(&buf[..limit], eos))?;''')],
     'a suspended slice is given the final bytes of the stream', 'the end of the stream is visible although the slice has not reached it', '''
use bytecodec::bytes::RemainingBytesDecoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = RemainingBytesDecoder::new().slice();
    d.set_consumable_bytes(1);
    assert_eq!(d.decode(&[1], Eos::new(false)).unwrap(), 1);
    assert_eq!(d.decode(&[2], Eos::new(true)).unwrap(), 0);
    assert!(!d.is_idle());
    d.set_consumable_bytes(1);
    assert_eq!(d.decode(&[2], Eos::new(true)).unwrap(), 1);
    assert_eq!(d.finish_decoding().unwrap(), [1, 2]);
}
''')

seed('C10-suspended-eos-encode', 'C10', [(C, '''        let eos = eos.back((buf.len() - limit) as u64);
        let size = track!(self.inner.encode(&mut buf[..limit], eos))?;''', '''        let eos = if buf.len() > limit + 1 {
            eos.back((buf.len() - limit) as u64)
        } else {
            eos
        };
        let size = track!(self.inner.encode(&mut buf[..limit], eos))?;''')],
     'a grant one byte short of the final buffer', 'the end of the stream is visible one byte early', '''
use bytecodec::padding::PaddingEncoder;
use bytecodec::{Encode, EncodeExt, Eos};
fn main() {
    let mut e = PaddingEncoder::with_item(1).unwrap().slice();
    e.set_consumable_bytes(2);
    assert_eq!(e.encode(&mut [0; 3], Eos::new(true)).unwrap(), 2);
    assert!(!e.is_idle());
}
''')

seed('C11-andthen-exact-fit', 'C11', [(C, '''            let item = track!(self.inner0.finish_decoding())?;
            self.inner1 = Some((self.and_then)(item));
        }''', '''            let item = track!(self.inner0.finish_decoding())?;
            self.inner1 = Some((self.and_then)(item));
            if offset != 0 && offset == buf.len() {
                return Ok(offset);
            }
        }''')],
     'the first stage ends with the last byte of the stream and the second stage needs none', 'the second stage never learns of the end of the stream', '''
use bytecodec::bytes::RemainingBytesDecoder;
use bytecodec::fixnum::U8Decoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = U8Decoder::new().and_then(|_| RemainingBytesDecoder::new());
    d.decode(&[1], Eos::new(true)).unwrap();
    assert_eq!(d.finish_decoding().unwrap(), b"");
}
''')

seed('C12-repeat-empty-item', 'C12', [(C, '''            offset += size;
            if size == 0 && !self.inner.is_idle() {
                return Ok(offset);
            }
        }
    }

    fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
        self.items = Some(item);''', '''            offset += size;
            if size == 0 {
                return Ok(offset);
            }
        }
    }

    fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
        self.items = Some(item);''')],
     'an element with an empty encoding', 'encoding stops at the empty element although there is room', '''
use bytecodec::bytes::Utf8Encoder;
use bytecodec::io::IoEncodeExt;
use bytecodec::{Encode, EncodeExt};
fn main() {
    let mut e = Utf8Encoder::<&str>::new().repeat();
    e.start_encoding(vec!["", "a", "", "b"].into_iter()).unwrap();
    let mut v = Vec::new();
    e.encode_all(&mut v).unwrap();
    assert_eq!(v, b"ab");
}
''')

seed('C13-maybe-refused', 'C13', [(C, '''        track_assert!(self.inner.is_idle(), ErrorKind::IncompleteDecoding);
        self.started = false;
        track!(self.inner.finish_decoding())''', '''        track_assert!(self.inner.is_idle(), ErrorKind::IncompleteDecoding);
        let item = track!(self.inner.finish_decoding())?;
        self.started = false;
        Ok(item)''')],
     'a refused item (malformed text) is followed by the end of the stream', 'the end of the stream before the first byte of an item is not tolerated', '''
use bytecodec::bytes::{BytesDecoder, Utf8Decoder, CopyableBytesDecoder};
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let _ = BytesDecoder::new([0u8; 1]);
    let mut d = CopyableBytesDecoder::new([0u8; 2]).try_map(|b| if b[0] == 0 { Err(bytecodec::ErrorKind::InvalidInput.into()) } else { Ok::<_, bytecodec::Error>(b) }).maybe_eos();
    let _ = Utf8Decoder::new();
    d.decode(&[0, 0], Eos::new(false)).unwrap();
    assert!(d.finish_decoding().is_err());
    assert_eq!(d.decode(&[], Eos::new(true)).unwrap(), 0);
}
''')

seed('C14-maperr-start', 'C14', [(C, '''    fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
        self.inner
            .start_encoding(item)
            .map_err(|e| (self.map_err)(e).into())''', '''    fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
        track_assert!(self.inner.is_idle(), ErrorKind::EncoderFull);
        self.inner
            .start_encoding(item)
            .map_err(|e| (self.map_err)(e).into())''')],
     'an item for an encoder that is busy', 'the error of the busy encoder is not replaced', '''
use bytecodec::fixnum::U8Encoder;
use bytecodec::{Encode, EncodeExt, Error, ErrorKind};
fn main() {
    let mut e = U8Encoder::with_item(1).unwrap().map_err(|_| Error::from(ErrorKind::Other));
    let e = e.start_encoding(2).err().unwrap();
    assert_eq!(*e.kind(), ErrorKind::Other);
}
''')

seed('C17-maybe-eos-hang', 'C17', [(IO, '''            track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
''', '')],
     'a decoder that tolerates the end of the stream, and a reader that has ended', 'decoding never returns', '''
use bytecodec::fixnum::U16beDecoder;
use bytecodec::io::IoDecodeExt;
use bytecodec::DecodeExt;
struct R(usize);
impl std::io::Read for R {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        assert!(self.0 < 1000);
        Ok(0)
    }
}
fn main() {
    assert!(U16beDecoder::new().maybe_eos().decode_exact(R(0)).is_err());
}
''')

seed('C18-endless-empty', 'C18', [(ENC, '''            ByteCount::Infinite => track_panic!(ErrorKind::InvalidInput),''', '''            ByteCount::Infinite => {
                let mut buf = Vec::new();
                track!(self.encode(&mut buf, Eos::new(true)))?;
                Ok(buf)
            }''')],
     'an item without end (padding, chained behind a number) encoded into a vector', 'an error is not reported', '''
use bytecodec::fixnum::U8Encoder;
use bytecodec::padding::PaddingEncoder;
use bytecodec::EncodeExt;
fn main() {
    assert!(PaddingEncoder::new().encode_into_bytes(1).is_err());
    let _ = U8Encoder::new();
}
''')

seed('C19-exact-drain', 'C19', [(IO, '''        buf[..size].copy_from_slice(&self.inner.as_ref()[self.head..][..size]);
        self.head += size;
        if self.head == self.tail {''', '''        buf[..size].copy_from_slice(&self.inner.as_ref()[self.head..][..size]);
        self.head += size;
        if size < buf.len() {''')],
     'a read of exactly the buffered bytes', 'the drained buffer stays full', '''
use bytecodec::io::ReadBuf;
use std::io::Read;
fn main() {
    let mut b = ReadBuf::new([0; 2]);
    b.fill(&b"abcd"[..]).unwrap();
    b.read_exact(&mut [0; 2]).unwrap();
    assert_eq!((b.len(), b.room(), b.is_empty()), (0, 2, true));
}
''')

seed('C20-full-eos', 'C20', [(IO, '''        B: AsMut<[u8]>,
    {
        let eos = Eos::new(buf.stream_state.is_eos());
        let size = track!(self.encode(&mut buf.inner.as_mut()[buf.tail..], eos))?;
        buf.tail += size;
        Ok(())''', '''        B: AsMut<[u8]>,
    {
        let eos = Eos::new(!buf.stream_state.is_normal() && buf.stream_state != StreamState::WouldBlock);
        let size = track!(self.encode(&mut buf.inner.as_mut()[buf.tail..], eos))?;
        buf.tail += size;
        Ok(())''')],
     'encoding into the buffer after a failed write of the sink', 'a transient failure of the sink is presented as the end of the stream', '''
use bytecodec::bytes::Utf8Encoder;
use bytecodec::io::{IoEncodeExt, WriteBuf};
use bytecodec::EncodeExt;
struct W;
impl std::io::Write for W {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::ConnectionReset.into()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut b = WriteBuf::new([0; 2]);
    let mut e = Utf8Encoder::with_item("abc").unwrap();
    e.encode_to_write_buf(&mut b).unwrap();
    assert!(b.flush(W).is_err());
    e.encode_to_write_buf(&mut b).unwrap();
}
''')

seed('C21-half-close', 'C21', [(IO, '''        track!(self.rbuf.fill(&mut self.stream))?;
        track!(self.wbuf.flush(&mut self.stream))?;
        Ok(())''', '''        track!(self.rbuf.fill(&mut self.stream))?;
        if !(self.rbuf.stream_state.is_eos() && self.rbuf.is_empty()) {
            track!(self.wbuf.flush(&mut self.stream))?;
        }
        Ok(())''')],
     'the peer has closed its side and everything it sent has been taken', 'the bytes still to be written stay in the buffer', '''
use bytecodec::io::BufferedIo;
use std::io::{Read, Write};
struct S(Vec<u8>);
impl Read for S {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { Ok(0) }
}
impl Write for S {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut io = BufferedIo::new(S(vec![]), 4, 4);
    io.write_buf_mut().write_all(b"ab").unwrap();
    io.execute_io().unwrap();
    assert_eq!(io.stream_ref().0, b"ab");
}
''')

seed('C22-read-first', 'C22', [(A, '''        let rresult = this.rbuf.poll_fill(this.stream.as_mut(), cx);
        let wresult''', '''        let rresult = this.rbuf.poll_fill(this.stream.as_mut(), cx);
        if rresult.is_pending() && this.rbuf.is_empty() {
            return Poll::Pending;
        }
        let wresult''')],
     'nothing has been received and bytes wait to be written', 'the bytes are not written while nothing is received', '''
use bytecodec::io::BufferedIo;
use std::io::Write;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
struct S(Vec<u8>);
impl AsyncRead for S {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> { Poll::Pending }
}
impl AsyncWrite for S {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> { self.0.extend_from_slice(b); Poll::Ready(Ok(b.len())) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
}
fn clone(_: *const ()) -> RawWaker { RawWaker::new(std::ptr::null(), &VT) }
fn nop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
fn main() {
    let w = unsafe { Waker::from_raw(clone(std::ptr::null())) };
    let mut cx = Context::from_waker(&w);
    let mut io = BufferedIo::new(S(vec![]), 4, 4);
    io.write_buf_mut().write_all(b"ab").unwrap();
    let _ = Pin::new(&mut io).execute_io_poll(&mut cx);
    assert_eq!(io.stream_ref().0, b"ab");
}
''', features=['tokio-async'], deps=['tokio = "1"'])

seed('C26-empty-call', 'C26', [(DEC, '''impl<D: ?Sized + Decode> Decode for Box<D> {
    type Item = D::Item;

    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        (**self).decode(buf, eos)''', '''impl<D: ?Sized + Decode> Decode for Box<D> {
    type Item = D::Item;

    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        if buf.is_empty() && !eos.is_reached() {
            return Ok(0);
        }
        (**self).decode(buf, eos)''')],
     'a boxed decoder that proceeds in a call without bytes (an item of no bytes is collected)', 'the call does nothing', '''
use bytecodec::null::NullDecoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = Box::new(NullDecoder.peekable());
    d.decode(&[], Eos::new(false)).unwrap();
    assert!(d.is_idle());
}
''')

seed('C28-encode-room', 'C28', [(MA, '''            $offset += track!($encoder.encode(&mut $buf[$offset..], $eos); $($track_arg)*)?;
            if !$encoder.is_idle() {''', '''            $offset += track!($encoder.encode(&mut $buf[$offset..], $eos); $($track_arg)*)?;
            if $offset == $buf.len() && !$encoder.is_idle() {''')],
     'a part that is suspended before the buffer is full, encoded by the form of the macro with tracking values', 'the next part is written before the rest of the suspended one', '''
#[macro_use]
extern crate trackable;
use bytecodec::bytes::Utf8Encoder;
use bytecodec::combinator::Slice;
use bytecodec::fixnum::U8Encoder;
use bytecodec::{ByteCount, Encode, EncodeExt, Eos, Result};
struct E(Slice<Utf8Encoder>, U8Encoder);
impl Encode for E {
    type Item = (String, u8);
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        let mut offset = 0;
        bytecodec::bytecodec_try_encode!(self.0, offset, buf, eos; buf.len());
        bytecodec::bytecodec_try_encode!(self.1, offset, buf, eos; buf.len());
        Ok(offset)
    }
    fn start_encoding(&mut self, (a, b): (String, u8)) -> Result<()> {
        self.0.start_encoding(a)?;
        self.1.start_encoding(b)
    }
    fn requiring_bytes(&self) -> ByteCount { self.0.requiring_bytes().add_for_encoding(self.1.requiring_bytes()) }
    fn is_idle(&self) -> bool { self.0.is_idle() && self.1.is_idle() }
}
fn main() {
    let mut e = E(Utf8Encoder::new().slice(), U8Encoder::new());
    e.start_encoding(("ab".to_string(), b'c')).unwrap();
    let mut b = [0; 8];
    e.0.set_consumable_bytes(1);
    assert_eq!(e.encode(&mut b, Eos::new(false)).unwrap(), 1);
    e.0.set_consumable_bytes(1);
    assert_eq!(e.encode(&mut b[1..], Eos::new(false)).unwrap(), 2);
    assert_eq!(&b[..3], b"abc");
}
''', deps=['trackable = "1"'])

seed('C15-u40-sign', 'C15', [(F, '''        LittleEndian::read_uint(&b, b.len())
    }
}
impl_decode!(U40leDecoder, u64);''', '''        LittleEndian::read_int(&b, b.len()) as u64
    }
}
impl_decode!(U40leDecoder, u64);''')],
     'a value with the highest of its 40 bits set', 'the value is extended with ones', '''
use bytecodec::fixnum::U40leDecoder;
use bytecodec::DecodeExt;
fn main() {
    assert_eq!(U40leDecoder::new().decode_from_bytes(&[0, 0, 0, 0, 0x80]).unwrap(), 0x80_0000_0000);
}
''')

seed('C16-pad-with-end', 'C16', [(P, '''            for &padding_byte in buf {
                track_assert_eq!(padding_byte, expected, ErrorKind::InvalidInput);
            }
            self.eos = eos.is_reached();''', '''            self.eos = eos.is_reached();
            if self.eos {
                return Ok(buf.len());
            }
            for &padding_byte in buf {
                track_assert_eq!(padding_byte, expected, ErrorKind::InvalidInput);
            }''')],
     'wrong padding in the buffer that comes with the end of the stream', 'it is accepted', '''
use bytecodec::padding::PaddingDecoder;
use bytecodec::{Decode, Eos};
fn main() {
    let mut d = PaddingDecoder::new(Some(1));
    assert!(d.decode(&[1, 2], Eos::new(true)).is_err());
}
''')

seed('C16-slice-window', 'C16', [(SL, '''        &mut self.inner.as_mut()[self.start..self.end]''', '''        &mut self.inner.as_mut()[self.start..]''')],
     'the length of the mutable window', 'the bytes behind the window can be changed through it', '''
use bytecodec::slice::OwnedSlice;
fn main() {
    let mut s = OwnedSlice::new([1u8, 2, 3, 4], 1, 3);
    assert_eq!(s.as_mut().len(), 2);
}
''')

seed('C29-expected-now', 'C29', [(C, '''    pub fn remaining_bytes(&self) -> u64 {
        self.remaining_bytes
    }''', '''    pub fn remaining_bytes(&self) -> u64 {
        if self.remaining_bytes == 0 {
            self.expected_bytes
        } else {
            self.remaining_bytes
        }
    }''')],
     'all bytes of the item are processed and the item is not yet taken', 'the whole length is reported as remaining', '''
use bytecodec::bytes::RemainingBytesDecoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = RemainingBytesDecoder::new().length(2);
    d.decode(&[1, 2], Eos::new(false)).unwrap();
    assert_eq!(d.remaining_bytes(), 0);
}
''')

seed('C08-late-end', 'C08', [(C, '''        let size = track!(self.inner.encode(&mut buf[..limit], eos))?;
        self.remaining_bytes -= size as u64;
        if self.inner.is_idle() {
            let remaining_bytes = self.remaining_bytes;
            self.remaining_bytes = self.expected_bytes;''', '''        let size = track!(self.inner.encode(&mut buf[..limit], eos))?;
        self.remaining_bytes -= size as u64;
        if self.inner.is_idle() {
            let remaining_bytes = self.remaining_bytes;
            if size != 0 || self.expected_bytes == 0 {
                self.remaining_bytes = self.expected_bytes;
            }''')],
     'an item whose end is only found in a call that writes nothing (whole-message encoders and user-defined ones)', 'the count is not restarted', '''
use bytecodec::padding::PaddingEncoder;
use bytecodec::{Encode, EncodeExt, Eos};
struct Late(Vec<u8>, bool);
impl Encode for Late {
    type Item = Vec<u8>;
    fn encode(&mut self, buf: &mut [u8], _: Eos) -> bytecodec::Result<usize> {
        let n = buf.len().min(self.0.len());
        if n == 0 { self.1 = self.0.is_empty(); }
        for b in &mut buf[..n] { *b = self.0.remove(0); }
        Ok(n)
    }
    fn start_encoding(&mut self, v: Vec<u8>) -> bytecodec::Result<()> { self.0 = v; self.1 = false; Ok(()) }
    fn requiring_bytes(&self) -> bytecodec::ByteCount { bytecodec::ByteCount::Unknown }
    fn is_idle(&self) -> bool { self.1 }
}
fn main() {
    let _ = PaddingEncoder::new();
    let mut e = Late(vec![], true).length(2);
    e.start_encoding(vec![1, 2]).unwrap();
    let mut b = [0; 4];
    assert_eq!(e.encode(&mut b, Eos::new(false)).unwrap(), 2);
    e.encode(&mut b, Eos::new(false)).unwrap();
    assert!(e.is_idle());
    e.start_encoding(vec![3, 4]).unwrap();
}
''')

if __name__ == '__main__':
    run(S, sys.argv[1:])
