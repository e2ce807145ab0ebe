import sys
from seedlib import run
B, C, IO, F, M, T, ENC, DEC = 'src/bytes.rs', 'src/combinator.rs', 'src/io.rs', 'src/fixnum.rs', 'src/monolithic.rs', 'src/tuple.rs', 'src/encode.rs', 'src/decode.rs'
S = []


def seed(id, property, edits, needs, breaks, main, **o):
    S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, main=main, **o))


seed('C01-utf8-chunk', 'C01', [(B, '''        track!(self.0.decode(buf, eos))
    }

    fn finish_decoding(&mut self) -> Result<Self::Item> {
        let b''', '''        let size = track!(self.0.decode(buf, eos))?;
        track!(std::str::from_utf8(&buf[..size]).map_err(|e| ErrorKind::InvalidInput.cause(e)))?;
        Ok(size)
    }

    fn finish_decoding(&mut self) -> Result<Self::Item> {
        let b''')],
     'a multi-byte character cut by a buffer boundary', 'Utf8Decoder validates every chunk on its own (fail-fast)', '''
use bytecodec::bytes::Utf8Decoder;
use bytecodec::{Decode, Eos};
fn main() {
    let text = "h\\u{e9}llo";
    for cut in 0..=text.len() {
        let mut d = Utf8Decoder::new();
        let (a, b) = text.as_bytes().split_at(cut);
        assert_eq!(d.decode(a, Eos::new(false)).unwrap(), a.len());
        assert_eq!(d.decode(b, Eos::new(true)).unwrap(), b.len());
        assert_eq!(d.finish_decoding().unwrap(), text);
    }
}
''')

seed('C02-repeat-prefetch', 'C02', [(C, '''                if let Some(item) = self.items.as_mut().and_then(Iterator::next) {
                    track!(self.inner.start_encoding(item))?;
                } else {
                    self.items = None;
                    return Ok(offset);
                }
''', '''                let next = self.items.as_mut().and_then(Iterator::next);
                match next {
                    Some(item) if offset < buf.len() => {
                        track!(self.inner.start_encoding(item))?;
                    }
                    Some(_) => return Ok(offset),
                    None => {
                        self.items = None;
                        return Ok(offset);
                    }
                }
''')],
     'the end of an element coincides with the end of an output buffer (or an empty first buffer)',
     'Repeat takes the next element from the iterator before it notices that the buffer is full, and loses it', '''
use bytecodec::fixnum::U16beEncoder;
use bytecodec::{Encode, EncodeExt, Eos};
fn main() {
    for step in 1..8 {
        let mut e = U16beEncoder::new().repeat();
        e.start_encoding(vec![0x0102u16, 0x0304, 0x0506].into_iter()).unwrap();
        let mut out = Vec::new();
        for _ in 0..20 {
            let mut b = vec![0; step];
            let n = e.encode(&mut b, Eos::new(false)).unwrap();
            out.extend_from_slice(&b[..n]);
        }
        assert!(e.is_idle());
        assert_eq!(out, [1, 2, 3, 4, 5, 6]);
    }
}
''')

seed('C03-remaining-early', 'C03', [(B, '''        track_assert!(self.eos, ErrorKind::IncompleteDecoding);
        self.eos = false;
        let bytes = mem::take(&mut self.buf);
        Ok(bytes)
''', '''        let bytes = mem::take(&mut self.buf);
        track_assert!(self.eos, ErrorKind::IncompleteDecoding; bytes.len());
        self.eos = false;
        Ok(bytes)
''')], 'finish_decoding called before the end of the stream, then decoding goes on',
     'RemainingBytesDecoder drops the bytes it holds when it is asked for the item too early', '''
use bytecodec::bytes::RemainingBytesDecoder;
use bytecodec::{Decode, Eos};
fn main() {
    let mut d = RemainingBytesDecoder::new();
    d.decode(b"foo", Eos::new(false)).unwrap();
    assert!(d.finish_decoding().is_err());
    d.decode(b"bar", Eos::new(true)).unwrap();
    assert_eq!(d.finish_decoding().unwrap(), b"foobar");
}
''')

seed('C04-bytes-busy-reset', 'C04', [(B, '''        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
        self.bytes = Some(item);
        self.offset = 0;
''', '''        self.offset = 0;
        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
        self.bytes = Some(item);
''')], 'an item offered while the encoder is in the middle of another one',
     'a refused item rewinds the item being written', '''
use bytecodec::bytes::BytesEncoder;
use bytecodec::{Encode, Eos};
fn main() {
    let mut e = BytesEncoder::new();
    e.start_encoding(vec![1u8, 2, 3, 4]).unwrap();
    let mut a = [0; 2];
    assert_eq!(e.encode(&mut a, Eos::new(false)).unwrap(), 2);
    assert!(e.start_encoding(vec![9]).is_err());
    let mut b = [0; 4];
    let n = e.encode(&mut b, Eos::new(false)).unwrap();
    assert_eq!(&b[..n], [3, 4]);
}
''')

seed('C05-collectn-multiply', 'C05', [(C, '''        if self.remaining_items == 0 {
            ByteCount::Finite(0)
        } else {
            self.inner.requiring_bytes()
        }
''', '''        match self.inner.requiring_bytes() {
            ByteCount::Finite(n) => ByteCount::Finite(n.saturating_mul(self.remaining_items as u64)),
            _ if self.remaining_items == 0 => ByteCount::Finite(0),
            other => other,
        }
''')], 'counted collection of items that announce a finite requirement, asked in the middle of an item',
     'the requirement of the item in progress is multiplied by the number of remaining items (too many bytes are announced)', '''
use bytecodec::bytes::RemainingBytesDecoder;
use bytecodec::fixnum::U8Decoder;
use bytecodec::{ByteCount, Decode, DecodeExt, Eos};
fn main() {
    let mut d = U8Decoder::new().and_then(|n| RemainingBytesDecoder::new().length(u64::from(n))).collectn::<Vec<_>>(3);
    let input = [3, 7, 8, 9, 0, 0];
    for i in 0..input.len() {
        if let ByteCount::Finite(n) = d.requiring_bytes() {
            assert!(n <= (input.len() - i) as u64, "announced {} with {} to go", n, input.len() - i);
        }
        assert_eq!(d.decode(&input[i..i + 1], Eos::new(false)).unwrap(), 1);
    }
    d.decode(&[], Eos::new(false)).unwrap();
    assert_eq!(d.finish_decoding().unwrap().len(), 3);
    assert_eq!(d.requiring_bytes(), ByteCount::Finite(0));
}
''')

seed('C06-tuple-gap', 'C06', [('src/macros.rs', '''            $offset += track!($decoder.decode(&$buf[$offset..], $eos), $($track_arg)*)?;
            if !$decoder''', '''            if $offset < $buf.len() || $offset == 0 {
                $offset += track!($decoder.decode(&$buf[$offset..], $eos), $($track_arg)*)?;
            }
            if !$decoder''')],
     'the stream ends exactly between two parts of a tuple, announced together with the last byte',
     'a tuple decoder does not show the end of the stream to the part that has not begun', '''
use bytecodec::fixnum::U8Decoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = U8Decoder::new().chain(U8Decoder::new());
    assert!(d.decode(&[7], Eos::new(true)).is_err());
}
''')

seed('C06-bytes-tail', 'C06', [(B, '''            self.offset += size;
            size
        };
        if self.exact_requiring_bytes() != 0 {''', '''            self.offset += size;
            size
        };
        if self.exact_requiring_bytes() > size as u64 {''')],
     'the stream ends when at least half of what was missing has just arrived',
     'BytesDecoder does not report a truncated item', '''
use bytecodec::bytes::BytesDecoder;
use bytecodec::{Decode, Eos};
fn main() {
    for n in 0..4 {
        let mut d = BytesDecoder::new([0; 4]);
        assert!(d.decode(&b"abc"[..n], Eos::new(true)).is_err());
    }
}
''')

seed('C07-tuple-skip', 'C07', [('src/macros.rs', '''    ($encoder:expr, $offset:expr, $buf:expr, $eos:expr, $($track_arg:tt)*) => {
        if !$encoder.is_idle() {
            $offset''', '''    ($encoder:expr, $offset:expr, $buf:expr, $eos:expr, $($track_arg:tt)*) => {
        if $offset != 0 && $offset == $buf.len() {
            return Ok($offset);
        }
        if !$encoder.is_idle() {
            $offset'''), ], 'the space left ends exactly between two parts of a tuple',
     'TupleEncoder does not give the following part the chance to report that the space has run out (and leaves an empty last part unfinished)', '''
use bytecodec::fixnum::U8Encoder;
use bytecodec::{Encode, EncodeExt, Eos};
fn main() {
    let mut e = U8Encoder::new().chain(U8Encoder::new());
    e.start_encoding((1, 2)).unwrap();
    let mut b = [0; 1];
    assert!(e.encode(&mut b, Eos::new(true)).is_err());
}
''')

seed('C08-length-exact-fit', 'C08', [(C, '''        let (limit, eos) = if (buf.len() as u64) < self.remaining_bytes {''', '''        let (limit, eos) = if (buf.len() as u64) <= self.remaining_bytes {''')],
     'an inner encoder that fills up to the end (padding), an output buffer that ends exactly with the window, and more stream to come',
     'the end of the window is not shown to the inner encoder', '''
use bytecodec::padding::PaddingEncoder;
use bytecodec::{Encode, EncodeExt, Eos};
fn main() {
    let mut e = PaddingEncoder::new().length(4);
    e.start_encoding(7).unwrap();
    let mut b = [0; 4];
    assert_eq!(e.encode(&mut b, Eos::new(false)).unwrap(), 4);
    assert!(e.is_idle());
    e.start_encoding(8).unwrap();
}
''')

seed('C09-maxbytes-unknown', 'C09', [(C, '''            ByteCount::Unknown => {
                let consumable_bytes = self.max_bytes - self.consumed_bytes;
                track_assert!((buf.len() as u64) <= consumable_bytes,''', '''            ByteCount::Unknown => {
                track_assert!((buf.len() as u64) <= self.max_bytes,''')],
     'an oversized item that arrives in several buffers', 'the limit is compared with each buffer instead of the item so far', '''
use bytecodec::bytes::RemainingBytesDecoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = RemainingBytesDecoder::new().max_bytes(4);
    let mut ok = true;
    for _ in 0..3 {
        ok &= d.decode(b"ab", Eos::new(false)).is_ok();
    }
    assert!(!ok);
}
''')

seed('C10-slice-grant', 'C10', [(C, '''        let size = track!(self.inner.decode(&buf[..limit], eos))?;
        self.consumable_bytes -= size as u64;
        Ok(size)
''', '''        let size = track!(self.inner.decode(&buf[..limit], eos))?;
        self.consumable_bytes -= limit as u64;
        Ok(size)
''')],
     'an item that is completed before the grant is used up', 'the grant is reduced by what was offered instead of what was processed', '''
use bytecodec::fixnum::U16beDecoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = U16beDecoder::new().slice();
    d.set_consumable_bytes(4);
    assert_eq!(d.decode(&[0, 1, 0, 2], Eos::new(false)).unwrap(), 2);
    assert_eq!(d.consumable_bytes(), 2);
    assert_eq!(d.finish_decoding().unwrap(), 1);
    assert_eq!(d.decode(&[0, 2], Eos::new(false)).unwrap(), 2);
    assert_eq!(d.finish_decoding().unwrap(), 2);
}
''')

seed('C11-andthen-stale', 'C11', [(C, '''        let mut d = track_assert_some!(self.inner1.take(), ErrorKind::IncompleteDecoding);
        track!(d.finish_decoding())
''', '''        let d = track_assert_some!(self.inner1.as_mut(), ErrorKind::IncompleteDecoding);
        let item = track!(d.finish_decoding())?;
        if d.is_idle() {
            self.inner1 = None;
        }
        Ok(item)
''')], 'a second item decoded by the same decoder, whose second stage is reusable', 'the second stage chosen for the first item is used again for the next one', '''
use bytecodec::fixnum::{U8Decoder, U16beDecoder};
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = U8Decoder::new().and_then(|n| U16beDecoder::new().map(move |v| (n, v)));
    let mut input = &[1u8, 0, 5, 2, 0, 6][..];
    for want in [(1, 5), (2, 6)] {
        let n = d.decode(input, Eos::new(false)).unwrap();
        assert_eq!(n, 3);
        input = &input[n..];
        assert_eq!(d.finish_decoding().unwrap(), want);
    }
}
''')

seed('C12-collect-overrun', 'C12', [(C, '''        if self.eos {
            return Ok(0);
        }

        let mut offset = 0;
        while''', '''        let mut offset = 0;
        while''')], 'decode called again before the collection is taken', 'a complete collection goes on taking items of what follows', '''
use bytecodec::fixnum::U8Decoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = U8Decoder::new().collect::<Vec<_>>();
    assert_eq!(d.decode(&[1, 2], Eos::new(true)).unwrap(), 2);
    assert_eq!(d.decode(&[3], Eos::new(true)).unwrap(), 0);
    assert_eq!(d.finish_decoding().unwrap(), [1, 2]);
}
''')

seed('C13-peek-idle', 'C13', [(C, '''    fn is_idle(&self) -> bool {
        self.item.is_some()
    }
}

''', '''    fn is_idle(&self) -> bool {
        self.item.is_some() || self.inner.is_idle()
    }
}

''')], 'an inner decoder that needs no bytes (idle from the start)', 'Peekable reports an item although none can be peeked or taken', '''
use bytecodec::fixnum::U8Decoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = U8Decoder::new().omit(true).peekable();
    assert!(!d.is_idle() || d.peek().is_some());
    d.decode(&[], Eos::new(false)).unwrap();
    assert!(d.is_idle());
    assert_eq!(d.peek(), Some(&None));
    assert_eq!(d.finish_decoding().unwrap(), None);
}
''')

seed('C14-maperr-finish', 'C14', [(C, '''        self.inner
            .finish_decoding()
            .map_err(|e| (self.map_err)(e).into())
''', '''        track!(self.inner.finish_decoding())
''')], 'an inner decoder whose last step fails (invalid text, failed conversion, item asked for too early)', 'errors of finish_decoding are not mapped', '''
use bytecodec::bytes::Utf8Decoder;
use bytecodec::{Decode, DecodeExt, Eos, Error, ErrorKind};
fn main() {
    let mut d = Utf8Decoder::new().map_err(|_| Error::from(ErrorKind::Other));
    d.decode(&[0xff], Eos::new(true)).unwrap();
    assert_eq!(*d.finish_decoding().unwrap_err().kind(), ErrorKind::Other);
}
''')

seed('C15-u56-range', 'C15', [(F, '''        track_assert!(n <= 0xFF_FFFF_FFFF_FFFF, ErrorKind::InvalidInput);
        let len = b.len();
        LittleEndian''', '''        track_assert!(n >> 57 == 0, ErrorKind::InvalidInput);
        let len = b.len();
        LittleEndian''')], 'a value that exceeds 56 bits by one bit', 'a too large value is not refused (the library below panics)', '''
use bytecodec::fixnum::U56leEncoder;
use bytecodec::Encode;
fn main() {
    for n in [1u64 << 56, (1 << 57) - 1, 1 << 57, u64::MAX] {
        let mut e = U56leEncoder::new();
        assert!(e.start_encoding(n).is_err());
        assert!(e.is_idle());
    }
}
''')

seed('C16-set-bytes', 'C16', [(B, '''        self.bytes = Some(bytes);
        self.offset = 0;
    }

    fn exact''', '''        self.bytes = Some(bytes);
    }

    fn exact'''), (B, '''        let bytes = track_assert_some!(self.bytes.take(), ErrorKind::DecoderTerminated);
        Ok(bytes)
''', '''        let bytes = track_assert_some!(self.bytes.take(), ErrorKind::DecoderTerminated);
        self.offset = 0;
        Ok(bytes)
''')], 'a new buffer given while an earlier one is partly filled', 'the new buffer is filled from where the old one was', '''
use bytecodec::bytes::BytesDecoder;
use bytecodec::{Decode, Eos};
fn main() {
    let mut d = BytesDecoder::new(vec![0; 3]);
    d.decode(b"ab", Eos::new(false)).unwrap();
    d.set_bytes(vec![0; 3]);
    assert_eq!(d.decode(b"xyz", Eos::new(false)).unwrap(), 3);
    assert_eq!(d.finish_decoding().unwrap(), b"xyz");
}
''')

seed('C17-short-read-eos', 'C17', [(IO, '''                size = track!(reader.read(&mut buf[..size]).map_err(Error::from))?;
                Eos::new(size == 0)
''', '''                let n = track!(reader.read(&mut buf[..size]).map_err(Error::from))?;
                Eos::new(std::mem::replace(&mut size, n) > n)
''')], 'a reader that delivers an item in short reads', 'a short read is taken for the end of the stream', '''
use bytecodec::fixnum::U32beDecoder;
use bytecodec::io::IoDecodeExt;
use std::io::Read;
struct Drip<'a>(&'a [u8]);
impl<'a> Read for Drip<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(1);
        self.0.read(&mut buf[..n])
    }
}
fn main() {
    assert_eq!(U32beDecoder::new().decode_exact(Drip(&[0, 0, 1, 2])).unwrap(), 0x102);
}
''')

seed('C18-write-all', 'C18', [(IO, '''            track!(writer.write_all(&buf[..size]).map_err(Error::from))?;''', '''            track!(writer.write(&buf[..size]).map_err(Error::from))?;''')],
     'a writer that takes fewer bytes than offered', 'encode_all drops what the writer did not take at once', '''
use bytecodec::bytes::BytesEncoder;
use bytecodec::io::IoEncodeExt;
use bytecodec::EncodeExt;
use std::io::Write;
struct Drip(Vec<u8>);
impl Write for Drip {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = buf.len().min(2);
        self.0.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = Drip(Vec::new());
    BytesEncoder::with_item(b"hello".to_vec()).unwrap().encode_all(&mut w).unwrap();
    assert_eq!(w.0, b"hello");
}
''')

seed('C19-read-at-capacity', 'C19', [(IO, '''        self.head += size;
        if self.head == self.tail {
            self.head = 0;
            self.tail = 0;
        }
        Ok(size)
    }
}

/// Write buffer.''', '''        self.head += size;
        if self.head == self.inner.as_ref().len() {
            self.head = 0;
            self.tail = 0;
        }
        Ok(size)
    }
}

/// Write buffer.''')], 'the content of a partly filled read buffer is taken out with Read::read', 'the buffer is rewound only at its capacity: emptiness and room are wrong', '''
use bytecodec::io::ReadBuf;
use std::io::Read;
fn main() {
    let mut b = ReadBuf::new(vec![0; 8]);
    b.fill(&b"abc"[..]).unwrap();
    let mut o = [0; 3];
    assert_eq!(b.read(&mut o).unwrap(), 3);
    assert!(b.is_empty());
    assert_eq!(b.room(), 8);
    let mut b = ReadBuf::new(vec![0; 8]);
    b.fill(&b"abcdefgh"[..]).unwrap();
    assert_eq!(b.read(&mut o).unwrap(), 3);
    assert_eq!(b.read(&mut o).unwrap(), 3);
    assert_eq!(b.read(&mut o).unwrap(), 2);
    assert!(b.is_empty());
}
''')

seed('C20-compact-stale', 'C20', [(IO, '''                        self.stream_state = StreamState::WouldBlock;
                        break;
                    } else {
                        self.stream_state = StreamState::Error;
                        return Err(track!(Error::from(e)));
                    }
                }
                Ok(0) => {
                    self.stream_state = StreamState::Eos;
                    break;
                }
                Ok(size) => {
                    self.stream_state = StreamState::Normal;
                    self.head += size;
''', '''                        self.stream_state = StreamState::WouldBlock;
                        if self.tail == self.inner.as_ref().len() {
                            // make room for further output
                            let rest = self.head..self.tail;
                            self.head = 0;
                            self.tail = self.len() - rest.len();
                            self.inner.as_mut().copy_within(rest, self.tail);
                            self.tail = self.inner.as_ref().len() - self.tail;
                        }
                        break;
                    } else {
                        self.stream_state = StreamState::Error;
                        return Err(track!(Error::from(e)));
                    }
                }
                Ok(0) => {
                    self.stream_state = StreamState::Eos;
                    break;
                }
                Ok(size) => {
                    self.stream_state = StreamState::Normal;
                    self.head += size;
''')], 'a full write buffer, a partial write and then a blocking sink', 'the compaction of the remaining bytes moves them to the wrong place', '''
use bytecodec::io::WriteBuf;
use std::io::{Error, ErrorKind, Write};
struct Sink(Vec<u8>, usize);
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.1);
        if n == 0 { return Err(Error::from(ErrorKind::WouldBlock)); }
        self.1 -= n;
        self.0.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut s = Sink(Vec::new(), 1);
    let mut w = WriteBuf::new(vec![0; 4]);
    w.write_all(b"abcd").unwrap();
    w.flush(&mut s).unwrap();
    s.1 = 9;
    w.flush(&mut s).unwrap();
    assert_eq!(s.0, b"abcd");
    assert!(w.is_empty());
}
''')

seed('C21-would-block', 'C21', [(IO, '''            && (self.wbuf.is_empty() || self.wbuf.stream_state().would_block())''', '''            && self.wbuf.stream_state().would_block() == !self.wbuf.is_empty()''')],
     'a write side that blocked earlier and has since been drained by another writer (or whose buffer was filled after it blocked)', 'would_block is wrong when the write buffer is empty but the last write had blocked', '''
use bytecodec::io::{BufferedIo, StreamState};
use std::io::{Error, ErrorKind, Read, Write};
struct Nothing;
impl Read for Nothing {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { Err(Error::from(ErrorKind::WouldBlock)) }
}
impl Write for Nothing {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(Error::from(ErrorKind::WouldBlock)) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut io = BufferedIo::new(Nothing, 4, 4);
    *io.write_buf_mut().stream_state_mut() = StreamState::WouldBlock;
    io.execute_io().unwrap();
    assert!(io.would_block());
}
''')

seed('C22-poll-error', 'C22', [('src/io_async.rs', '''        if let Poll::Ready(rresult) = rresult {
            track!(rresult)?;
        }
        if let Poll::Ready(wresult) = wresult {
            track!(wresult)?;
        }
''', '''        if let Poll::Ready(wresult) = wresult {
            track!(wresult)?;
        } else if let Poll::Ready(rresult) = rresult {
            track!(rresult)?;
        }
''')], 'a read error while the write direction is ready', 'the read error is dropped', '''
use bytecodec::io::BufferedIo;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
struct Bad;
impl AsyncRead for Bad {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::Other, "x")))
    }
}
impl AsyncWrite for Bad {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> { Poll::Ready(Ok(b.len())) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
}
fn raw() -> RawWaker {
    fn c(_: *const ()) -> RawWaker { raw() }
    fn n(_: *const ()) {}
    static T: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
    RawWaker::new(std::ptr::null(), &T)
}
fn main() {
    let w = unsafe { Waker::from_raw(raw()) };
    let mut cx = Context::from_waker(&w);
    let mut io = BufferedIo::new(Bad, 4, 4);
    match Pin::new(&mut io).execute_io_poll(&mut cx) {
        Poll::Ready(Err(_)) => {}
        other => panic!("{:?}", other.is_ready()),
    }
}
''', features=['tokio-async'], deps=['tokio = { version = "1", features = ["io-util"] }'])

seed('C22-waker-condition', 'C22', [(IO, '''        buf.waker = Some(cx.waker().clone());
''', '''        buf.waker = if size == 0 { Some(cx.waker().clone()) } else { None };
''')], 'an encoder that fills the rest of the write buffer and has bytes left', 'the task is registered for a wake-up only if nothing at all could be written', '''
use bytecodec::bytes::BytesEncoder;
use bytecodec::io::{IoEncodeExt, WriteBuf};
use bytecodec::Encode;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Wake, Waker};
struct C(AtomicUsize);
impl Wake for C { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
fn main() {
    let c = Arc::new(C(AtomicUsize::new(0)));
    let w = Waker::from(c.clone());
    let mut cx = Context::from_waker(&w);
    let mut e = BytesEncoder::new();
    e.start_encoding(vec![1u8, 2, 3, 4]).unwrap();
    let mut b = WriteBuf::new(vec![0; 3]);
    e.encode_to_write_buf_async(&mut b, &mut cx).unwrap();
    assert!(!e.is_idle());
    b.flush(Vec::new()).unwrap();
    assert!(c.0.load(Ordering::SeqCst) >= 1);
}
''', features=['tokio-async'])

seed('C23-writer-chain', 'C23', [(M, '''        match self.a.write(buf)? {
            0 => self.b.write(buf),
            n => Ok(n),
        }
''', '''        let n = self.a.write(buf)?;
        if n < buf.len() {
            self.b.write_all(&buf[n..])?;
        }
        Ok(n.max(1).min(buf.len()))
''')], 'a piece of the serialized message that straddles the end of the output buffer', 'the rest of the piece is written once by the chain and again by the serializer', '''
use bytecodec::json_codec::JsonEncoder;
use bytecodec::{Encode, Eos};
fn main() {
    let item = vec!["hello".to_string(), "world".to_string()];
    for cut in 0..20 {
        let mut e = JsonEncoder::new();
        e.start_encoding(item.clone()).unwrap();
        let mut out = Vec::new();
        let mut step = cut;
        while !e.is_idle() {
            let mut b = vec![0; step];
            let n = e.encode(&mut b, Eos::new(false)).unwrap();
            out.extend_from_slice(&b[..n]);
            step = 32;
        }
        assert_eq!(String::from_utf8(out).unwrap(), r#"["hello","world"]"#);
    }
}
''', features=['json_codec'])

seed('C24-cmp-order', 'C24', [('src/byte_count.rs', '''            (ByteCount::Unknown, _) | (_, ByteCount::Unknown) => None,
            (ByteCount::Infinite, ByteCount::Infinite) => Some(cmp::Ordering::Equal),
            (ByteCount::Infinite, _) => Some(cmp::Ordering::Greater),
''', '''            (ByteCount::Infinite, ByteCount::Infinite) => Some(cmp::Ordering::Equal),
            (ByteCount::Infinite, _) => Some(cmp::Ordering::Greater),
            (ByteCount::Unknown, _) | (_, ByteCount::Unknown) => None,
''')], 'comparing an infinite with an unknown count (in this order)', 'infinite > unknown although unknown is incomparable', '''
use bytecodec::ByteCount;
fn main() {
    assert_eq!(ByteCount::Infinite.partial_cmp(&ByteCount::Unknown), None);
    assert_eq!(ByteCount::Unknown.partial_cmp(&ByteCount::Infinite), None);
}
''')

seed('C25-max-shrink', 'C25', [(C, '''        track_assert!(
            self.consumed_bytes <= n,
            ErrorKind::InvalidInput;
            self.consumed_bytes,
            n
        );
        self.max_bytes = n;
''', '''        self.max_bytes = n;
''')], 'the limit is lowered below what the item in progress has already consumed', 'the next decode call subtracts with overflow (panic, or an unlimited decoder in release builds)', '''
use bytecodec::bytes::RemainingBytesDecoder;
use bytecodec::{Decode, DecodeExt, Eos};
fn main() {
    let mut d = RemainingBytesDecoder::new().max_bytes(8);
    d.decode(b"abcd", Eos::new(false)).unwrap();
    let _ = d.set_max_bytes(2);
    let _ = d.decode(b"", Eos::new(false));
    assert!(d.decode(b"abcdefgh", Eos::new(false)).is_err());
}
''')

seed('C25-encode-all-spin', 'C25', [(IO, '''            if !self.is_idle() {
                track_assert_ne!(size, 0, ErrorKind::Other);
            }
''', '''            if size == 0 && self.requiring_bytes() == ByteCount::Finite(0) {
                break;
            }
''')], 'encode_all on a suspended encoder', 'encode_all loops forever', '''
use bytecodec::bytes::BytesEncoder;
use bytecodec::io::IoEncodeExt;
use bytecodec::{Encode, EncodeExt};
use std::sync::mpsc::channel;
use std::time::Duration;
fn main() {
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut e = BytesEncoder::new().slice();
        e.set_consumable_bytes(2);
        e.start_encoding(vec![1u8, 2, 3]).unwrap();
        tx.send(e.encode_all(Vec::new()).is_err()).unwrap();
    });
    let ok = rx.recv_timeout(Duration::from_secs(10)).unwrap_or(false);
    assert!(ok);
}
''')

seed('C26-box-idle', 'C26', [(ENC, '''impl<E: ?Sized + Encode> Encode for Box<E> {
    type Item = E::Item;

    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        (**self).encode(buf, eos)
    }

    fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
        (**self).start_encoding(item)
    }

    fn requiring_bytes(&self) -> ByteCount {
        (**self).requiring_bytes()
    }

    fn is_idle(&self) -> bool {
        (**self).is_idle()
    }
}''', '''impl<E: ?Sized + Encode> Encode for Box<E> {
    type Item = E::Item;

    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        (**self).encode(buf, eos)
    }

    fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
        (**self).start_encoding(item)
    }

    fn requiring_bytes(&self) -> ByteCount {
        (**self).requiring_bytes()
    }
}''')], 'a boxed encoder holding an item with an empty encoding', 'a boxed encoder uses the default is_idle instead of that of the encoder', '''
use bytecodec::bytes::BytesEncoder;
use bytecodec::Encode;
fn main() {
    let mut a = BytesEncoder::new();
    let mut b: Box<BytesEncoder<Vec<u8>>> = Box::new(BytesEncoder::new());
    a.start_encoding(vec![]).unwrap();
    b.start_encoding(vec![]).unwrap();
    assert_eq!(a.is_idle(), b.is_idle());
    assert_eq!(a.start_encoding(vec![1]).is_ok(), b.start_encoding(vec![1]).is_ok());
}
''')

seed('C27-bom', 'C27', [(B, '''        let s = track!(String::from_utf8(b).map_err(|e| ErrorKind::InvalidInput.cause(e)))?;
        Ok(s)
''', '''        let s = track!(String::from_utf8(b).map_err(|e| ErrorKind::InvalidInput.cause(e)))?;
        Ok(s.strip_prefix('\\u{feff}').map(str::to_owned).unwrap_or(s))
''')], 'a text that begins with U+FEFF', 'the decoder drops a leading byte order mark, so the text is not restored', '''
use bytecodec::bytes::{Utf8Decoder, Utf8Encoder};
use bytecodec::{DecodeExt, EncodeExt};
fn main() {
    let text = "\\u{feff}x".to_string();
    let bytes = Utf8Encoder::new().encode_into_bytes(text.clone()).unwrap();
    assert_eq!(Utf8Decoder::new().decode_from_bytes(&bytes).unwrap(), text);
}
''')

seed('C15-nan', 'C15', [(F, '''        BigEndian::read_f32(&b)''', '''        Some(BigEndian::read_f32(&b)).filter(|n| !n.is_nan()).unwrap_or(f32::NAN)''')],
     'a not-a-number with a payload or sign', 'decoded NaNs lose their bit pattern', '''
use bytecodec::fixnum::F32beDecoder;
use bytecodec::DecodeExt;
fn main() {
    for bits in [0x7fc0_0001u32, 0xffc0_0000, 0x7f80_0001] {
        assert_eq!(F32beDecoder::new().decode_from_bytes(&bits.to_be_bytes()).unwrap().to_bits(), bits);
    }
}
''')

if __name__ == '__main__':
    run(S, sys.argv[1:])
