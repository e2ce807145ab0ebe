#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, stmt, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=stmt,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
D='src/decode.rs'; E='src/encode.rs'; C='src/combinator.rs'; B='src/bytes.rs'; IO='src/io.rs'; T='src/tuple.rs'
DOBS=['Decode::decode','Decode::finish_decoding','Decode::is_idle','Decode::requiring_bytes']
EOBS=['Encode::encode','Encode::start_encoding','Encode::is_idle','Encode::requiring_bytes']

p('C01','Decoding does not depend on how the input is cut into buffers',
 'For every decoder composed from the library\'s decoders and combinators (used within their documented preconditions) and every input stream, the decoded items, the number of stream bytes each item takes and whether decoding fails depend only on the bytes of the stream. They do not depend on how the stream is cut into successive buffers, empty buffers included, nor on whether the end of the stream is announced together with the last bytes, in a later call, or ahead of time as a known remaining byte count. A decoder that has neither completed an item nor been deliberately suspended consumes the whole buffer it is given.',
 ['inputs','programs','histories'],'all decoder compositions x all byte streams x all ways to cut the stream into buffers x all ways to announce the end',
 'Tests feed each decoder one or two hand-picked buffers; nothing varies the cut points, the empty buffers or the moment end-of-stream is announced.',
 [D,C,B,T,'src/fixnum.rs','src/macros.rs','src/padding.rs','src/null.rs'],
 [('offset bookkeeping in leaf decoders',B),('bytecodec_try_decode! sequencing','src/macros.rs'),('per-combinator partial state',C)],
 [('offset / buf','bytes of the current item seen so far',B),('inner1','second-stage decoder of and_then',C),('items','items collected so far',C)],DOBS)

p('C02','Encoded bytes do not depend on the sizes of the output buffers',
 'For every encoder composed from the library\'s encoders and combinators, every accepted item and every sequence of output buffer sizes (zero included), the concatenation of the bytes written is exactly the item\'s encoding: no byte is lost, duplicated or reordered at a buffer boundary. An encoder that is neither finished nor deliberately suspended fills the buffer it was given.',
 ['inputs','programs','histories'],'all encoder compositions x all items x all sequences of buffer sizes',
 'Tests encode into one large buffer (at most one two-part split for JSON); boundaries inside an item, exactly at a field end, and zero-sized buffers are not exercised.',
 [E,C,B,T,'src/monolithic.rs','src/macros.rs','src/padding.rs'],
 [('BytesEncoder offset',B),('bytecodec_try_encode! sequencing','src/macros.rs'),('Repeat/Last/PreEncode/MonolithicEncoder carry-over',C)],
 [('offset','bytes of the pending item already written',B)],EOBS)

p('C03','A decoded item is available exactly once, and only when complete',
 'A decoder reports that it is idle exactly when a complete item is waiting (or it can decode nothing more); an idle decoder consumes no further input, and taking the item yields it once and makes a reusable decoder ready for the next item. Asking for the item too early fails with an incomplete-decoding error and does not disturb the decoding in progress: no already consumed byte, partial item or running count is lost.',
 ['inputs','programs','histories'],'all decoder compositions x all inputs x all interleavings of feeding, probing while idle and (premature) taking of items',
 'Tests call the methods in the one expected order; no test asks for an item early in a composed decoder and then continues, or feeds a decoder that is already idle.',
 [D,C,B,T,'src/padding.rs','src/monolithic.rs'],
 [('is_idle / finish_decoding of every decoder',C),('reset of offset, counters and flags in finish_decoding',B)],
 [('started / consumed_bytes / remaining_bytes','per-item bookkeeping that finish resets',C)],DOBS)

p('C04','An encoder takes one item at a time and refused items leave no trace',
 'An encoder that has no item to encode accepts any valid item and one that still has bytes to write refuses the next item; once all bytes of an item are written it reports idle and accepts another item, as often as wanted. An item that is refused, because the encoder is busy or because the item is invalid, changes nothing about the bytes that are subsequently written nor about the encoder\'s readiness. (An absent optional item is no item: it is accepted at any time and ignored.)',
 ['inputs','programs','histories'],'all encoder compositions x all item sequences x refused items at every point of an encoding',
 'Each test encodes one item with a fresh encoder; no test offers an item to a busy composed encoder, or reuses an encoder after completion or refusal.',
 [E,C,B,T,'src/monolithic.rs','src/padding.rs','src/fixnum.rs'],
 [('track_assert!(is_idle, EncoderFull)',B),('start_encoding of tuples',T),('remaining_bytes reset of Length',C)],
 [('bytes / item / padding_byte','the pending item',B)],EOBS)

p('C05','Announced byte requirements are truthful',
 'A decoder that announces a finite requirement n before its item is complete cannot complete it with fewer than n further bytes unless the stream ends, and announces zero once an item is ready. An encoder that announces a finite requirement writes exactly that many further bytes before it becomes idle, announces zero when it has nothing to encode, and a sized encoder\'s exact count always equals the number of bytes still to be written.',
 ['inputs','programs','histories'],'all compositions x all inputs/items x every intermediate point of a decoding or encoding',
 'Tests look at the requirement of four leaf decoders only; sums over fields, partially processed items and combinators are never compared with what is actually consumed or written.',
 [D,E,C,B,T,'src/byte_count.rs','src/monolithic.rs'],
 [('requiring_bytes / exact_requiring_bytes of every codec',C),('ByteCount::add_for_decoding / add_for_encoding','src/byte_count.rs')],(),
 ['Decode::requiring_bytes','Encode::requiring_bytes','SizedEncode::exact_requiring_bytes'])

p('C06','A truncated input stream never yields an item',
 'If the stream ends before the bytes of the current item are complete, a decoder reports an error (unexpected-end-of-stream for the built-in formats) no later than the call that announces the end, and never produces an item from the truncated bytes. An item whose bytes are complete when the stream ends is always produced.',
 ['inputs','programs','fault_sequences'],'all decoder compositions x all streams x truncation at every byte x every way the end is announced',
 'Tests truncate three decoders at one place each; truncation inside a later field, inside a collected item, or announced by a separate empty buffer is not covered.',
 [C,B,T,IO],[('track_assert!(!eos.is_reached(), UnexpectedEos)',B),('Length end-of-stream check',C),('Collect / CollectN end handling',C)],
 [('eos','whether the end was reached',C)],DOBS)

p('C07','Running out of output space is always reported',
 'If the output stream ends before all bytes of the item fit, encoding reports an unexpected-end-of-stream error in the call that is told so, and never reports the item as written. An item that fits exactly into the remaining space is written without error.',
 ['inputs','programs','fault_sequences'],'all encoder compositions x all items x all capacities around the encoded size',
 'Only the length combinator is tested with too little space, at one size.',
 [E,C,B,T,'src/monolithic.rs'],[('BytesEncoder end check',B),('MonolithicEncoder::encode','src/monolithic.rs'),('Length::encode',C)],(),EOBS)

p('C08','The length combinator consumes or produces exactly the configured size',
 'A length-limited decoder never takes more bytes from the stream than its configured length, presents the end of its window to the inner decoder as end-of-stream, and yields an item only after exactly the configured number of bytes; the count restarts for every item and can be reconfigured only between items. A length-limited encoder emits exactly the configured number of bytes for every item and reports an error for items that are shorter or longer.',
 ['inputs','configurations','histories'],'all lengths, inner codecs, inputs/items, cuts and sequences of items and reconfigurations',
 'Tests use length 3 (and 0) with one string codec and one buffer per item.',
 [C],[('remaining_bytes countdown, expected_eos, set_expected_bytes',C)],
 [('expected_bytes / remaining_bytes','configured size and countdown',C)],DOBS+EOBS+['Length::remaining_bytes','Length::set_expected_bytes'])

p('C09','The size limit combinator bounds every item separately',
 'No item larger than the limit is ever completed: decoding more than the limit, or from a stream given to the limited decoder as a whole that is already known to be longer, fails with invalid-input, and so does encoding more than the limit. Items within the limit always pass, and the count starts again at zero for every item, whatever happened to earlier items.',
 ['inputs','configurations','histories'],'all limits, to-end-of-stream codecs, item sizes around the limit, cuts and item sequences',
 'Tests use limit 3 with one string per size class and do not follow the counter over several calls or items.',
 [C],[('consumed_bytes accounting',C),('set_max_bytes guard',C)],[('consumed_bytes / max_bytes','bytes used by the current item, limit',C)],DOBS+EOBS+['MaxBytes::consumed_bytes'])

p('C10','Slicing never exceeds the granted budget and never loses bytes',
 'A sliced encoder or decoder processes at most the granted number of bytes, reduces the grant by exactly what it processed, stays suspended without error at a zero grant and resumes where it stopped when a new grant is given; the end of the stream is visible to it only when the slice reaches it. Multiplexing several sliced encoders into one stream and demultiplexing with the same grants restores every item, for every schedule of grants.',
 ['inputs','schedules','histories'],'all schedules of grants over several streams, all buffer sizes and items',
 'Tests use fixed grants in a fixed round-robin order over two streams.',
 [C,'src/eos.rs'],[('consumable_bytes accounting',C),('Eos::back','src/eos.rs')],[('consumable_bytes','remaining grant',C)],DOBS+EOBS+['Slice::consumable_bytes'])

p('C11','Sequenced codecs process their parts in order without gaps or overlap',
 'Tuples (of every arity), chained codecs and conditional two-stage decoders give each part exactly the bytes following the previous part, and the part results appear in order. The second stage of a conditional decoder is chosen anew from the first-stage item for every item.',
 ['inputs','programs'],'all arities 2..8, nested chains, first-stage values and cut points between and inside parts',
 'Tests use 2- and 3-tuples of single bytes and one length-prefixed string in one buffer.',
 [T,C,'src/macros.rs'],[('impl_decode!/impl_encode! field order',T),('AndThen inner0/inner1 hand-over',C)],[('inner1','second stage',C)],DOBS+EOBS)

p('C12','Repetition yields all items, in order, exactly once',
 'Collecting to the end of the stream yields the items encoded in the stream in order, counted collection yields exactly the requested number of items and leaves the following bytes untouched, and repeated encoding writes every element in order, elements with an empty encoding included. No item leaks from one collection into the next.',
 ['inputs','programs','histories'],'all element codecs, counts, element sequences and cut points',
 'Tests collect three single-byte items from one buffer and repeat four single-byte items.',
 [C],[('Collect / CollectN loops',C),('Repeat::encode loop',C)],[('items / remaining_items','collected items, items still missing',C)],DOBS+EOBS+['CollectN::remaining_items'])

p('C13','Optional, peeking and final-item adapters are transparent',
 'An omitted decoder consumes nothing and yields no value while a non-omitted one behaves as its inner decoder; an absent optional item writes nothing; a peeked value is the value later taken and is available exactly while an item is waiting; tolerance of end-of-stream applies only before the first byte of an item; a final-item encoder writes what it already held followed by the final item, and then nothing more.',
 ['inputs','programs','histories'],'all inner codecs, mode switches, cut points and end-of-stream positions',
 'Each adapter has one test with one item and one buffer.',
 [C],[('Omittable',C),('Optional',C),('Peekable',C),('MaybeEos',C),('Last',C)],
 [('do_omit','mode',C),('item','peeked / final item',C),('started','a byte of the item was seen',C)],DOBS+EOBS+['Peekable::peek'])

p('C14','Mapping adapters convert each item once and keep the codec usable',
 'Item mapping applies the conversion to exactly the items the inner codec decodes or is given and changes neither the bytes consumed or written nor readiness and announced sizes; error mapping replaces every error of the inner codec and nothing else. A failed conversion surfaces as an error, writes nothing, and leaves the codec able to process the next item.',
 ['inputs','programs','histories'],'all inner codecs, conversions (total and partial), and sequences of convertible and inconvertible items',
 'Doc examples convert a single item; no test continues after a failed conversion.',
 [C],[('Map, TryMap, MapErr',C),('MapFrom, TryMapFrom',C)],(),DOBS+EOBS)

p('C15','Fixed-width numbers have the documented layout and range',
 'Every fixed-width number codec reads and writes exactly the documented number of bytes in the documented byte order, for all values including negative numbers and every floating point bit pattern, and decoding an encoded value gives the value back. Values that do not fit a 24, 40, 48 or 56 bit field are refused as invalid input and nothing is written for them.',
 ['inputs'],'all 36 number codecs x all values (boundaries of every byte, random) x all cut points',
 'Each codec is tested with a single value; only one value per type and never one that is out of range.',
 ['src/fixnum.rs',B],[('decode_item / encode_item per type','src/fixnum.rs'),('range assertions','src/fixnum.rs')],(),DOBS+EOBS)

p('C16','Byte, text and padding codecs are exact and validate their input',
 'Fixed-size, remaining-bytes and text decoders yield exactly the bytes received (a caller-provided buffer is overwritten only inside its window, and a one-shot decoder refuses further work until it is given a new buffer); text is yielded exactly for well-formed UTF-8 and otherwise reported as invalid input. Padding decoders accept exactly the configured byte up to the end of the stream, padding encoders fill the stream to its end, and null codecs touch no byte.',
 ['inputs','histories'],'all byte strings (valid and invalid UTF-8 of every form), sizes, windows, cut points and item sequences',
 'Tests use ASCII strings and one padding length; invalid UTF-8, multi-byte characters cut by buffers and windowed buffers are not tested.',
 [B,'src/padding.rs','src/null.rs','src/slice.rs'],[('BytesDecoder / CopyableBytesDecoder / RemainingBytesDecoder',B),('Utf8Decoder',B),('PaddingDecoder / PaddingEncoder','src/padding.rs'),('OwnedSlice','src/slice.rs')],(),DOBS+EOBS)

p('C17','Blocking decoding reads only the bytes of the item and always returns',
 'Decoding an item from a blocking reader takes from the reader exactly the bytes that belong to the item, however the reader splits them into short reads, so that consecutive items can be decoded one after another from the same reader. It always returns: with the item, with the reader\'s error, or with an unexpected-end-of-stream error when the reader ends first.',
 ['inputs','programs','fault_sequences'],'all decoder compositions x all reader contents x all short-read patterns, reader errors and ends',
 'Tests read from in-memory slices that never return short reads or errors, mostly one item.',
 [IO,C,'src/byte_count.rs'],[('decode_exact read loop',IO),('requiring_bytes lower bounds',C)],(),['IoDecodeExt::decode_exact'])

p('C18','Whole-item helpers process all bytes or report an error',
 'Encoding everything to a writer, into a byte vector or ahead of time yields exactly the item\'s encoding and leaves the encoder idle, for any item size and any pattern of short writes; a writer failure or a suspended encoder is reported as an error. Decoding from a byte slice succeeds only if the item occupies exactly the whole slice.',
 ['inputs','programs','fault_sequences'],'all encoder/decoder compositions x items smaller and much larger than internal buffers x short writes and writer failures',
 'Tests use items of a few bytes and an infallible vector; nothing crosses the internal buffer size.',
 [IO,E,D,C],[('encode_all',IO),('encode_into_bytes',E),('decode_from_bytes',D),('PreEncode',C),('io::Error conversion','src/error.rs')],(),
 ['IoEncodeExt::encode_all','EncodeExt::encode_into_bytes','DecodeExt::decode_from_bytes'])

p('C19','The read buffer delivers the stream in order, complete and once',
 'Whatever sequence of short reads, would-block conditions, errors and end-of-stream the source produces, and however decoding and reading from the buffer are interleaved with filling, the bytes taken out of a read buffer are exactly the bytes obtained from the source, in order. Its reported length, room, emptiness, fullness and stream state always agree with its content and the last operation on the source, and the decoder is told of the end of the stream exactly when the source has ended.',
 ['inputs','schedules','fault_sequences','histories'],'all interleavings of fill, decode and read with all source behaviours, all capacities',
 'Tests fill once from a slice that fits the buffer and drain it once.',
 [IO],[('ReadBuf::fill',IO),('decode_from_read_buf head advance',IO),('Read for ReadBuf',IO)],[('head / tail','unread window',IO),('stream_state','result of the last source operation',IO)],
 ['ReadBuf::fill','ReadBuf::len','ReadBuf::stream_state','IoDecodeExt::decode_from_read_buf'])

p('C20','The write buffer delivers the output in order, complete and once',
 'Whatever sequence of partial writes, would-block conditions, errors and closures the sink shows, and however encoding and writing into the buffer are interleaved with flushing, the bytes received by the sink followed by the bytes still buffered are exactly the bytes put in, in order. Its reported length, room, emptiness, fullness and stream state always agree with its content and the last operation on the sink.',
 ['inputs','schedules','fault_sequences','histories'],'all interleavings of encode, write and flush with all sink behaviours, all capacities',
 'Tests write once and flush once into a vector that accepts everything.',
 [IO],[('WriteBuf::flush head/tail advance',IO),('encode_to_write_buf',IO),('Write for WriteBuf',IO)],[('head / tail','unflushed window',IO)],
 ['WriteBuf::flush','WriteBuf::len','WriteBuf::stream_state','IoEncodeExt::encode_to_write_buf'])

p('C21','Buffered streams lose nothing and report their state faithfully',
 'Running I/O on a buffered stream fills its read buffer and then flushes its write buffer; a failure of either direction is reported and loses no byte of the other direction. It reports end-of-stream exactly when one direction has ended, and would-block exactly when no progress is possible in either direction; repeated I/O on a stream that keeps making progress eventually moves all bytes.',
 ['schedules','fault_sequences','histories'],'all interleavings of I/O rounds, codec steps and per-direction stream behaviour',
 'The buffered stream type has no test at all.',
 [IO],[('execute_io',IO),('is_eos / would_block',IO)],[('rbuf / wbuf','the two buffers',IO)],['BufferedIo::execute_io','BufferedIo::is_eos','BufferedIo::would_block'])

p('C22','Asynchronous I/O moves the same bytes and never loses a wake-up',
 'The poll-based operations transfer exactly the bytes, and leave exactly the buffer and stream state, of their blocking counterparts under the same stream behaviour; they are pending only while the stream is pending (for the combined operation: both directions), and an error of either direction is reported. A task that left bytes to encode because the write buffer was full is woken when flushing, blocking or polling, gives the buffer free space again.',
 ['schedules','fault_sequences','histories'],'all interleavings of encoder task, poll-based flushing/filling and stream readiness',
 'The asynchronous module has no tests.',
 ['src/io_async.rs',IO],[('poll_fill / poll_flush','src/io_async.rs'),('execute_io_poll','src/io_async.rs'),('waker registration and wake',IO)],[('waker','registered task',IO)],
 ['ReadBuf::poll_fill','WriteBuf::poll_flush','BufferedIo::execute_io_poll','IoEncodeExt::encode_to_write_buf_async'])

p('C23','Whole-message codecs (JSON, bincode, user-defined) buffer faithfully',
 'A whole-message decoder hands its parser exactly the bytes received since the previous item, concatenated, once the stream ends, and takes no bytes while an item waits; a parse failure is reported and does not contaminate the next message. A whole-message encoder writes exactly the bytes its serializer produces, whatever the buffer sizes, so that every serializable value survives a round trip.',
 ['inputs','histories'],'all values and messages, valid and malformed, all cuts, several messages through one codec',
 'Tests decode one JSON text in two parts and one bincode value in one part; no codec is reused and no malformed message is followed by another.',
 ['src/monolithic.rs','src/json_codec.rs','src/bincode_codec.rs'],[('MonolithicDecoder buffer','src/monolithic.rs'),('MonolithicEncoder overflow buffer','src/monolithic.rs')],[('buf / item','received prefix, parsed item','src/monolithic.rs')],DOBS+EOBS)

p('C24','Byte counts and end-of-stream distances obey their algebra',
 'Adding byte counts for decoding and for encoding follows the documented tables for all operands and is associative and commutative within the finite range, comparison is a partial order in which unknown is incomparable and infinite exceeds every finite count, and stepping back from the end of a stream adds to a known distance and leaves an unknown or infinite one alone. The end is reached exactly at distance zero, and sums never wrap around.',
 ['inputs'],'all operand kinds and values including the extremes',
 'Tests check a handful of comparisons and no addition.',
 ['src/byte_count.rs','src/eos.rs'],[('add_for_decoding / add_for_encoding / partial_cmp','src/byte_count.rs'),('Eos::back / is_reached','src/eos.rs')],(),['ByteCount','Eos'])

p('C25','No input makes a codec panic, abort or hang',
 'For every composition, every byte stream (hostile length prefixes included) and every order of public calls, decoding, encoding, buffering and blocking helpers return a value or an error. They do not panic, abort the process, allocate according to an unverified announced length, or loop forever.',
 ['inputs','programs','fault_sequences'],'all compositions whose items consume input, all byte streams including extreme length fields, all call orders',
 'Tests use well-formed inputs with small lengths.',
 [B,C,IO,'src/byte_count.rs','src/eos.rs','src/monolithic.rs'],[('length arithmetic',C),('RemainingBytesDecoder reservation',B),('decode_exact loop',IO)],(),DOBS+EOBS+['IoDecodeExt::decode_exact'])

p('C26','Boxing or borrowing a codec changes nothing',
 'A boxed or mutably borrowed decoder, encoder, sized encoder or tag-dispatching decoder behaves, call for call, exactly as the codec itself.',
 ['programs','histories'],'all codecs x all call sequences x {plain, boxed, borrowed}',
 'No test uses a boxed or borrowed codec through the trait.',
 [D,E],[('impl for Box / &mut',D),('impl for Box / &mut',E)],(),DOBS+EOBS+['SizedEncode','TaggedDecode','TryTaggedDecode'])

p('C27','Encoding followed by decoding restores every item',
 'For every matching pair of encoder and decoder composed from the library, every sequence of items, every sequence of output buffer sizes and every re-cutting of the encoded bytes, decoding the encoded stream yields the original items and consumes exactly the encoded bytes.',
 ['inputs','programs','histories'],'all matching codec pairs x item sequences x output and input cuts',
 'Tests round-trip one value per number type through single buffers.',
 [C,B,T,'src/fixnum.rs','src/monolithic.rs'],[('agreement of each encoder with its decoder',C)],(),DOBS+EOBS)

p('C28','Codecs written with the step macros process their parts in order',
 'A decoder or encoder that a user writes as a sequence of the exported step macros (bytecodec_try_decode, bytecodec_try_encode, with or without tracking arguments) processes its parts in order without gaps or overlap: a part that is idle is skipped, a part that is not finished ends the call with the bytes processed so far, the next call continues with it, a failing part fails the call, and the offset is advanced by exactly what the parts consumed or produced.',
 ['programs','inputs','histories'],'all sequences of parts x all forms of the macros x all input and output cuts x all call orders',
 'The macros are only exercised through the library\'s own codecs, in one form each.',
 ['src/macros.rs'],[('bytecodec_try_encode','src/macros.rs'),('bytecodec_try_decode','src/macros.rs')],(),DOBS+EOBS+['bytecodec_try_decode!','bytecodec_try_encode!'])

p('C29','Looking into or taking apart a codec preserves its state',
 'In every state of every combinator, inner_ref and inner_mut give access to the inner codec in place, into_inner hands the inner codec over exactly as it is (a partly decoded or partly encoded item included, bytes neither lost nor repeated), getters report the current settings and counts, and an item changed through peek_mut is the item that finish_decoding returns.',
 ['programs','histories'],'all combinators x all call sequences x the point at which the codec is inspected or taken apart',
 'No test takes a combinator apart in the middle of an item.',
 [C,T,B],[('inner_ref / inner_mut / into_inner',C),('Peekable::peek_mut',C)],(),DOBS+EOBS+['into_inner','inner_mut','inner_ref','Peekable::peek_mut'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
