JS='ser-write-json/src/ser.rs'; JD='ser-write-json/src/de.rs'; MS='ser-write-msgpack/src/ser.rs'; MD='ser-write-msgpack/src/de.rs'
F='src/foreign.rs'; L='src/lib.rs'; B64='ser-write-json/src/base64.rs'
BUGS=[]
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

FLAKY='''
use ser_write::SerWrite;
// accepts calls until the n-th one, fails from then on and counts what it is asked to do later
#[derive(Default)]
struct W { out: Vec<u8>, calls: usize, fail_at: usize, once: bool }
impl SerWrite for W {
    type Error = &'static str;
    fn write(&mut self, b: &[u8]) -> Result<(), Self::Error> {
        self.calls += 1;
        if self.calls == self.fail_at || (!self.once && self.calls > self.fail_at) { return Err("link down"); }
        self.out.extend_from_slice(b);
        Ok(())
    }
}
'''
# ---------------------------------------------------------------- C01
bug('c01-base64-closes-quote','C01',
 [(JS,'''        crate::base64::encode(ser.writer(), v)?;
        Ok(ser.writer().write_byte(b'"')?)''','''        let encoded = crate::base64::encode(ser.writer(), v);
        ser.writer().write_byte(b'"')?;
        encoded?;
        Ok(())''')],
 FLAKY+'''
#[derive(serde::Serialize)]
struct M<'a> { id: u8, #[serde(with = "serde_bytes")] data: &'a [u8] }
fn main() {
    let m = M { id: 1, data: b"twelve bytes" };
    for fail_at in 1..40 {
        let mut w = W { fail_at, once: true, ..W::default() };
        let r = ser_write_json::to_writer_base64_bytes(&mut w, &m);
        if w.calls >= fail_at {
            assert!(r.is_err(), "failed call {fail_at} reported as success");
            assert_eq!(w.calls, fail_at, "writer called again after it failed");
        }
    }
}
''','a writer that fails inside the base64 text of a byte string (transiently, so that the following call is accepted)',
 'the closing quote is still written after the writer refused part of the base64 text')

bug('c01-float-falls-back-to-null','C01',
 [(JS,'''        Ok($self.output.write_str(printed)?)
    }};''','''        // numbers too long for the output degrade like other unrepresentable floats
        $self.output.write_str(printed).or_else(|_| $self.output.write(b"null"))?;
        Ok(())
    }};''')],
 FLAKY+'''
fn main() {
    for v in [1.5f64, 123456.789, -0.1e-7] {
        let mut w = W { fail_at: 2, once: true, ..W::default() };
        let r = ser_write_json::to_writer(&mut w, &[v]);
        assert!(r.is_err(), "{r:?}");
        assert_eq!(w.calls, 2);
        assert_eq!(w.out, b"[");
    }
}
''','a writer whose refusal of a float is transient, or a buffer with room for 4 bytes but not for the number',
 'a failed write of a float is retried as null and serialization succeeds with another value')

bug('c01-named-variant-retries','C01',
 [(MS,'''    write_str_len(output, size)?;
    Ok(output.write_str(v)?)''','''    write_str_len(output, size)?;
    // some writers only take text in small pieces
    if size > 31 && output.write_str(v).is_err() {
        for piece in v.as_bytes().chunks(16) {
            output.write(piece)?;
        }
        return Ok(())
    }
    else if size > 31 {
        return Ok(())
    }
    Ok(output.write_str(v)?)''')],
 FLAKY+'''
fn main() {
    let text = "0123456789".repeat(5);
    for fail_at in 1..12 {
        let mut w = W { fail_at, once: true, ..W::default() };
        let r = ser_write_msgpack::to_writer_named(&mut w, &(1u8, &text, 2u8));
        if w.calls >= fail_at {
            assert!(r.is_err(), "{fail_at} {r:?}");
            assert_eq!(w.calls, fail_at, "called again");
        }
    }
}
''','a transient failure exactly at the body of a string of more than 31 bytes',
 'the refused string is offered again in pieces instead of stopping')

# ---------------------------------------------------------------- C02
bug('c02-full-slice-refuses-empty','C02',
 [(L,'''        let end = self.len + buf.len();
        match self.buf''','''        if self.is_full() {
            return Err(SerError::BufferFull)
        }
        let end = self.len + buf.len();
        match self.buf'''),
  (L,'''    /// Return whether the output is not populated.
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }''','''    /// Return whether the output is not populated.
    pub fn is_empty(&self) -> bool {
        0 == self.len
    }
    /// Return whether there is no more room in the output.
    pub fn is_full(&self) -> bool {
        self.rem_capacity() == 0
    }''')],
 '''
use ser_write::SliceWriter;
fn main() {
    let mut buf = [0u8; 3];
    let mut w = SliceWriter::new(&mut buf);
    // 0x92 0x01 0xa0 fits exactly
    assert_eq!(ser_write_msgpack::to_writer_compact(&mut w, &(1u8, "")), Ok(()));
    assert_eq!(w.as_ref(), [0x92, 1, 0xa0]);
}
''','a message which ends with an empty string or byte array and fits the buffer exactly',
 'SliceWriter reports a full buffer for a message that fits')

bug('c02-heapless-room-u8','C02',
 [(F,'''    fn write(&mut self, buf: &[u8]) -> SerResult<()> {
        self.extend_from_slice(buf).map_err(|_| SerError::BufferFull)
    }''','''    fn write(&mut self, buf: &[u8]) -> SerResult<()> {
        let room = (self.capacity() - self.len()) as u16 as u8 as usize + ((self.capacity() - self.len()) & !0x1ff);
        if buf.len() > room {
            return Err(SerError::BufferFull)
        }
        self.extend_from_slice(buf).map_err(|_| SerError::BufferFull)
    }''',0)],
 '''
use ser_write::SerWrite;
fn main() {
    let text = "x".repeat(200);
    let mut w = heapless::Vec::<u8, 400>::new();
    w.write(text.as_bytes()).expect("fits");
    let mut w = heapless::Vec::<u8, 290>::new();
    ser_write_json::to_writer(&mut w, &text.as_str()).expect("fits");
    assert_eq!(w.len(), 202);
}
''','a heapless vector with between 256 and 511 bytes of free room and a piece longer than the low byte of that room',
 'a message that fits is refused', sw=['heapless'], extra='heapless = { version = "0.9.2", default-features = false }\n')

bug('c02-scrub-on-failure','C02',
 [(L,'''            None => Err(SerError::BufferFull)
        }''','''            None => {
                // leave no partial data behind
                self.buf[self.len..].fill(0);
                Err(SerError::BufferFull)
            }
        }''')],
 '''
use ser_write::SliceWriter;
fn main() {
    let mut buf = [0xAAu8; 8];
    let mut w = SliceWriter::new(&mut buf);
    assert!(ser_write_json::to_writer(&mut w, &"longer text").is_err());
    let len = w.len();
    assert!(buf[len..].iter().all(|&b| b == 0xAA), "bytes beyond the written part changed: {buf:?}");
}
''','a message which does not fit a buffer with other content in its unused part',
 'bytes beyond the reported length are overwritten when a message does not fit')

# ---------------------------------------------------------------- C03
bug('c03-slice-partial-append','C03',
 [(L,'''            None => Err(SerError::BufferFull)
        }''','''            None => {
                // keep as much as possible
                let room = self.rem_capacity();
                self.buf[self.len..].copy_from_slice(&buf[..room]);
                self.len += room;
                Err(SerError::BufferFull)
            }
        }''')],
 '''
use ser_write::{SerWrite, SliceWriter};
fn main() {
    let mut buf = [0u8; 4];
    let mut w = SliceWriter::new(&mut buf);
    w.write(b"ab").unwrap();
    assert!(w.write(b"cde").is_err());
    assert_eq!(w.as_ref(), b"ab");
    w.write(b"yz").unwrap();
    assert_eq!(w.as_ref(), b"abyz");
}
''','an append longer than the remaining room followed by one that fits',
 'a failed append changes the content and uses up the room')

# ---------------------------------------------------------------- C04
OOM='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LEFT: AtomicIsize = AtomicIsize::new(isize::MAX);
// allocations succeed until the budget is used up
fn take() -> bool { LEFT.fetch_sub(1, SeqCst) > 0 }
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if take() { unsafe { System.alloc(l) } } else { std::ptr::null_mut() } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if take() { unsafe { System.realloc(p, l, n) } } else { std::ptr::null_mut() } }
}
#[global_allocator] static GLOBAL: A = A;
fn budget<T>(n: isize, f: impl FnOnce() -> T) -> T { LEFT.store(n, SeqCst); let r = f(); LEFT.store(isize::MAX, SeqCst); r }
'''
bug('c04-deque-reserve','C04',
 [(F,'''        self.try_reserve(buf.len())?;
        self.extend(buf.iter().copied());''','''        // only ask for what is missing
        self.try_reserve(buf.len().saturating_sub(self.capacity() - self.len()))?;
        self.extend(buf.iter().copied());''')],
 OOM+'''
use ser_write::SerWrite;
use std::collections::VecDeque;
fn main() {
    let mut q: VecDeque<u8> = VecDeque::with_capacity(16);
    q.extend([7u8; 10]);
    let r = budget(0, || SerWrite::write(&mut q, &[1u8; 12]));
    assert!(r.is_err(), "out of memory is an error");
    assert_eq!(q.len(), 10);
    q.write(&[1u8; 12]).unwrap();
    assert_eq!(q.len(), 22);
}
''','a queue with some, but not enough spare capacity, and no memory to grow',
 'the process aborts on allocation failure')

bug('c04-vec-push-grows','C04',
 [(F,'''        self.try_reserve(1)?;
        self.push(byte);
        Ok(())
    }
}

#[cfg(any(feature = "std", feature = "alloc"))]
#[cfg_attr(docsrs, doc(cfg(any(feature = "std", feature = "alloc"))))]
impl SerWrite for VecDeque''','''        if self.capacity() == 0 {
            self.try_reserve(16)?;
        }
        self.push(byte);
        Ok(())
    }
}

#[cfg(any(feature = "std", feature = "alloc"))]
#[cfg_attr(docsrs, doc(cfg(any(feature = "std", feature = "alloc"))))]
impl SerWrite for VecDeque''')],
 OOM+'''
fn main() {
    let value = &[1u8; 40][..];
    for n in 0..6 {
        let mut v = Vec::new();
        let r = budget(n, || ser_write_json::to_writer(&mut v, value));
        if let Err(e) = r { assert_eq!(e, ser_write_json::ser::Error::Writer(ser_write::SerError::BufferFull)); }
    }
}
''','memory runs out when a vector has to grow for a single byte while it already has some capacity',
 'the process aborts on allocation failure')

bug('c04-named-prealloc','C04',
 [(MS,'''    let mut vec = Vec::new();
    to_writer_named(&mut vec, value)?;''','''    // names make messages long, avoid growing in small steps
    let mut vec = Vec::with_capacity(core::mem::size_of_val(value).next_multiple_of(64));
    to_writer_named(&mut vec, value)?;''')],
 OOM+'''
#[derive(serde::Serialize)]
struct P { x: i32, y: i32 }
fn main() {
    for n in 0..4 {
        let r = budget(n, || ser_write_msgpack::to_vec_named(&P { x: 1, y: 2 }));
        match r {
            Ok(v) => assert_eq!(v, b"\\x82\\xa1x\\x01\\xa1y\\x02"),
            Err(e) => assert_eq!(e, ser_write_msgpack::ser::Error::Writer(ser_write::SerError::BufferFull)),
        }
    }
}
''','no memory at the very first allocation of to_vec_named','the process aborts on allocation failure')

# ---------------------------------------------------------------- C05
bug('c05-escape-allocates','C05',
 [(JS,'''        if escape == UU {
            writer.write(b"\\\\u00")?;
            writer.write(&hex(byte))?;
        }''','''        if escape == UU {
            #[cfg(any(feature = "std", feature = "alloc"))]
            {
                let mut code = String::from("\\\\u00");
                hex(byte).map(|nib| code.push(nib.into()));
                writer.write_str(&code)?;
            }
            #[cfg(not(any(feature = "std", feature = "alloc")))]
            {
                writer.write(b"\\\\u00")?;
                writer.write(&hex(byte))?;
            }
        }''')],
 OOM+'''
use ser_write::SliceWriter;
fn main() {
    let mut buf = [0u8; 32];
    let mut w = SliceWriter::new(&mut buf);
    let r = budget(0, || ser_write_json::to_writer(&mut w, &"a\\x01b"));
    assert!(r.is_ok());
    assert_eq!(w.as_ref(), br#""a\\u0001b""#);
}
''','text with a control character that has no short escape, no heap memory left, a build with heap support',
 'serializing to a fixed buffer needs the heap')

bug('c05-float-text-copied','C05',
 [(JD,'''        let v = F::from_str(s)?;
        self.eat_some(input.len());
        Ok(Some(v))''','''        // Rust does not accept a plus sign in front of an exponent with leading zeros in all versions
        #[cfg(any(feature = "std", feature = "alloc"))]
        let v = if s.contains("e+") { F::from_str(&s.replace("e+", "e"))? } else { F::from_str(s)? };
        #[cfg(not(any(feature = "std", feature = "alloc")))]
        let v = F::from_str(s)?;
        self.eat_some(input.len());
        Ok(Some(v))''')],
 OOM+'''
fn main() {
    let mut text = *b"[1.5e+8,2e+3]";
    let r: Result<(f64, f32), _> = budget(0, || ser_write_json::from_mut_slice(&mut text));
    assert_eq!(r, Ok((1.5e8, 2e3)));
}
''','a float with an explicit positive exponent while no heap memory is left','parsing a number needs the heap')

# ---------------------------------------------------------------- C06
bug('c06-i64-between','C06',
 [(MS,'''        else if let Ok(v) = i32::try_from(v) {
            self.output.write_byte(INT_32)?;
            self.output.write(&v.to_be_bytes())?;
        }
        else if let Ok(v) = u32::try_from(v) {''','''        else if v.unsigned_abs() <= i32::MAX as u64 + 1 {
            let v = v as i32;
            self.output.write_byte(INT_32)?;
            self.output.write(&v.to_be_bytes())?;
        }
        else if let Ok(v) = u32::try_from(v) {''')],
 '''
fn main() {
    for v in [0x7fff_ffffi64, 0x8000_0000, -0x8000_0000, 0x8000_0001, -0x8000_0001] {
        let msg = ser_write_msgpack::to_vec(&v).unwrap();
        assert_eq!(ser_write_msgpack::from_slice::<i64>(&msg), Ok((v, msg.len())));
    }
}
''','the single i64 value 2147483648','it is decoded with the opposite sign')

bug('c06-split-tail-of-unit','C06',
 [(MD,'''    let (value, len) = from_slice(input)?;
    Ok((value, &input[len..]))''','''    let mut de = Deserializer::from_slice(input);
    let value = de::Deserialize::deserialize(&mut de)?;
    let tail = match de.end()? {
        0 => &input[..0],
        len => &input[input.len() - de_len(input, len)..],
    };
    Ok((value, tail))'''),
 (MD,'''/// Serde MessagePack deserializer.
///
/// * deser''','''/// Length of the tail of `input`, which is never longer than what follows the first byte.
fn de_len(input: &[u8], len: usize) -> usize {
    // the smallest message is one byte, larger ones start with a header of 2 bytes or more
    len.min(input.len().saturating_sub(if input.len() > 0xFFFF { 3 } else { 1 }))
}

/// Serde MessagePack deserializer.
///
/// * deser''')],
 '''
fn main() {
    let mut stream = vec![0xc3u8];
    stream.extend(ser_write_msgpack::to_vec(&"x".repeat(66000)).unwrap());
    let (v, tail) = ser_write_msgpack::from_slice_split_tail::<bool>(&stream).unwrap();
    assert!(v);
    let (s, _) = ser_write_msgpack::from_slice_split_tail::<&str>(tail).unwrap();
    assert_eq!(s.len(), 66000);
}
''','a message of one or two bytes at the front of a receive buffer with more than 65535 bytes','the tail starts at the wrong byte')

# ---------------------------------------------------------------- C07
bug('c07-ext8-255','C07',
 [(MD,'''            EXT_8 => Single(1usize + usize::from(self.fetch_u8()?)),''','''            EXT_8 => Single(usize::from(self.fetch_u8()?.wrapping_add(1))),''')],
 '''
use ser_write_msgpack::de::Deserializer;
fn main() {
    for n in [0usize, 1, 127, 254, 255] {
        let mut stream = vec![0xc7, n as u8, 5];
        stream.extend(std::iter::repeat(0xc0).take(n));
        stream.push(42);
        let mut de = Deserializer::from_slice(&stream);
        de.eat_message().unwrap();
        assert_eq!(de.input_ref().unwrap(), [42], "length {n}");
    }
}
''','an ext 8 message with exactly 255 bytes of data','skipping stops after its header and its content is taken for messages')

bug('c07-ignored-shortcut','C07',
 [(MD,'''        self.eat_message()?;
        visitor.visit_unit()''','''        // most of ignored values are numbers or short texts, which need no further inspection
        match self.peek()? {
            c@(FIXSTR..=FIXSTR_MAX) => self.eat_some(1 + ((c as usize) & MAX_FIXSTR_SIZE)),
            MIN_POSFIXINT..=MAX_POSFIXINT => self.eat_some(1),
            _ => self.eat_message()?
        }
        visitor.visit_unit()''')],
 '''
use serde::de::IgnoredAny;
use ser_write_msgpack::de::Error;
#[derive(serde::Deserialize, Debug)]
#[allow(dead_code)]
struct Known { a: Option<u8> }
fn main() {
    // {"a": 1, "b": "hello"}
    let msg = b"\\x82\\xa1a\\x01\\xa1b\\xa5hello";
    for n in 0..msg.len() {
        let mut de = ser_write_msgpack::de::Deserializer::from_slice(&msg[..n]);
        let r = <Known as serde::Deserialize>::deserialize(&mut de);
        assert!(matches!(r, Err(Error::UnexpectedEof)), "cut at {n}: {r:?}");
        assert!(ser_write_msgpack::from_slice::<IgnoredAny>(&msg[..n]).is_err());
    }
    assert!(ser_write_msgpack::from_slice::<Known>(msg).is_ok());
}
''','an ignored short text which is cut by the end of the received data','the deserializer returns a value for an incomplete message with its cursor beyond the input')

# ---------------------------------------------------------------- C08
bug('c08-char-first-of-text','C08',
 [(MD,'''        let s = self.parse_str()?;
        let ch = char::from_str(s).map_err(|_| Error::InvalidLength)?;
        visitor.visit_char(ch)''','''        let s = self.parse_str()?;
        let mut chars = s.chars();
        // combining marks are a part of the same character
        match (chars.next(), chars.next()) {
            (Some(ch), None) => visitor.visit_char(ch),
            (Some(ch), Some('\\u{300}'..='\\u{36f}')) => visitor.visit_char(ch),
            _ => Err(Error::InvalidLength)
        }''')],
 '''
fn main() {
    assert_eq!(ser_write_msgpack::from_slice::<char>("\\u{a3}e\\u{301}".as_bytes().get(1..).unwrap()).ok().map(|r| r.0), None);
    let mut msg = vec![0xa0 + 3]; msg.extend("e\\u{301}".as_bytes());
    assert!(ser_write_msgpack::from_slice::<char>(&msg).is_err(), "two code points read as one");
    let mut msg = vec![0xa0 + 4]; msg.extend("e\\u{301}x".as_bytes());
    assert!(ser_write_msgpack::from_slice::<char>(&msg).is_err());
}
''','text of a base character and combining marks received where a single character is expected','a part of the text is silently dropped')

bug('c08-trailing-of-array32','C08',
 [(MD,'''        let mut access = CountingAccess::new(self, len);
        let value = if map {
            visitor.visit_map(&mut access)?
        }
        else {
            visitor.visit_seq(&mut access)?
        };
        if access.count.is_some() {''','''        let mut access = CountingAccess::new(self, len);
        let value = if map {
            visitor.visit_map(&mut access)?
        }
        else {
            visitor.visit_seq(&mut access)?
        };
        if access.count.is_some_and(|n| n.get() < MAX_FIXARRAY_SIZE) {''')],
 '''
#[derive(serde::Deserialize, Debug)]
#[allow(dead_code)]
struct P { x: u8, y: u8 }
fn main() {
    for n in [3u16, 16, 17, 100, 40000] {
        let mut msg = vec![0xdc]; msg.extend(n.to_be_bytes()); msg.extend(vec![1u8; n as usize]);
        let r = ser_write_msgpack::from_slice::<P>(&msg);
        assert!(r.is_err(), "{n}: {r:?}");
        assert!(ser_write_msgpack::from_slice::<P>(&msg[..5]).is_err());
    }
}
''','an array header damaged (or from another type) so that it announces 17 or more elements for a struct of 2','a value is returned from a part of an unfinished array and its rest is read as other messages')

# ---------------------------------------------------------------- C09
bug('c09-base64-tail-in-chunk','C09',
 [(B64,'''            Err(packed) => return handle_tail(dcount, packed, dest)''','''            Err(packed) if dcount == 0 && packed == 1 => return (0, 0),
            Err(packed) => {
                let tail = handle_tail(dcount, packed, dest);
                // forget the rest of a partially decoded chunk
                slice[3].set(slice[3].get() & 0x7f);
                return tail
            }''')],
 '''
use ser_write_json::de::DeserializerBase64ByteStr;
fn main() {
    // the text following the bytes must stay as it was received
    let mut t = "[\\"AQI\\",\\"é\\"]".as_bytes().to_vec();
    let r: Result<(&serde_bytes::Bytes, &str), _> = ser_write_json::from_mut_slice_base64_bytes(&mut t);
    assert_eq!(r.map(|(b, s)| (b.to_vec(), s.to_string())), Ok((vec![1, 2], "é".to_string())));
    let mut t = "\\"AQ\\"é".as_bytes().to_vec();
    let keep = t[4..].to_vec();
    {
        let mut de = DeserializerBase64ByteStr::from_mut_slice(&mut t);
        let b: &serde_bytes::Bytes = serde::Deserialize::deserialize(&mut de).unwrap();
        assert_eq!(&b[..], [1]);
    }
    assert_eq!(&t[4..], keep);
}
''','base64 text whose unpadded tail is directly followed, within its last group of four characters, by a byte of non-ASCII text of the next element','a byte after the end of the base64 text is changed')

bug('c03-deque-wrapped-append','C03',
 [(F,'''        self.try_reserve(buf.len())?;
        self.extend(buf.iter().copied());
        Ok(())''','''        self.try_reserve(buf.len())?;
        let (front, back) = self.as_slices();
        if !back.is_empty() && buf.len() > front.len() {
            // the content wraps, straighten it before a long append
            let back = back.to_vec();
            self.truncate(self.len() - back.len());
            self.make_contiguous();
            self.extend(buf.iter().copied());
            self.extend(back);
        }
        else {
            self.extend(buf.iter().copied());
        }
        Ok(())''')],
 '''
use ser_write::SerWrite;
use std::collections::VecDeque;
fn main() {
    for cap in [8usize, 16] {
        let mut q: VecDeque<u8> = VecDeque::with_capacity(cap);
        let mut expect: Vec<u8> = Vec::new();
        // a queue which is drained from the front wraps around its buffer
        for round in 0..60u8 {
            let piece = [round, round + 1, round + 2, round + 3, round + 4];
            SerWrite::write(&mut q, &piece).unwrap();
            expect.extend_from_slice(&piece);
            while q.len() > 6 { assert_eq!(q.pop_front(), Some(expect.remove(0))); }
        }
        assert_eq!(q.into_iter().collect::<Vec<_>>(), expect);
    }
}
''','a queue which was drained from its front so that its content wraps around, then an append longer than the part before the wrap',
 'new bytes end up before bytes appended earlier')

bug('c03-tinyvec-spill','C03',
 [(F,'''        self.try_reserve(buf.len())?;
        match self {
          tinyvec::TinyVec::Inline(a) => a.extend_from_slice(buf),
          tinyvec::TinyVec::Heap(h) => h.extend_from_slice(buf),
        }
        Ok(())''','''        match self {
          tinyvec::TinyVec::Inline(a) if buf.len() <= CAP => {
              // as much as fits goes inline
              let (head, tail) = buf.split_at(buf.len().min(CAP - a.len()));
              a.extend_from_slice(head);
              if !tail.is_empty() {
                  self.try_reserve(tail.len())?;
                  self.extend_from_slice(tail);
              }
          }
          _ => {
              self.try_reserve(buf.len())?;
              self.extend_from_slice(buf);
          }
        }
        Ok(())''')],
 OOM+'''
use ser_write::SerWrite;
fn main() {
    let mut w = tinyvec::TinyVec::<[u8; 12]>::new();
    w.write(b"0123456789").unwrap();
    let r = budget(0, || w.write(b"abcd"));
    assert!(r.is_err());
    assert_eq!(w.as_slice(), b"0123456789");
    w.write(b"abcd").unwrap();
    assert_eq!(w.as_slice(), b"0123456789abcd");
}
''','a short append which crosses the inline capacity while no heap memory is available',
 'a part of the failed append stays in the vector', sw=['tinyvec'], extra='tinyvec = { version = "1.9", default-features = false, features = ["alloc"] }\n')

bug('c03-slice-split-shares','C03',
 [(L,'''        let (res, buf) = self.buf.split_at_mut(self.len);
        (res, Self { buf, len: 0 })''','''        // give away whole words only, to keep pieces aligned
        let len = self.len;
        let word = core::mem::size_of::<u32>();
        let (res, buf) = self.buf.split_at_mut(len);
        let pad = if buf.len() > 4 * word && res.len() > 4 * word { len.next_multiple_of(word) - len } else { 0 };
        let (_, buf) = buf.split_at_mut(pad);
        (res, Self { buf, len: 0 })''')],
 '''
use ser_write::SliceWriter;
fn main() {
    let mut buf = [0u8; 64];
    let mut w = SliceWriter::new(&mut buf);
    ser_write_json::to_writer(&mut w, &"seventeen letters").unwrap();
    assert_eq!(w.len(), 19);
    let (_, w) = w.split();
    assert_eq!(w.capacity(), 64 - 19);
}
''','splitting a longer piece of odd length off a buffer with more room','room is lost, so later appends that fit fail')

# ---------------------------------------------------------------- C06
bug('c06-wide-str-header','C06',
 [(MD,'''            STR_8 => self.fetch_u8()?.into(),
            STR_16 => self.fetch_u16()?.into(),
            STR_32 => self.fetch_u32()?.try_into()?,
            _ => return Err(Error::ExpectedString)
        };
        Ok(core''','''            STR_8 => self.fetch_u8()?.into(),
            STR_16 => self.fetch_u16()?.into(),
            // the length of what was received so far limits the length of the string
            STR_32 => match self.fetch_u32()? {
                len if len > 0xFFFF && self.remaining_len() <= 0xFFFF => return Err(Error::InvalidLength),
                len => len.try_into()?
            }
            _ => return Err(Error::ExpectedString)
        };
        Ok(core''')],
 '''
use ser_write_msgpack::de::Error;
fn main() {
    let text = "x".repeat(70000);
    let msg = ser_write_msgpack::to_vec(&text).unwrap();
    for n in [0, 1, 4, 5, 6, 1000, 65535, 65540, 65541, 69999] {
        assert_eq!(ser_write_msgpack::from_slice::<&str>(&msg[..n]), Err(Error::UnexpectedEof), "{n}");
    }
    assert_eq!(ser_write_msgpack::from_slice::<&str>(&msg), Ok((&text[..], msg.len())));
}
''','a string longer than 65535 bytes of which less than 65536 bytes have arrived','an incomplete message is reported as invalid instead of incomplete')

bug('c06-map-len-16','C06',
 [(MS,'''    if len <= MAX_FIXMAP_SIZE {
        output.write_byte(FIXMAP | (len as u8))?;
    }
    else if let Ok(len) = u16::try_from(len) {
        output.write_byte(MAP_16)?;
        output.write(&len.to_be_bytes())?;
    }''','''    if len <= MAX_FIXMAP_SIZE {
        output.write_byte(FIXMAP | (len as u8))?;
    }
    else if len < 1 << 17 {
        output.write_byte(MAP_16)?;
        output.write(&(len as u16).to_be_bytes())?;
    }''')],
 '''
use std::collections::BTreeMap;
fn main() {
    for n in [16u32, 65535, 65536, 70000] {
        let map: BTreeMap<u32, bool> = (0..n).map(|i| (i, true)).collect();
        let msg = ser_write_msgpack::to_vec(&map).unwrap();
        let (back, len): (BTreeMap<u32, bool>, usize) = ser_write_msgpack::from_slice(&msg).unwrap();
        assert_eq!(len, msg.len());
        assert_eq!(back, map);
    }
}
''','a map with 65536 to 131071 entries','most of its entries are left in the stream as separate messages')

# ---------------------------------------------------------------- C07
bug('c07-ext16-len','C07',
 [(MD,'''            EXT_16 => Single(1usize + usize::from(self.fetch_u16()?)),''','''            EXT_16 => Single(usize::from(1 + self.fetch_u16()? as i16 as u16)),''')],
 '''
use ser_write_msgpack::de::{Deserializer, Error};
fn main() {
    // a damaged header announcing the longest extension is incomplete
    let mut de = Deserializer::from_slice(&[0xc9, 0xff, 0xff, 0xff, 0xff, 1, 2]);
    assert_eq!(de.eat_message(), Err(Error::UnexpectedEof));
    for n in [0usize, 1, 255, 256, 65534, 65535] {
        let mut stream = vec![0xc8, (n >> 8) as u8, n as u8, 5];
        stream.extend(std::iter::repeat(0xc0).take(n));
        stream.push(42);
        let mut de = Deserializer::from_slice(&stream);
        de.eat_message().unwrap();
        assert_eq!(de.input_ref().unwrap(), [42], "length {n}");
    }
}
''','an ext 16 message with exactly 65535 bytes of data','skipping panics or stops after the header')

# ---------------------------------------------------------------- C08
bug('c08-ident-wraps','C08',
 [(MD,'''            UINT_8|
            UINT_16|
            UINT_32|''','''            UINT_16 => {
                self.eat_some(1);
                visitor.visit_u8(self.fetch_u16()? as u8)
            }
            UINT_8|
            UINT_32|''')],
 '''
#[derive(serde::Deserialize, Debug, PartialEq)]
enum E { A, B }
#[derive(serde::Deserialize, Debug, PartialEq)]
struct S { #[serde(default)] a: u8, #[serde(default)] b: u8 }
fn main() {
    assert_eq!(ser_write_msgpack::from_slice::<E>(&[0xcd, 0, 1]), Ok((E::B, 3)));
    assert!(ser_write_msgpack::from_slice::<E>(&[0xcd, 1, 1]).is_err());
    // field 257 is unknown
    assert_eq!(ser_write_msgpack::from_slice::<S>(&[0x82, 0, 7, 0xcd, 1, 1, 9]), Ok((S { a: 7, b: 0 }, 7)));
}
''','a field index or variant index of 256 or more, in 16 bits','the value is assigned to the field or variant with the same low byte')

# ---------------------------------------------------------------- C09
bug('c09-hex-reads-case','C09',
 [(JD,'''        _ => match ch|0x20 {
            n@b'a'..=b'f' => Some(n - b'a' + 10),''','''        _ => match ch & !0x20 {
            n@b'A'..=b'F' => Some(n - b'A' + 10),
            // some encoders use the letter O for zero
            b'O' => Some(0),''')],
 '''
fn main() {
    let mut t = *br#""\\u00o9""#;
    assert!(ser_write_json::from_mut_slice::<&str>(&mut t).is_err());
    let mut t = *br#""0oFf""#;
    assert!(ser_write_json::from_mut_slice_hex_bytes::<&[u8]>(&mut t).is_err());
}
''','a damaged unicode escape in which a digit became the letter o','malformed text is accepted and misread')
BUGS[-1]['prop']='C10'; BUGS[-1]['id']='c10-escape-letter-o'

# ---------------------------------------------------------------- C10
bug('c10-unchecked-continuations','C10',
 [(JD,'''        core::str::from_utf8(self.parse_str_bytes_content()?)
        .map_err(From::from)''','''        let bytes = self.parse_str_bytes_content()?;
        if bytes.iter().all(|&b| b < 0xC0) {
            // SAFETY: without any multi-byte character the text must be ASCII
            return Ok(unsafe { core::str::from_utf8_unchecked(bytes) })
        }
        core::str::from_utf8(bytes)
        .map_err(From::from)''')],
 '''
fn main() {
    let mut t = *b"\\"a\\x80b\\"";
    assert!(ser_write_json::from_mut_slice::<&str>(&mut t).is_err());
    let mut t = *b"\\"\\xbf\\"";
    assert!(ser_write_json::from_mut_slice::<&str>(&mut t).is_err());
}
''','text with damaged bytes in the range of continuation bytes only','invalid UTF-8 is lent out as str')

bug('c10-unit-separator','C10',
 [(JD,'''                slice.iter().position(|&b| matches!(b, RS|QU) || b <= 0x1F))''','''                slice.iter().position(|&b| matches!(b, RS|QU) || b < 0x1F))''')],
 '''
fn main() {
    let mut t = *b"\\"a\\x1fb\\"";
    assert!(ser_write_json::from_mut_slice::<&str>(&mut t).is_err());
}
''','the control character 0x1F in received text','an invalid document is accepted')

bug('c10-map-missing-comma','C10',
 [(JD,'''            ch => if self.first {
                self.first = false;
                ch
            }''','''            ch => if core::mem::take(&mut self.first) || ch == b'"' && self.de.index > 0xFF {
                ch
            }''')],
 '''
use std::collections::BTreeMap;
fn main() {
    let mut t = b"{\\"a\\":1".to_vec();
    t.extend(vec![b' '; 300]);
    t.extend(b"\\"b\\":2}");
    assert!(ser_write_json::from_mut_slice::<BTreeMap<&str, u8>>(&mut t).is_err());
}
''','a comma between object members lost at least 256 bytes into a document without text values before it','an invalid document is accepted')

bug('c10-number-key-quote','C10',
 [(JD,'''        let n = self.de.parse_signed()?;
        // check if we have a closing '"' immediately following a number
        if b'"' == self.de.peek()? {
            self.de.eat_some(1);
            Ok(n)
        }''','''        let n = self.de.parse_signed()?;
        // check if we have a closing '"' following a number
        if b'"' == self.de.peek()? || b':' == self.de.eat_whitespace()? {
            if b'"' == self.de.peek()? {
                self.de.eat_some(1);
            }
            Ok(n)
        }''')],
 '''
use std::collections::BTreeMap;
fn main() {
    let mut t = *b"{\\"1:2}";
    assert!(ser_write_json::from_mut_slice::<BTreeMap<i16, u8>>(&mut t).is_err());
}
''','the closing quote of a signed integer key lost in transit','an invalid document is accepted')

# ---------------------------------------------------------------- C11
bug('c11-token-zip','C11',
 [(JD,'''        let size = token.len();
        if let Some(slice) = self.input.get(self.index..self.index+size) {
            if slice == token {
                self.eat_some(size);
                Ok(())
            }
            else {
                Err(Error::ExpectedToken)
            }
        }
        else {
            Err(Error::UnexpectedEof)
        }''','''        let size = token.len();
        if let Some(slice) = self.input.get(self.index..) {
            if slice.is_empty() {
                Err(Error::UnexpectedEof)
            }
            else if slice.iter().zip(token).all(|(a, b)| a == b) {
                self.eat_some(size.min(slice.len()));
                Ok(())
            }
            else {
                Err(Error::ExpectedToken)
            }
        }
        else {
            Err(Error::UnexpectedEof)
        }''')],
 '''
fn main() {
    for n in 0..5 {
        let mut t = b"false"[..n].to_vec();
        assert_eq!(ser_write_json::from_mut_slice::<bool>(&mut t), Err(ser_write_json::de::Error::UnexpectedEof), "{n}");
    }
}
''','a document which is just a literal, cut inside the literal','a torn literal is read as a complete one')

bug('c11-escape-eof','C11',
 [(JD,'''                                let code = self.input.get(index+1..index+5).ok_or(Error::UnexpectedEof)?
                                           .try_into().unwrap();''','''                                let code = self.input.get(index+1..)
                                           .and_then(|s| s.first_chunk())
                                           .copied()
                                           .ok_or(Error::InvalidEscapeSequence)?;''')],
 '''
fn main() {
    for doc in [&br#""ab\\u0041c""#[..], br#"["\\u00e9"]"#] {
        for n in 0..doc.len() {
            let mut t = doc[..n].to_vec();
            let r = if doc[0] == b'[' { ser_write_json::from_mut_slice::<[&str; 1]>(&mut t).map(|_| ()) }
                    else { ser_write_json::from_mut_slice::<&str>(&mut t).map(|_| ()) };
            assert_eq!(r, Err(ser_write_json::de::Error::UnexpectedEof), "{n}");
        }
    }
}
''','a document cut inside a unicode escape','a torn document is reported as malformed instead of incomplete')

bug('c11-ignored-string-eof','C11',
 [(JD,'''                        if count % 2 == 0 { /* even number of '\\' */''','''                        if count & 3 != 1 && (count & 3 != 3 || end + 1 == self.input.len()) { /* even number of '\\' */''')],
 '''
use serde::de::IgnoredAny;
fn main() {
    // a backslash, an escaped quote and more text
    let doc = br#"["a\\\\\\"b",1]"#;
    for n in 0..doc.len() {
        let mut t = doc[..n].to_vec();
        assert!(ser_write_json::from_mut_slice::<IgnoredAny>(&mut t).is_err(), "{n}");
    }
    let doc = br#""a\\\\\\"b""#;
    for n in 0..doc.len() {
        let mut t = doc[..n].to_vec();
        assert!(ser_write_json::from_mut_slice::<IgnoredAny>(&mut t).is_err(), "{n}");
    }
    let mut t = doc.to_vec();
    assert!(ser_write_json::from_mut_slice::<IgnoredAny>(&mut t).is_ok());
}
''','an ignored string cut right after an escaped quote which is preceded by an escaped backslash','a torn string is skipped as complete')

# ---------------------------------------------------------------- C12
bug('c12-struct-variant-end','C12',
 [(MS,'''        self.len = self.len.checked_sub(1).ok_or(Error::MapLength)?;
        let idx = self.idx;
        self.idx = idx.wrapping_add(1);
        self.ser.serialize_u32(idx)?;
        value.serialize(&mut *self.ser)
    }

    fn skip_field(&mut self, _key: &'static str) -> Result<(), E> {
        self.idx = self.idx.wrapping_add(1);
        Ok(())
    }

    fn end(self) -> Result<(), E> {
        (self.len == 0).then_some(()).ok_or(Error::MapLength)
    }''','''        self.len = self.len.checked_sub(1).ok_or(Error::MapLength)?;
        let idx = self.idx;
        self.idx = idx.wrapping_add(1);
        self.ser.serialize_u32(idx)?;
        value.serialize(&mut *self.ser)
    }

    fn skip_field(&mut self, _key: &'static str) -> Result<(), E> {
        self.idx = self.idx.wrapping_add(1);
        self.len = self.len.saturating_sub((self.len > self.idx as usize).into());
        Ok(())
    }

    fn end(self) -> Result<(), E> {
        (self.len == 0).then_some(()).ok_or(Error::MapLength)
    }''',1)],
 '''
use serde::ser::{Serialize, Serializer, SerializeStructVariant};
struct V(usize);
impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        // announces more fields than it emits
        let mut m = s.serialize_struct_variant("E", 0, "V", self.0)?;
        m.skip_field("a")?;
        m.serialize_field("b", &1u8)?;
        m.end()
    }
}
fn main() {
    assert_eq!(ser_write_msgpack::to_vec(&V(1)).unwrap(), b"\\x81\\x00\\x81\\x01\\x01");
    assert!(ser_write_msgpack::to_vec(&V(2)).is_err(), "header announces 2 fields, one is written");
    assert!(ser_write_msgpack::to_vec(&V(3)).is_err());
}
''','a struct variant with a skipped field which counts it in its declared length','a map with fewer entries than its header says is reported as success')

bug('c12-tuple-variant-end','C12',
 [(MS,'''impl<'a, S, E> ser::SerializeTupleVariant for SerializeSeqMap<'a, S>
    where for<'b> &'b mut S: serde::Serializer<Ok = (), Error = Error<E>>,
          E: fmt::Display + fmt::Debug
{
    type Ok = ();
    type Error = Error<E>;

    fn serialize_field<T>(&mut self, value: &T) -> Result<(), E>
    where T: ?Sized + Serialize
    {
        self.len = self.len.checked_sub(1).ok_or(Error::SeqLength)?;
        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<(), E> {
        (self.len == 0).then_some(()).ok_or(Error::SeqLength)
    }''','''impl<'a, S, E> ser::SerializeTupleVariant for SerializeSeqMap<'a, S>
    where for<'b> &'b mut S: serde::Serializer<Ok = (), Error = Error<E>>,
          E: fmt::Display + fmt::Debug
{
    type Ok = ();
    type Error = Error<E>;

    fn serialize_field<T>(&mut self, value: &T) -> Result<(), E>
    where T: ?Sized + Serialize
    {
        self.len = self.len.wrapping_sub(1);
        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<(), E> {
        (self.len as isize <= 0).then_some(()).ok_or(Error::SeqLength)
    }''')],
 '''
use serde::ser::{Serialize, Serializer, SerializeTupleVariant};
struct V(usize);
impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_tuple_variant("E", 0, "V", self.0)?;
        m.serialize_field(&1u8)?;
        m.serialize_field(&2u8)?;
        m.end()
    }
}
fn main() {
    assert!(ser_write_msgpack::to_vec_compact(&V(2)).is_ok());
    assert!(ser_write_msgpack::to_vec_compact(&V(1)).is_err());
    assert!(ser_write_msgpack::to_vec_compact(&V(3)).is_err());
}
''','a tuple variant which emits more fields than it declares','extra elements follow the message as separate messages')

bug('c12-collect-nonascii','C12',
 [(MS,'''        self.len = self.len.checked_sub(s.len()).ok_or(fmt::Error)?;
        self.output.write_str(s).map_err(|_| fmt::Error)''','''        // write no more than announced
        let s = s.get(..self.len.min(s.len())).unwrap_or(s);
        self.len = self.len.saturating_sub(s.len());
        self.output.write_str(s).map_err(|_| fmt::Error)''')],
 '''
use core::{cell::Cell, fmt};
use serde::Serializer;
struct D(Cell<u8>);
impl fmt::Display for D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // the second time the text is longer, with a character across the announced length
        let n = self.0.get(); self.0.set(n + 1);
        f.write_str(if n == 0 { "ab" } else { "aé" })
    }
}
struct V(D);
impl serde::Serialize for V { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(&self.0) } }
fn main() {
    let mut buf = [0u8; 16];
    let mut w = ser_write::SliceWriter::new(&mut buf);
    if ser_write_msgpack::to_writer(&mut w, &V(D(Cell::new(0)))).is_ok() {
        let (s, len): (&str, usize) = ser_write_msgpack::from_slice(w.as_ref()).expect("well-formed");
        assert_eq!(len, w.len(), "{s:?}");
    }
}
''','a build without heap and a formatter whose second text has a multi-byte character across the length of the first',
 'more text than announced is written', feat='none')

# ---------------------------------------------------------------- C13
bug('c13-write-char','C13',
 [(JS,'''    fn write_str(&mut self, s: &str) -> fmt::Result {
        format_escaped_str_contents(self.output, s).map_err(|_| fmt::Error)
    }''','''    fn write_str(&mut self, s: &str) -> fmt::Result {
        format_escaped_str_contents::<W>(self.output, s).map_err(|_| fmt::Error)
    }
    fn write_char(&mut self, c: char) -> fmt::Result {
        match c {
            '\\0'..='\\x1f' | '"' => self.write_str(c.encode_utf8(&mut [0; 4])),
            _ => self.output.write_str(c.encode_utf8(&mut [0; 4])).map_err(|_| fmt::Error)
        }
    }''')],
 '''
use std::fmt::{self, Write};
struct D;
impl fmt::Display for D { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("C:")?; f.write_char('\\\\')?; f.write_str("x") } }
impl serde::Serialize for D { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self) } }
fn main() { assert_eq!(ser_write_json::to_string(&D).unwrap(), r#""C:\\\\x""#); }
''','a formatter which writes a backslash as a single character','the backslash is not escaped')

bug('c13-variant-field-name','C13',
 [(JS,'''        key.serialize(&mut *self.ser)?;
        self.ser.output.write(b":")?;
        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<(), W::Error> {
        Ok(self.ser.output.write(b"}}")?)
    }''','''        // names of fields are identifiers
        self.ser.output.write_byte(b'"')?;
        self.ser.output.write_str(key)?;
        self.ser.output.write(b"\\":")?;
        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<(), W::Error> {
        Ok(self.ser.output.write(b"}}")?)
    }''')],
 '''
#[derive(serde::Serialize)]
enum E { V { #[serde(rename = "say \\"hi\\"")] a: u8 } }
fn main() { assert_eq!(ser_write_json::to_string(&E::V { a: 1 }).unwrap(), r#"{"V":{"say \\"hi\\"":1}}"#); }
''','a struct variant with a field renamed to text that needs escaping','malformed JSON')

bug('c13-f32-finite','C13',
 [(JS,'''        if v.is_finite() {
            serialize_ryu!(self, v)
        } else {
            self.serialize_none()
        }
    }

    fn serialize_char''','''        if v.is_finite() {
            serialize_ryu!(self, v)
        } else if v.is_nan() {
            self.serialize_none()
        } else {
            // out of range of any reader, which gives back an infinity
            Ok(self.output.write(if v > 0.0 { b"1e999" } else { b"-1e999" })?)
        }
    }

    fn serialize_char''')],
 '''
fn main() {
    assert_eq!(ser_write_json::to_string(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]).map(|_| ()).is_ok(), true);
    let s = ser_write_json::to_string(&f64::INFINITY).unwrap();
    assert_eq!(s, "null");
}
''','an infinite f64','not written as null')

# ---------------------------------------------------------------- C14
bug('c14-field-index-u8','C14',
 [(MS,'''        let idx = self.idx;
        self.idx = idx.wrapping_add(1);
        self.ser.serialize_u32(idx)?;
        value.serialize(&mut *self.ser)''','''        let idx = self.idx;
        self.idx = (idx as u8).wrapping_add(1).into();
        self.ser.serialize_u32(idx)?;
        value.serialize(&mut *self.ser)''',0)],
 '''
use serde::ser::{Serialize, Serializer, SerializeStruct};
struct Wide;
impl Serialize for Wide {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_struct("Wide", 300)?;
        for i in 0..300u16 { m.serialize_field("f", &i)?; }
        m.end()
    }
}
fn main() {
    let msg = ser_write_msgpack::to_vec(&Wide).unwrap();
    let (map, _): (std::collections::BTreeMap<u32, u16>, usize) = ser_write_msgpack::from_slice(&msg).unwrap();
    assert_eq!(map.len(), 300);
    for i in 0..300 { assert_eq!(map[&i], i as u16); }
}
''','a struct with more than 256 fields','fields from 256 on are sent with the indexes of others')

bug('c14-u16-narrowing','C14',
 [(MD,'''        visitor.visit_u16(self.parse_integer()?)''','''        visitor.visit_u16(self.parse_integer::<u32>()? as u16)''')],
 '''
fn main() {
    assert_eq!(ser_write_msgpack::from_slice::<u16>(&[0xcd, 0xff, 0xff]), Ok((65535, 3)));
    assert!(ser_write_msgpack::from_slice::<u16>(&[0xce, 0, 1, 0, 0]).is_err());
}
''','a number above 65535 sent for a field which the receiver has as u16','the number is truncated')

bug('c14-json-key-narrowing','C14',
 [(JD,'''        visitor.visit_i16(self.parse_signed_numkey()?)''','''        visitor.visit_i16(self.parse_signed_numkey::<i32>()? as i16)''')],
 '''
use std::collections::BTreeMap;
fn main() {
    let mut t = *b"{\\"40000\\":1}";
    assert!(ser_write_json::from_mut_slice::<BTreeMap<i16, u8>>(&mut t).is_err());
    let mut t = *b"{\\"-300\\":1}";
    assert!(ser_write_json::from_mut_slice::<BTreeMap<i16, u8>>(&mut t).is_ok());
}
''','an integer map key which does not fit the receiver\'s 16-bit type','the key is truncated, values end up under other keys')

bug('c14-array-extra-ignored','C14',
 [(JD,'''            let value = visitor.visit_seq(CommaSeparated::new(self))?;
            if b']' == self.eat_whitespace()? {
                self.eat_some(1);
                Ok(value)
            } else {
                Err(Error::ExpectedArrayEnd)
            }''','''            let value = visitor.visit_seq(CommaSeparated::new(self))?;
            match self.eat_whitespace()? {
                b']' => self.eat_some(1),
                // newer peers append nulls for fields they removed
                b',' => {
                    while b',' == self.eat_whitespace()? {
                        self.eat_some(1);
                        self.eat_whitespace()?;
                        self.parse_token_content(b"null").map_err(|_| Error::ExpectedArrayEnd)?;
                    }
                    if b']' != self.eat_whitespace()? {
                        return Err(Error::ExpectedArrayEnd)
                    }
                    self.eat_some(1);
                }
                _ => return Err(Error::ExpectedArrayEnd)
            }
            Ok(value)''')],
 '''
fn main() {
    let mut t = *b"[1,2,null]";
    assert!(ser_write_json::from_mut_slice::<(u8, u8)>(&mut t).is_err(), "too many elements");
}
''','an array with extra null elements for a receiver with fewer fields','too many elements are accepted')

# ---------------------------------------------------------------- C15
bug('c15-debug-only-bounds','C15',
 [(JD,'''            let byte = self.parse_unsigned()?;
            #[cfg(debug_assertions)]''','''            let byte = {
                #[cfg(debug_assertions)]
                { self.parse_unsigned::<u8>()? }
                // no checks of overflow in optimised builds
                #[cfg(not(debug_assertions))]
                { self.parse_unsigned::<u16>()? as u8 }
            };
            #[cfg(debug_assertions)]''')],
 '''
fn main() {
    let mut t = *b"[1,300]";
    assert!(ser_write_json::from_mut_slice::<&[u8]>(&mut t).is_err());
}
''','an optimised build and a byte array with a number between 256 and 65535','accepted only in optimised builds', rel=True)

bug('c15-noheap-len-chars','C15',
 [(MS,'''        self.0 = self.0.checked_add(s.len()).ok_or(fmt::Error)?;
        Ok(())''','''        self.0 = self.0.checked_add(s.chars().count()).ok_or(fmt::Error)?;
        Ok(())''')],
 '''
struct D;
impl core::fmt::Display for D { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("23 °C") } }
impl serde::Serialize for D { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self) } }
fn main() {
    let mut buf = [0u8; 16];
    let mut w = ser_write::SliceWriter::new(&mut buf);
    assert_eq!(ser_write_msgpack::to_writer(&mut w, &D), Ok(()));
    assert_eq!(w.as_ref(), "\\u{a6}23 °C".as_bytes().get(1..).unwrap());
}
''','a build without heap and formatted text with non-ASCII characters','fails only in builds without heap', feat='none')

# ---------------------------------------------------------------- C16
bug('c16-token-eats-on-mismatch','C16',
 [(JD,'''            if slice == token {
                self.eat_some(size);
                Ok(())
            }
            else {
                Err(Error::ExpectedToken)
            }''','''            let found = slice == token;
            self.eat_some(size);
            found.then_some(()).ok_or(Error::ExpectedToken)''')],
 '''
use ser_write_json::de::{DeserializerNopeByteStr, Error};
fn main() {
    let mut t = *b"false";
    let mut de = DeserializerNopeByteStr::from_mut_slice(&mut t);
    assert_eq!(de.parse_token_content(b"null"), Err(Error::ExpectedToken));
    assert_eq!(de.remaining_len(), 5);
    assert_eq!(de.parse_token_content(b"false"), Ok(()));
}
''','trying one token and, after a mismatch, another','the unmatched bytes are consumed')

bug('c16-split-drops-on-error','C16',
 [(MD,'''        let input = self.input.get(self.index..)
                    .ok_or(Error::UnexpectedEof)?;
        let (res, input)''','''        let input = self.input.get(core::mem::take(&mut self.index)..)
                    .ok_or(Error::UnexpectedEof)?;
        let (res, input)''')],
 '''
use ser_write_msgpack::de::{Deserializer, Error};
fn main() {
    let mut de = Deserializer::from_slice(&[1, 2, 3]);
    assert_eq!(de.fetch(), Ok(1));
    assert_eq!(de.split_input(9), Err(Error::UnexpectedEof));
    assert_eq!(de.fetch(), Ok(2));
}
''','a split of more than what has arrived after something was already consumed','the cursor goes back to the beginning of the input')

bug('c16-whitespace-to-end','C16',
 [(JD,'''        .map(|pos| {
            self.index = index + pos;
            self.input[index + pos]
        })
        .ok_or(Error::UnexpectedEof)''','''        .map(|pos| {
            self.index = index + pos;
            self.input[index + pos]
        })
        .ok_or_else(|| {
            // nothing but whitespace remains
            self.index = self.input.len();
            Error::UnexpectedEof
        })''')],
 '''
use ser_write_json::de::{DeserializerNopeByteStr, Error};
fn main() {
    let mut t = *b"ab";
    let mut de = DeserializerNopeByteStr::from_mut_slice(&mut t);
    de.eat_some(5);
    assert_eq!(de.eat_whitespace(), Err(Error::UnexpectedEof));
    assert_eq!(de.remaining_len(), 0);
    assert!(de.input_mut().is_err(), "the cursor is beyond the input");
}
''','skipping whitespace with the cursor advanced beyond what has arrived','the cursor moves back')

# ==== batch 2

bug('c08-short-text-unchecked','C08',
 [(MD,'''        Ok(core::str::from_utf8(self.split_input(len)?)?)''','''        let bytes = self.split_input(len)?;
        if let [b] = bytes {
            if *b != 0xff && *b >= 0x80 {
                // a single Latin-1 byte: nothing to decode
                return Ok("\\u{fffd}")
            }
        }
        Ok(core::str::from_utf8(bytes)?)''')],
 '''
fn main() {
    for b in 0x80..=0xffu8 {
        assert!(ser_write_msgpack::from_slice::<&str>(&[0xa1, b]).is_err(), "{b:02x}");
    }
}
''','a string of one byte which is not ASCII','invalid text is accepted and replaced')

bug('c06-any-u32-sign','C06',
 [(MD,'''            UINT_32 => self.deserialize_u32(visitor),''','''            UINT_32 => self.deserialize_i32(visitor),''')],
 '''
#[derive(serde::Deserialize, Debug, PartialEq)]
#[serde(untagged)]
enum N { Num(u64), Txt(String) }
fn main() {
    assert_eq!(ser_write_msgpack::from_slice::<N>(&[0xce, 0, 1, 0, 0]), Ok((N::Num(65536), 5)));
    assert_eq!(ser_write_msgpack::from_slice::<N>(&[0xce, 0xff, 0xff, 0xff, 0xff]), Ok((N::Num(u32::MAX.into()), 5)));
}
''','a number between 2^31 and 2^32 read as an untagged value','the number is refused')

bug('c06-f64-int32-precision','C06',
 [(MD,'''            INT_32  => self.fetch_i32()? as f64,''','''            INT_32  => self.fetch_i32()? as f32 as f64,''')],
 '''
fn main() {
    for n in [0i32, -1, 70000, 16777217, -123456789, i32::MAX] {
        let mut m = vec![0xd2]; m.extend(n.to_be_bytes());
        assert_eq!(ser_write_msgpack::from_slice::<f64>(&m), Ok((n as f64, 5)));
    }
}
''','a peer which sends whole numbers of more than 24 bits as 32-bit integers for a 64-bit float','the number is rounded to single precision')

bug('c08-enum-map32-len','C08',
 [(MD,'''                self.eat_some(1);
                self.fetch_u32()?.try_into()?
            }
            _ => return visitor.visit_enum(UnitVariantAccess { de: self })''','''                self.eat_some(1);
                (self.fetch_u32()? as u16).into()
            }
            _ => return visitor.visit_enum(UnitVariantAccess { de: self })''')],
 '''
#[derive(serde::Deserialize, Debug, PartialEq)]
enum E { A(u8) }
fn main() {
    assert_eq!(ser_write_msgpack::from_slice::<E>(&[0xdf, 0, 0, 0, 1, 0, 7]), Ok((E::A(7), 7)));
    assert!(ser_write_msgpack::from_slice::<E>(&[0xdf, 0, 1, 0, 1, 0, 7]).is_err());
}
''','a map header announcing 65537 (or another multiple of 65536 plus one) entries where an enum is expected','a value is returned from a part of a message')

bug('c10-ignored-long-escapes','C10',
 [(JD,'''                        let count = self.input[start..end].iter().rev()
                            .position(|&b| b != RS)
                            .unwrap_or_else(|| end - start);''','''                        const MAX_RUN: usize = 16;
                        let begin = start.max(end.saturating_sub(MAX_RUN));
                        let count = self.input[begin..end].iter().rev()
                            .position(|&b| b != RS)
                            .unwrap_or(end - begin);''')],
 '''
#[derive(serde::Deserialize, Debug, PartialEq)]
struct P { x: u8 }
fn main() {
    for n in 0..50 {
        let slashes = "\\x5c\\x5c".repeat(n) + "\\x5c\\x22";
        let t = format!("{{@path@:@{slashes}@,@x@:1}}").replace('@', "\\x22");
        assert_eq!(ser_write_json::from_mut_slice::<P>(&mut t.into_bytes()), Ok(P { x: 1 }), "{n}");
    }
}
''','an unknown field with a text where 17 or more backslashes stand before a quote','a valid document is refused')

bug('c11-base64-padding-eof','C11',
 [(JD,'''                        Err(Error::UnexpectedChar)
                    }
                }
                Err(Error::UnexpectedEof)''','''                        Err(Error::UnexpectedChar)
                    }
                }
                Err(if input.len() - elen > 2 { Error::UnexpectedChar } else { Error::UnexpectedEof })''')],
 '''
use ser_write_json::de::Error;
fn main() {
    let full = b"\\"AQ===\\"";
    for n in 1..full.len() {
        let mut t = full[..n].to_vec();
        assert_eq!(ser_write_json::from_mut_slice_base64_bytes::<&serde_bytes::Bytes>(&mut t).err(), Some(Error::UnexpectedEof), "{n}");
    }
}
''','a base64 string cut off within its padding','the receiver gives up instead of waiting for the rest')

bug('c11-uescape-cut','C11',
 [(JD,'''let code = self.input.get(index+1..index+5).ok_or(Error::UnexpectedEof)?
                                           .try_into().unwrap();''','''let code = self.input.get(index+1..index+5)
                                           .ok_or(if self.input.len() - index > 3 { Error::InvalidEscapeSequence } else { Error::UnexpectedEof })?
                                           .try_into().unwrap();''')],
 '''
use ser_write_json::de::Error;
fn main() {
    let full = br#""ab\\u0041c""#;
    for n in 1..full.len() {
        let mut t = full[..n].to_vec();
        assert_eq!(ser_write_json::from_mut_slice::<&str>(&mut t).err(), Some(Error::UnexpectedEof), "{n}");
    }
}
''','a string cut off after the third digit of an escaped character','the receiver gives up instead of waiting for the rest')

bug('c10-end-nul','C10',
 [(JD,'''        self.eat_whitespace().err()
        .map(|_| ())
        .ok_or(Error::TrailingCharacters)''','''        match self.eat_whitespace() {
            // terminated strings
            Ok(0) if self.remaining_len() == 1 => Ok(()),
            Ok(_) => Err(Error::TrailingCharacters),
            Err(_) => Ok(())
        }''')],
 '''
fn main() {
    let mut t = *b"12 \\n";
    assert_eq!(ser_write_json::from_mut_slice::<u8>(&mut t), Ok(12));
    let mut t = *b"12 \\0";
    assert!(ser_write_json::from_mut_slice::<u8>(&mut t).is_err());
}
''','a document followed by a single NUL','trailing data is accepted')

bug('c05-msgpack-identifier-owned','C05',
 [(MD,'''            STR_32  => self.deserialize_str(visitor),
            _ => Err(Error::ExpectedIdentifier)''','''            STR_32  => {
                #[cfg(any(feature = "std", feature = "alloc"))]
                {
                    let name = self.parse_str()?;
                    if name.bytes().any(|b| b.is_ascii_uppercase()) {
                        return match visitor.visit_string(name.to_string()) {
                            Err(e) => Err(e),
                            v => v
                        }
                    }
                    return visitor.visit_borrowed_str(name)
                }
                #[cfg(not(any(feature = "std", feature = "alloc")))]
                self.deserialize_str(visitor)
            }
            _ => Err(Error::ExpectedIdentifier)''')],
 '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A; static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator] static G: A = A;
#[derive(serde::Deserialize, Debug, PartialEq)]
#[serde(rename_all = "camelCase")]
struct P { max_speed: u8, b: u8 }
fn main() {
    let msg = b"\\x82\\xa8maxSpeed\\x07\\xa1b\\x01";
    let n = N.load(SeqCst);
    let r = ser_write_msgpack::from_slice::<P>(msg);
    let n = N.load(SeqCst) - n;
    assert_eq!(r, Ok((P { max_speed: 7, b: 1 }, msg.len())));
    assert_eq!(n, 0, "allocations");
}
''','field names which contain a capital letter','reading them allocates')

bug('c02-cursor-write','C02',
 [(F,'''        std::io::Write::write_all(self, buf).map_err(|_| SerError::BufferFull)''','''        match std::io::Write::write(self, buf) {
            Ok(0) if !buf.is_empty() => Err(SerError::BufferFull),
            Ok(_) => Ok(()),
            Err(_) => Err(SerError::BufferFull)
        }''')],
 '''
use std::io::Cursor;
use ser_write::SerWrite;
fn main() {
    let mut store = [0u8; 4];
    let mut c = Cursor::new(&mut store[..]);
    assert!(SerWrite::write(&mut c, b"abc").is_ok());
    assert!(SerWrite::write(&mut c, b"de").is_err(), "there is room for one byte only");
}
''','a std::io::Cursor over a fixed buffer in which the message does not fit','success is reported for a truncated message')

bug('c04-tinyvec-reserve','C04',
 [(F,'''        self.try_reserve(buf.len())?;
        match self {''','''        if buf.len() <= 4096 {
            // grow faster for small pieces
            self.reserve(buf.len());
        }
        self.try_reserve(buf.len())?;
        match self {''')],
 '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
struct A; static DENY: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if DENY.load(SeqCst) && l.size() >= 48 { return core::ptr::null_mut() } unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator] static G: A = A;
use ser_write::SerWrite;
fn main() {
    let mut w = tinyvec::TinyVec::<[u8; 8]>::new();
    w.write(b"0123456789abcdef").unwrap();
    DENY.store(true, SeqCst);
    let r = w.write(&[7; 64]);
    DENY.store(false, SeqCst);
    assert!(r.is_err());
    assert_eq!(w.as_slice(), b"0123456789abcdef");
}
''','a TinyVec which has already moved to the heap and no memory to let it grow further','the process aborts', sw=['tinyvec','tinyvec/alloc'] if False else ['tinyvec'], extra='tinyvec = { version = "1", features = ["alloc"] }')

bug('c01-hex-half-written','C01',
 [(JS,'''    pub fn serialize_bytes_as_hex_str(&mut self, v: &[u8]) -> Result<(), W::Error> {''','''    pub fn serialize_bytes_as_hex_str(&mut self, v: &[u8]) -> Result<(), W::Error> {
        if v.len() == 32 {
            // two calls for a whole digest
            let mut buf = [0u8; 64];
            for (d, b) in buf.chunks_exact_mut(2).zip(v) { d.copy_from_slice(&hex(*b)) }
            let (a, b) = buf.split_at(32);
            let first = self.output.write(a);
            self.output.write(b)?;
            return Ok(first?)
        }''')],
 FLAKY+'''
fn main() {
    let v = [0xabu8; 32];
    for fail_at in 1..80 {
        let mut w = W { fail_at, once: true, ..W::default() };
        let r = ser_write_json::to_writer_hex_bytes(&mut w, serde_bytes::Bytes::new(&v));
        if w.calls >= fail_at {
            assert!(r.is_err());
            assert_eq!(w.calls, fail_at, "writer called again after it failed");
        }
    }
    assert_eq!(ser_write_json::to_string_hex_bytes(serde_bytes::Bytes::new(&v)).unwrap(), format!("\\"{}\\"", "AB".repeat(32)));
}
''','bytes of exactly 32 as a hexadecimal string and a writer failing in the middle of it','the writer is called again after it failed')

bug('c06-newtype-of-unit','C06',
 [(MS,'''        self.output.write_byte(FIXMAP|1)?;
        self.serialize_variant(variant_index, variant)?;
        value.serialize(&mut *self)''','''        if core::mem::size_of_val(value) == 0 {
            // nothing to send but the variant
            return self.serialize_variant(variant_index, variant)
        }
        self.output.write_byte(FIXMAP|1)?;
        self.serialize_variant(variant_index, variant)?;
        value.serialize(&mut *self)''')],
 '''
use serde::{Serialize, Deserialize};
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Mark;
#[derive(Serialize, Deserialize, Debug, PartialEq)]
enum E { A(Mark), B([u8; 0]), C(u8), D }
fn main() {
    for e in [E::C(1), E::D, E::A(Mark), E::B([])] {
        let m = ser_write_msgpack::to_vec(&e).unwrap();
        assert_eq!(ser_write_msgpack::from_slice::<E>(&m), Ok((e, m.len())));
    }
}
''','an enum variant holding a unit struct or another value without contents','the variant cannot be read back')

bug('c01-msgpack-u32-retry','C01',
 [(MS,'''    else if let Ok(len) = u16::try_from(len) {
        output.write_byte(MAP_16)?;
        output.write(&len.to_be_bytes())?;
    }''','''    else if let Ok(len) = u16::try_from(len) {
        let len = len.to_be_bytes();
        if output.write(&[MAP_16, len[0], len[1]]).is_err() {
            // the header may not fit at once
            output.write_byte(MAP_16)?;
            output.write(&len)?;
        }
    }''')],
 FLAKY+'''
fn main() {
    let map: std::collections::BTreeMap<u8, u8> = (0..20).map(|i| (i, i)).collect();
    for fail_at in 1..40 {
        let mut w = W { fail_at, once: true, ..W::default() };
        let r = ser_write_msgpack::to_writer(&mut w, &map);
        assert!(w.calls < fail_at || r.is_err(), "{fail_at}");
    }
}
''','a map of 16 or more entries and a writer failing at its header','the writer is called again and the failure is not reported')

bug('c06-char-eof','C06',
 [(MD,'''        let s = self.parse_str()?;
        let ch = char::from_str(s).map_err(|_| Error::InvalidLength)?;''','''        let s = self.parse_str().map_err(|e| match e {
            // no character is longer
            Error::UnexpectedEof if self.remaining_len() > 1 => Error::InvalidLength,
            e => e
        })?;
        let ch = char::from_str(s).map_err(|_| Error::InvalidLength)?;''')],
 '''
use ser_write_msgpack::de::Error;
fn main() {
    let full = [0xa4,0xf0,0x9f,0x91,0x8f];
    for n in 0..full.len() {
        assert_eq!(ser_write_msgpack::from_slice::<char>(&full[..n]), Err(Error::UnexpectedEof), "{n}");
    }
}
''','a character of three or more bytes cut off after its second byte','the receiver gives up instead of waiting for the rest')


# ==== batch 3
bug('c09-whitespace-window','C09',
 [(JD,'''        .and_then(|input| input.iter()
            .position(|&b| !matches!(b, SP|T_|N_|R_)))''','''        .and_then(|input| input.iter().take(512)
            .position(|&b| !matches!(b, SP|T_|N_|R_)))''')],
 '''
fn main() {
    for n in [0, 1, 400, 600, 3000] {
        let t = format!("[1,{}2]", " ".repeat(n));
        assert_eq!(ser_write_json::from_mut_slice::<[u8; 2]>(&mut t.into_bytes()), Ok([1, 2]), "{n}");
    }
}
''','a run of 512 or more whitespace characters','a complete document is reported as unfinished; one followed by such a run and by other data passes as complete')

bug('c13-escape-sampled','C13',
 [(JS,'''    let bytes = value.as_bytes();

    let mut start = 0;
''','''    let bytes = value.as_bytes();

    // long pieces are usually plain text
    if bytes.len() >= 512 && !bytes.iter().step_by(2).any(|&b| b < 0x20 || b == QU || b == BS)
        && !bytes.ends_with(b"\\\\n")
    {
        return Ok(writer.write_str(value)?)
    }

    let mut start = 0;
''')],
 '''
fn main() {
    for n in [10, 100, 511, 513, 1001] {
        let text = format!("{}@{}", "a".repeat(n), "b".repeat(99)).replace('@', "\\x22");
        let out = ser_write_json::to_string(&text).unwrap();
        assert_eq!(out.len(), text.len() + 3, "{n}");
    }
}
''','a text of 512 bytes or more whose only characters to be escaped are at odd positions','the output is not JSON')

bug('c09-word-copy','C09',
 [(JD,'''                if gap != 0 {
                    self.input.copy_within(index..end, dest);
                }''','''                if gap != 0 {
                    if end - index >= 48 && end + 8 < self.input.len() {
                        // long runs are copied by words
                        let mut at = index;
                        while at < end {
                            let word: [u8; 4] = self.input[at..at + 4].try_into().unwrap();
                            self.input[at - gap..at - gap + 4].copy_from_slice(&word);
                            at += 4;
                        }
                    }
                    else {
                        self.input.copy_within(index..end, dest);
                    }
                }''')],
 '''
fn main() {
    for n in 40..60 {
        let tail = "x".repeat(n);
        let t = format!("[@#n{tail}@,@next@]").replace('@', "\\x22").replace('#', "\\x5c");
        let mut b = t.into_bytes();
        assert_eq!(ser_write_json::from_mut_slice::<(&str, &str)>(&mut b), Ok((&format!("\\n{tail}")[..], "next")), "{n}");
    }
}
''','a text of which 48 or more characters follow an escape','the bytes after the text are overwritten')

bug('c07-pending-u32','C07',
 [(MD,'''        let mut pending = 1u64;
        while pending != 0 {
            pending = (pending - 1).saturating_add(self.eat_message_head()?);
        }''','''        let mut pending = 1u32;
        while pending != 0 {
            pending = (pending - 1).wrapping_add(self.eat_message_head()? as u32);
        }''')],
 '''
use ser_write_msgpack::de::{Deserializer, Error};
fn main() {
    // an array of one more map than can be there
    assert_eq!(Deserializer::from_slice(&[0xdf, 0xff, 0xff, 0xff, 0xff, 1, 2]).eat_message(), Err(Error::UnexpectedEof));
    assert_eq!(Deserializer::from_slice(&[0xdf, 0x80, 0, 0, 0, 1, 2]).eat_message(), Err(Error::UnexpectedEof));
}
''','a map header announcing 2^31 entries','the header alone passes as the whole message')

bug('c10-first-comma-mask','C10',
 [(JD,'''struct CommaSeparated<'a, 'de: 'a, P> {
    de: &'a mut Deserializer<'de, P>,
    first: bool,
}''','''struct CommaSeparated<'a, 'de: 'a, P> {
    de: &'a mut Deserializer<'de, P>,
    first: bool,
    seen: u8,
}'''),
 (JD,'''        CommaSeparated {
            de,
            first: true,
        }''','''        CommaSeparated {
            de,
            first: true,
            seen: 0,
        }'''),
 (JD,'''            else {
                self.de.eat_some(1);
                match self.de.eat_whitespace()? {
                    b'}' => return Err(Error::TrailingObjectComma),
                    ch => ch
                }
            }''','''            else {
                self.de.eat_some(1);
                self.seen = self.seen.wrapping_add(1);
                match self.de.eat_whitespace()? {
                    b'}' if self.seen != 0 => return Err(Error::TrailingObjectComma),
                    b'}' => return Ok(None),
                    ch => ch
                }
            }''')],
 '''
use std::collections::BTreeMap;
fn main() {
    for n in [1, 10, 255, 256, 257, 512] {
        let entries: Vec<String> = (0..n).map(|i| format!("\\x22{i}\\x22:1,")).collect();
        let t = format!("{{{}}}", entries.concat());
        assert!(ser_write_json::from_mut_slice::<BTreeMap<u16, u8>>(&mut t.into_bytes()).is_err(), "{n}");
    }
}
''','an object with a comma after its last of exactly 256 entries','an invalid document is accepted')

bug('c09-i64-between','C09',
 [(JS,'''        // "-9223372036854775808"
        serialize_signed!(self, 20, v, i64, u64)''','''        if matches!(v >> 32, 0 | -1) {
            return self.serialize_i32(v as i32)
        }
        // "-9223372036854775808"
        serialize_signed!(self, 20, v, i64, u64)''')],
 '''
fn main() {
    for n in [0i64, -1, i32::MIN.into(), i32::MAX.into(), 1 << 40, i64::MIN, -(1 << 40)] {
        assert_eq!(ser_write_json::to_string(&n).unwrap(), n.to_string());
    }
    for n in [i64::from(i32::MAX) + 1, i64::from(u32::MAX), i64::from(i32::MIN) - 1] {
        assert_eq!(ser_write_json::to_string(&n).unwrap(), n.to_string());
    }
}
''','a signed 64-bit number just outside the range of 32-bit ones','another number is written')

bug('c15-noheap-long-text','C15',
 [(MS,'''        write_str_len(&mut self.output, len)?;
        let mut col = StringCollector::new(len, &mut self.output);''','''        // do not format long texts twice
        if len > 4000 { return Err(Error::StrLength) }
        write_str_len(&mut self.output, len)?;
        let mut col = StringCollector::new(len, &mut self.output);''')],
 '''
struct D(usize);
impl core::fmt::Display for D { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { for _ in 0..self.0 { f.write_str("x")? } Ok(()) } }
impl serde::Serialize for D { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self) } }
fn main() {
    for n in [3, 300, 3999, 4001, 5000] {
        let mut buf = [0u8; 6000];
        let mut w = ser_write::SliceWriter::new(&mut buf);
        assert_eq!(ser_write_msgpack::to_writer(&mut w, &D(n)), Ok(()), "{n}");
    }
}
''','a build without heap and a formatted text of more than 4000 bytes','fails only in builds without heap', feat='none')

bug('c14-ignored-exponent','C14',
 [(JD,'''            b'0'..=b'9'|b'-' => {
                let len = self.match_float().len();
                self.eat_some(len);
                visitor.visit_unit()
            }''','''            b'0'..=b'9'|b'-' => {
                let len = self.match_float().iter()
                          .position(|&b| b == b'+')
                          .unwrap_or_else(|| self.match_float().len());
                self.eat_some(len);
                visitor.visit_unit()
            }''')],
 '''
#[derive(serde::Deserialize, Debug, PartialEq)]
struct P { x: u8 }
fn main() {
    for t in ["-1.5e-7", "1e7", "2E9", "1e+21"] {
        let t = format!("{{\\x22y\\x22:{t},\\x22x\\x22:1}}");
        assert_eq!(ser_write_json::from_mut_slice::<P>(&mut t.clone().into_bytes()), Ok(P { x: 1 }), "{t}");
    }
}
''','an unknown field with a number so large that it is written with a positive exponent','the document is refused')

bug('c08-bool-from-int','C08',
 [(MD,'''            _ => return Err(Error::InvalidType)
        };
        visitor.visit_bool(boolean)''','''            // C peers send flags as numbers
            c@(0|1) => c != 0,
            _ => return Err(Error::InvalidType)
        };
        visitor.visit_bool(boolean)''')],
 '''
fn main() {
    assert_eq!(ser_write_msgpack::from_slice(&[0xc3]), Ok((true, 1)));
    assert!(ser_write_msgpack::from_slice::<bool>(&[1]).is_err());
}
''','a number where a truth value is expected','a value is made up')

bug('c16-token-prefix','C16',
 [(JD,'''        if let Some(slice) = self.input.get(self.index..self.index+size) {
            if slice == token {''','''        if let Some(slice) = self.input.get(self.index..self.index+size) {
            if slice.eq_ignore_ascii_case(token) {''')],
 '''
fn main() {
    assert_eq!(ser_write_json::from_mut_slice::<Option<u8>>(&mut b"null".to_vec()), Ok(None));
    assert!(ser_write_json::from_mut_slice::<Option<u8>>(&mut b"nULL".to_vec()).is_err());
    assert!(ser_write_json::from_mut_slice::<bool>(&mut b"tRuE".to_vec()).is_err());
}
''','a literal with capital letters','accepted as a literal')

bug('c10-utf8-sampled','C10',
 [(JD,'''        core::str::from_utf8(self.parse_str_bytes_content()?)
        .map_err(From::from)''','''        let bytes = self.parse_str_bytes_content()?;
        if bytes.len() > 256 && bytes.iter().step_by(16).all(u8::is_ascii) && bytes[bytes.len() - 16..].is_ascii() {
            // SAFETY: plain text
            return Ok(unsafe { core::str::from_utf8_unchecked(bytes) })
        }
        core::str::from_utf8(bytes)
        .map_err(From::from)''')],
 '''
fn main() {
    let mut m = vec![b'a'; 300]; m[0] = b'\\x22'; m[299] = b'\\x22';
    assert!(ser_write_json::from_mut_slice::<&str>(&mut m.clone()).is_ok());
    m[104] = 0xff;
    assert!(ser_write_json::from_mut_slice::<&str>(&mut m).is_err());
}
''','a damaged byte inside a text of more than 256 bytes','text which is not UTF-8 is handed out')

# ================================================================ batch 4
bug('c03-split-empty','C03',
 [(L,'''        let (res, buf) = self.buf.split_at_mut(self.len);
        (res, Self { buf, len: 0 })''','''        if self.buf.len() - self.len < 2 {
            // nothing useful fits any more
            return (&mut self.buf[..self.len], Self { buf: &mut [], len: 0 })
        }
        let (res, buf) = self.buf.split_at_mut(self.len);
        (res, Self { buf, len: 0 })''')],
 '''
use ser_write::{SerWrite, SliceWriter};
fn main() {
    for n in 3..9 {
        let mut b = vec![0u8; n];
        let mut w = SliceWriter::new(&mut b);
        w.write(&[1, 2]).unwrap();
        let (a, mut w) = w.split();
        assert_eq!(a, [1, 2]);
        w.write(&vec![3; n - 2]).expect("there is room");
        let (b, _) = w.split();
        assert_eq!(b, vec![3; n - 2]);
    }
}
''','a buffer that is split when exactly one byte is left','the last byte of the buffer is lost, an append that fits fails')

bug('c12-entry-saturates','C12',
 [(MS,'''    fn serialize_value<T>(&mut self, value: &T) -> Result<(), E>
    where T: ?Sized + Serialize
    {
        value.serialize(&mut *self.ser)
    }
''','''    fn serialize_value<T>(&mut self, value: &T) -> Result<(), E>
    where T: ?Sized + Serialize
    {
        value.serialize(&mut *self.ser)
    }

    fn serialize_entry<K, V>(&mut self, key: &K, value: &V) -> Result<(), E>
    where K: ?Sized + Serialize, V: ?Sized + Serialize
    {
        self.len = self.len.saturating_sub(1);
        key.serialize(&mut *self.ser)?;
        value.serialize(&mut *self.ser)
    }
''')],
 '''
use serde::ser::{Serialize, Serializer, SerializeMap};
struct M(usize, usize, bool);
impl Serialize for M {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(self.0))?;
        for i in 0..self.1 { if self.2 { m.serialize_entry(&i, &true)? } else { m.serialize_key(&i)?; m.serialize_value(&true)? } }
        m.end()
    }
}
fn main() {
    for entries in [false, true] {
        for (says, has) in [(3, 3), (0, 0), (20, 20)] { let mut v = Vec::new(); ser_write_msgpack::to_writer(&mut v, &M(says, has, entries)).unwrap(); }
        for (says, has) in [(3, 4), (0, 2), (4, 3)] {
            let mut v = Vec::new();
            assert!(ser_write_msgpack::to_writer(&mut v, &M(says, has, entries)).is_err(), "{says} {has} {entries}");
        }
    }
}
''','a map with more entries than it declared, written as entries','a malformed message is reported as success')

bug('c12-skip-forgives','C12',
 [(MS,'''impl<'a, S, E> ser::SerializeStructVariant for SerializeStructStrMap<'a, S>
    where for<'b> &'b mut S: serde::Serializer<Ok = (), Error = Error<E>>,
          E: fmt::Display + fmt::Debug
{
    type Ok = ();
    type Error = Error<E>;
''','''impl<'a, S, E> ser::SerializeStructVariant for SerializeStructStrMap<'a, S>
    where for<'b> &'b mut S: serde::Serializer<Ok = (), Error = Error<E>>,
          E: fmt::Display + fmt::Debug
{
    type Ok = ();
    type Error = Error<E>;

    fn skip_field(&mut self, _key: &'static str) -> Result<(), E> {
        self.len = self.len.saturating_sub(1);
        Ok(())
    }
''')],
 '''
use serde::ser::{Serialize, Serializer, SerializeStructVariant};
struct M(usize);
impl Serialize for M {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_struct_variant("M", 0, "A", self.0)?;
        m.serialize_field("a", &1u8)?;
        m.skip_field("b")?;
        m.serialize_field("c", &2u8)?;
        m.end()
    }
}
fn main() {
    let mut v = Vec::new();
    ser_write_msgpack::to_writer_named(&mut v, &M(2)).expect("the right number of fields");
    assert_eq!(v, b"\\x81\\xa1A\\x82\\xa1a\\x01\\xa1c\\x02");
    assert!(ser_write_msgpack::to_writer_named(&mut v, &M(3)).is_err());
}
''','a struct variant written as a map with names that leaves out a field','a correct length is refused, or a message with too few fields is reported as success')

bug('c16-backslash-run','C16',
 [(JD,'''                        let count = self.input[start..end].iter().rev()
                            .position(|&b| b != RS)
                            .unwrap_or_else(|| end - start);''','''                        let count = self.input[start..end].iter().rev().take(4)
                            .position(|&b| b != RS)
                            .unwrap_or_else(|| (end - start).min(4));''')],
 '''
use ser_write_json::de::DeserializerNopeByteStr as D;
fn main() {
    for n in 0..12 {
        let mut t = vec![b'\\\\'; n]; t.extend_from_slice(b"\\x22 \\x22,7");
        let mut d = D::from_mut_slice(&mut t);
        d.eat_str_content().unwrap();
        let left = d.remaining_len();
        assert_eq!(left, if n % 2 == 0 { 4 } else { 2 }, "{n} backslashes");
    }
}
''','a skipped string with an odd run of five or more backslashes before a quote','the string ends too early')

bug('c11-variant-colon','C11',
 [(JD,'''        let variant = seed.deserialize(&mut *self.de)?;
        self.de.parse_key_colon()?;
        Ok((variant, self))''','''        let variant = seed.deserialize(&mut *self.de)?;
        self.de.parse_key_colon().map_err(|_| Error::ExpectedColon)?;
        Ok((variant, self))''')],
 '''
#[derive(serde::Deserialize, Debug, PartialEq)]
enum E { Abc(u8) }
fn main() {
    let t = b"{\\x22Abc\\x22 : 5}";
    assert_eq!(ser_write_json::from_mut_slice(&mut t.to_vec()), Ok(E::Abc(5)));
    for i in 0..t.len() {
        assert_eq!(ser_write_json::from_mut_slice::<E>(&mut t[..i].to_vec()), Err(ser_write_json::de::Error::UnexpectedEof), "cut at {i}");
    }
}
''','a document cut just after the name of a variant','a torn document is reported as a broken one')

bug('c10-hex-fold','C10',
 [(JD,'''    match ch {
        n@b'0'..=b'9' => Some(n - b'0'),
        _ => match ch|0x20 {
            n@b'a'..=b'f' => Some(n - b'a' + 10),
            _ => None
        }
    }''','''    match ch|0x20 {
        n@b'0'..=b'9' => Some(n - b'0'),
        n@b'a'..=b'f' => Some(n - b'a' + 10),
        _ => None
    }''')],
 '''
fn main() {
    assert_eq!(ser_write_json::from_mut_slice(&mut b"\\x22\\\\u0041\\x22".to_vec()), Ok("A"));
    assert!(ser_write_json::from_mut_slice::<&str>(&mut b"\\x22\\\\u00\\x141\\x22".to_vec()).is_err());
}
''','one flipped bit in a digit of a unicode escape','a document with a control character in it is accepted')

bug('c02-tinyvec-last-slot','C02',
 [(F,'''        if self.try_push(byte).is_none() {
            Ok(())
        }
        else {
            Err(SerError::BufferFull)
        }''','''        if self.len() + 1 < self.capacity() {
            self.push(byte);
            Ok(())
        }
        else {
            self.write(&[byte]).and(self.write(&[]))
        }''')],'''
fn main() {}
''','','')
BUGS.pop()

bug('c10-mul-overflow','C10',
 [(JD,'''                self.checked_mul(10)
                .ok_or(Error::InvalidNumber)''','''                let n = self.wrapping_mul(10);
                // wrapped around when it did not grow
                if n < self && self >= Self::ZERO { Err(Error::InvalidNumber) } else { Ok(n) }''')],
 '''
fn main() {
    for (t, w) in [("0", Some(0)), ("255", Some(255)), ("256", None), ("300", None), ("600", None), ("1000", None)] {
        assert_eq!(ser_write_json::from_mut_slice::<u8>(&mut t.as_bytes().to_vec()).ok(), w, "{t}");
    }
    for (t, w) in [("-128", Some(-128)), ("-129", None), ("127", Some(127)), ("128", None), ("-500", None)] {
        assert_eq!(ser_write_json::from_mut_slice::<i8>(&mut t.as_bytes().to_vec()).ok(), w, "{t}");
    }
}
''','an integer too large by a factor that wraps around to something larger','another number is decoded')

bug('c08-bytes-from-text','C08',
 [(MD,'''            BIN_8 => self.fetch_u8()?.into(),
            BIN_16 => self.fetch_u16()?.into(),
            BIN_32 => self.fetch_u32()?.try_into()?,
            _ => return Err(Error::ExpectedBin)''','''            BIN_8|STR_8 => self.fetch_u8()?.into(),
            BIN_16 => self.fetch_u16()?.into(),
            BIN_32 => self.fetch_u32()?.try_into()?,
            _ => return Err(Error::ExpectedBin)''')],
 '''
fn main() {
    assert_eq!(ser_write_msgpack::from_slice::<&serde_bytes::Bytes>(&[0xc4, 1, 65]).unwrap().0, &b"A"[..]);
    assert!(ser_write_msgpack::from_slice::<&serde_bytes::Bytes>(&[0xd9, 1, 65]).is_err());
}
''','a text of 32 to 255 bytes where bytes are expected','a value of another type is accepted')

bug('c11-bytes-array-eof','C11',
 [(JD,'''            index += 1;
            match self.eat_whitespace()? {
                b',' => self.eat_some(1),
                b']' => break,
                _ => return Err(Error::UnexpectedChar)
            }''','''            index += 1;
            match self.eat_whitespace() {
                Ok(b',') => self.eat_some(1),
                Ok(b']') => break,
                _ => return Err(Error::UnexpectedChar)
            }''')],
 '''
fn main() {
    let t = b"[1, 22 ,3]";
    assert_eq!(ser_write_json::from_mut_slice::<&serde_bytes::Bytes>(&mut t.to_vec()).unwrap(), &[1, 22, 3][..]);
    for i in 0..t.len() {
        assert_eq!(ser_write_json::from_mut_slice::<&serde_bytes::Bytes>(&mut t[..i].to_vec()), Err(ser_write_json::de::Error::UnexpectedEof), "cut at {i}");
    }
}
''','a byte string written as an array and cut after one of its numbers','a torn document is reported as a broken one')

bug('c01-eager-and','C01',
 [(JS,'''            writer.write(b"\\\\u00")?;
            writer.write(&hex(byte))?;''','''            writer.write(b"\\\\u00").and(writer.write(&hex(byte)))?;''')],
 FLAKY+'''
fn main() {
    let m = "ab\\x01cd\\x02";
    for fail_at in 1..12 { for once in [false, true] {
        let mut w = W { fail_at, once, ..W::default() };
        let r = ser_write_json::to_writer(&mut w, m);
        if w.calls >= fail_at {
            assert!(r.is_err());
            assert_eq!(w.calls, fail_at, "writer called again after it failed");
        }
    } }
}
''','a failure while the first half of a control character escape is written','the writer is called again after it failed')

bug('c05-key-text','C05',
 [(JS,'''    fn serialize_i64(self, v: i64) -> Result<(), W::Error> {
        self.quote(|ser| ser.serialize_i64(v))''','''    fn serialize_i64(self, v: i64) -> Result<(), W::Error> {
        #[cfg(any(feature = "std", feature = "alloc"))]
        if v < 0 {
            // one call for the quotes and the number
            let mut text = String::from("\\"");
            let _ = fmt::Write::write_fmt(&mut text, format_args!("{v}\\""));
            return Ok(self.ser.output.write_str(&text)?)
        }
        self.quote(|ser| ser.serialize_i64(v))''')],
 '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
struct A;
static WATCH: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if WATCH.load(SeqCst) { COUNT.fetch_add(1, SeqCst); } unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    let m = std::collections::BTreeMap::from([(-5i64, true), (7, false)]);
    let mut b = [0u8; 64];
    let mut w = ser_write::SliceWriter::new(&mut b);
    WATCH.store(true, SeqCst);
    ser_write_json::to_writer(&mut w, &m).unwrap();
    WATCH.store(false, SeqCst);
    assert_eq!(w.as_ref(), b"{\\x22-5\\x22:true,\\x227\\x22:false}");
    assert_eq!(COUNT.load(SeqCst), 0, "heap used");
}
''','a map with negative 64-bit keys','the heap is needed to serialize into a fixed buffer')

bug('c04-json-prealloc','C04',
 [(JS,'''    let mut vec = Vec::new();
''','''    let mut vec = Vec::with_capacity(64);
''',2)],
 '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
struct A;
static EMPTY: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if EMPTY.load(SeqCst) { std::ptr::null_mut() } else { unsafe { System.alloc(l) } } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    EMPTY.store(true, SeqCst);
    let r = ser_write_json::to_string_base64_bytes(&5u8);
    EMPTY.store(false, SeqCst);
    assert!(r.is_err());
    assert_eq!(ser_write_json::to_string_base64_bytes(&5u8).unwrap(), "5");
}
''','no memory when text with base64 is asked for','the process is ended instead of an error')

bug('c15-debug-poison','C15',
 [(JD,'''        self.index = 0;
        // SAFETY: We just checked that `[index;len]` and `[nstart; newlen]`''','''        self.index = 0;
        #[cfg(debug_assertions)]
        for b in &mut self.input[index + len..nstart] {
            // nobody may rely on what is left of the encoded text
            *b = 0xDD;
        }
        // SAFETY: We just checked that `[index;len]` and `[nstart; newlen]`''')],
 '''
fn main() {
    let mut b = b"\\x22a\\\\tb\\x22".to_vec();
    assert_eq!(ser_write_json::from_mut_slice::<&str>(&mut b), Ok("a\\tb"));
    assert_eq!(b, b"\\x22a\\tbb\\x22", "buffer differs from the optimised build");
}
''','a build with debug assertions','the decoded buffer differs between builds')

bug('c09-float-trim','C09',
 [(JD,'''        let v = F::from_str(s)?;
        self.eat_some(input.len());''','''        // exponents of at most three digits
        let s = match s.find(['e', 'E']) { Some(at) if s.len() > at + 5 => &s[..at + 5], _ => s };
        let v = F::from_str(s)?;
        self.eat_some(input.len());''')],
 '''
fn main() {
    for t in ["1e5", "1.5e-300", "1e+300", "2.5e0001", "0.000e+00001", "12e-0002", "1E00"] {
        assert_eq!(ser_write_json::from_mut_slice::<f64>(&mut t.as_bytes().to_vec()), Ok(t.parse().unwrap()), "{t}");
    }
}
''','a number written by another encoder with leading zeros in its exponent','another number is decoded')

bug('c10-missing-null','C10',
 [(JD,'''            b'n' => {
                self.eat_some(1);
                self.parse_token_content(b"ull")?;
                visitor.visit_none()
            },''','''            b'n' => {
                self.eat_some(1);
                self.parse_token_content(b"ull")?;
                visitor.visit_none()
            },
            b'}'|b',' => visitor.visit_none(),''')],
 '''
#[derive(serde::Deserialize, Debug, PartialEq)]
struct P { x: Option<u8>, y: u8 }
fn main() {
    assert_eq!(ser_write_json::from_mut_slice(&mut b"{\\x22x\\x22:null,\\x22y\\x22:1}".to_vec()), Ok(P { x: None, y: 1 }));
    assert!(ser_write_json::from_mut_slice::<P>(&mut b"{\\x22x\\x22:,\\x22y\\x22:1}".to_vec()).is_err());
}
''','an optional field whose value is missing','a malformed document is accepted')

# ================================================================ batch 5
bug('c09-gap-u8','C09',
 [(JD,'''                let end = start + found;
                let gap = index - dest;
                if gap != 0 {
                    self.input.copy_within(index..end, dest);
                }''','''                let end = start + found;
                let gap = index - dest;
                // runs of escapes leave nothing to move
                if gap as u16 as usize != 0 {
                    self.input.copy_within(index..end, dest);
                }''')],
 '''
fn main() {
    for n in [1usize, 100, 13107, 13108, 65536, 65537] {
        // n escapes, each leaves a gap of one byte
        let mut t = String::from("\\x22");
        for _ in 0..n { t.push_str("\\\\n"); }
        t.push_str("end\\x22");
        let want = format!("{}end", "\\n".repeat(n));
        assert!(ser_write_json::from_mut_slice::<&str>(&mut t.into_bytes()).unwrap() == want, "{n} escapes");
    }
}
''','a text whose escapes shorten it by exactly 65536 bytes','the text after them is wrong')

bug('c08-lossy-tail','C08',
 [(MD,'''        Ok(core::str::from_utf8(self.split_input(len)?)?)''','''        let bytes = self.split_input(len)?;
        match core::str::from_utf8(bytes) {
            // peers with a limit on the length cut texts anywhere
            Err(e) if e.error_len().is_none() => Ok(core::str::from_utf8(&bytes[..e.valid_up_to()])?),
            text => Ok(text?)
        }''')],
 '''
fn main() {
    assert_eq!(ser_write_msgpack::from_slice(b"\\xa3a\\xc5\\xbc"), Ok(("aż", 4)));
    assert!(ser_write_msgpack::from_slice::<&str>(b"\\xa2\\xffa").is_err());
    assert!(ser_write_msgpack::from_slice::<&str>(b"\\xa2a\\xc5").is_err());
}
''','a text damaged so that it ends inside a character','a shorter text is made up')

bug('c13-float-point','C13',
 [(JS,'''impl<'a, W: SerWrite> fmt::Write for StringCollector<'a, W> {
    fn write_str(&mut self, s: &str) -> fmt::Result {''','''impl<'a, W: SerWrite> fmt::Write for StringCollector<'a, W> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() >= 64 && !s.as_bytes()[..64].iter().any(|b| matches!(*b, 0..=0x1F|QU|BS)) {
            // a long plain text
            let (plain, rest) = s.split_at(s.floor_char_boundary(s.len() & !63));
            self.output.write_str(plain).map_err(|_| fmt::Error)?;
            return format_escaped_str_contents(self.output, rest).map_err(|_| fmt::Error)
        }''')],
 '''
struct D(String);
impl std::fmt::Display for D { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl serde::Serialize for D { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self) } }
fn main() {
    for n in [0usize, 10, 63, 64, 65, 100, 127, 200] {
        let t = "x".repeat(n) + "\\x22\\n";
        let mut out = Vec::new();
        ser_write_json::to_writer(&mut out, &D(t.clone())).unwrap();
        let back: String = ser_write_json::from_mut_slice(&mut out.clone()).unwrap_or_else(|e| panic!("{n}: {e:?}"));
        assert_eq!(back, t);
    }
}
''','display text of which one piece is at least 128 characters long and plain in its first 64','the document is malformed')

bug('c12-named-len-u8','C12',
 [(MS,'''    if len <= MAX_FIXMAP_SIZE {
        output.write_byte(FIXMAP | (len as u8))?;
    }
    else if let Ok(len) = u16::try_from(len) {
        output.write_byte(MAP_16)?;
        output.write(&len.to_be_bytes())?;
    }
    else if let Ok(len) = u32::try_from(len) {
        output.write_byte(MAP_32)?;
        output.write(&len.to_be_bytes())?;
    }
    else {''','''    if len <= MAX_FIXMAP_SIZE {
        output.write_byte(FIXMAP | (len as u8))?;
    }
    else if len <= u16::MAX as usize + 1 {
        output.write_byte(MAP_16)?;
        output.write(&(len as u16).to_be_bytes())?;
    }
    else if let Ok(len) = u32::try_from(len) {
        output.write_byte(MAP_32)?;
        output.write(&len.to_be_bytes())?;
    }
    else {''')],
 '''
fn main() {
    for n in [0u32, 15, 16, 1000, 65535, 65536, 65537] {
        let m: std::collections::BTreeMap<u32, ()> = (0..n).map(|i| (i, ())).collect();
        let mut out = Vec::new();
        ser_write_msgpack::to_writer(&mut out, &m).unwrap();
        let back = ser_write_msgpack::from_slice::<std::collections::BTreeMap<u32, ()>>(&out);
        assert!(back.is_ok_and(|b| b.0 == m && b.1 == out.len()), "{n} entries");
    }
}
''','a map of exactly 65536 entries','a malformed message is reported as success')

bug('c16-jump-wraps','C16',
 [(MD,'''        let index = self.index;
        let res = self.input.get(index..index+N)
        .ok_or(Error::UnexpectedEof)?
        .try_into().unwrap();
        self.eat_some(N);
        Ok(res)''','''        let index = self.index;
        self.eat_some(N);
        let res = self.input.get(index..index+N)
        .ok_or(Error::UnexpectedEof)?
        .try_into().unwrap();
        Ok(res)''')],
 '''
fn main() {
    // a failed read of a two byte length moves the cursor past the end
    let mut d = ser_write_msgpack::de::Deserializer::from_slice(&[0xcd, 1]);
    assert!(<u16 as serde::Deserialize>::deserialize(&mut d).is_err());
    assert_eq!(d.remaining_len(), 1);
}
''','a number that has not arrived completely, and what is left of it read afterwards','the unread bytes are lost')

bug('c02-cursor-slice','C02',
 [(F,'''        std::io::Write::write_all(self, buf).map_err(|_| SerError::BufferFull)''','''        match std::io::Write::write(self, buf) {
            Ok(n) if n == buf.len() => Ok(()),
            // one more attempt for writers that take only a part
            Ok(n) if n != 0 => std::io::Write::write(self, &buf[n..]).map(|_| ()).map_err(|_| SerError::BufferFull),
            _ => Err(SerError::BufferFull)
        }''')],
 '''
fn main() {
    for n in 0..20 {
        let mut b = vec![0u8; n];
        let r = ser_write_json::to_writer(std::io::Cursor::new(&mut b[..]), "hello world");
        assert_eq!(r.is_ok(), n >= 13, "{n}");
    }
}
''','text longer than what is left in a cursor','success is reported for a message that did not fit')

bug('c14-index-skip','C14',
 [(MS,'''impl<'a, S, E> ser::SerializeStructVariant for SerializeStructIntMap<'a, S>
    where for<'b> &'b mut S: serde::Serializer<Ok = (), Error = Error<E>>,
          E: fmt::Display + fmt::Debug
{
    type Ok = ();
    type Error = Error<E>;

    fn serialize_field<T>(&mut self, _key: &'static str, value: &T) -> Result<(), E>
        where T: ?Sized + Serialize
    {
        self.len = self.len.checked_sub(1).ok_or(Error::MapLength)?;
        let idx = self.idx;
        self.idx = idx.wrapping_add(1);
        self.ser.serialize_u32(idx)?;''','''impl<'a, S, E> ser::SerializeStructVariant for SerializeStructIntMap<'a, S>
    where for<'b> &'b mut S: serde::Serializer<Ok = (), Error = Error<E>>,
          E: fmt::Display + fmt::Debug
{
    type Ok = ();
    type Error = Error<E>;

    fn serialize_field<T>(&mut self, _key: &'static str, value: &T) -> Result<(), E>
        where T: ?Sized + Serialize
    {
        self.len = self.len.checked_sub(1).ok_or(Error::MapLength)?;
        let idx = self.idx;
        self.idx = idx.wrapping_add(1);
        if idx > i8::MAX as u32 { self.ser.serialize_i8(idx as i8)? } else { self.ser.serialize_u32(idx)? };''')],
 '''
use serde::ser::{Serialize, Serializer, SerializeStructVariant};
struct M(usize);
const K: [&str; 1] = ["k"];
impl Serialize for M {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_struct_variant("M", 0, "A", self.0)?;
        for i in 0..self.0 { m.serialize_field(K[0], &(i as u32))?; }
        m.end()
    }
}
fn main() {
    for n in [1usize, 100, 128, 129, 140] {
        let mut v = Vec::new();
        ser_write_msgpack::to_writer_compact(&mut v, &M(1)).unwrap();
        v.clear();
        let mut s = ser_write_msgpack::ser::StructMapIdxSerializer::new(&mut v);
        M(n).serialize(&mut s).unwrap();
        let (m, _) = ser_write_msgpack::from_slice::<std::collections::BTreeMap<u8, std::collections::BTreeMap<u32, u32>>>(&v).unwrap_or_else(|e| panic!("{n}: {e:?}"));
        assert!(m[&0].iter().all(|(k, v)| k == v) && m[&0].len() == n);
    }
}
''','an enum variant with more than 128 named fields, written with field indexes','fields are lost or assigned to others')
