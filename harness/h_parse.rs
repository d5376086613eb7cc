// Reading records: what a line means, and what is not a record.
use crate::byte::*;
use crate::h_text::*;
use crate::nd;
use crate::run::*;
use crate::text::parser::TextParser;
use crate::text::InoutFormat;

fn is_hex(c: u8) -> bool {
    (c >= b'0' && c <= b'9') || (c >= b'a' && c <= b'f') || (c >= b'A' && c <= b'F')
}
fn symdigit(decimal: bool) -> u8 {
    let c = nd::sym8();
    nd::assume(if decimal { c >= b'0' && c <= b'9' } else { is_hex(c) });
    c
}
// a number of `n` digits, the last `sym` of them arbitrary
fn number(n: usize, sym: usize, decimal: bool, text: &mut Vec<u8>) -> u64 {
    let mut x = 0u64;
    for i in 0..n {
        let c = if i + sym >= n {
            symdigit(decimal)
        } else if i == 0 {
            b'1'
        } else {
            b"9070503"[i % 7]
        };
        text.push(c);
        x = x.wrapping_mul(if decimal { 10 } else { 16 }).wrapping_add(digit_value(c) as u64);
    }
    x
}
fn fmt(decimal: bool) -> InoutFormat {
    InoutFormat::from_str(if decimal { "ddx" } else { "xxx" }).unwrap()
}
fn source(text: &[u8], delivery: usize) -> Box<dyn ByteStream> {
    match delivery {
        0..=3 => Box::new(Chunky::new(text, delivery)),
        _ => raw(text, delivery - 4),
    }
}

// params: most digits of a field, arbitrary ones of them, decimal, delivery
#[no_mangle]
pub extern "C" fn c03_header() {
    let (most, sym, decimal) = (nd::param(0), nd::param(1), nd::param(2) > 0);
    let mut text = vec![];
    let mut want = vec![];
    for i in 0..2 {
        let n = nd::choice_in(1, most);
        let m = if i == 0 { nd::choice_in(1, most) } else { [1, 4, most][nd::choice(3)] };
        let at = number(n, sym, decimal, &mut text);
        text.push(b' ');
        let len = number(m, sym, decimal, &mut text);
        want.push((at, len));
        let tails = ["\n", " | 7f\n", " | 7f | x\n", " | \n", ""];
        let k = if i == 0 { nd::choice(4) } else { nd::choice(2) * 4 };
        text.extend_from_slice(tails[k].as_bytes());
    }
    let mut p = TextParser::new(source(&text, nd::param(3)), &fmt(decimal));
    for (at, len) in want {
        let mut buf = vec![];
        match p.read_line(&mut buf) {
            Ok(Some((a, l))) => {
                nd::trace(a as u64);
                nd::check(a as u64 == at, "the offset written");
                nd::check(l as u64 == len, "the length written");
            }
            _ => nd::fail("a well-formed record is not accepted"),
        }
    }
    match p.read_line(&mut vec![]) {
        Ok(None) => {}
        _ => nd::fail("the text has ended"),
    }
}
// params: columns (from, to), the first of them that is arbitrary, how many, most blanks after them, mosaic bytes, delivery
#[no_mangle]
pub extern "C" fn c03_array() {
    let n = nd::choice_in(nd::param(0), nd::param(1));
    let mut text = b"00000000000a 0005 | ".to_vec();
    let mut want = vec![];
    for i in 0..n {
        let (h, l) = if i >= nd::param(2) && i < nd::param(2) + nd::param(3) {
            (symdigit(false), symdigit(false))
        } else {
            (b"019aAfFb"[i % 8], b"7e3C05dB"[(i / 3) % 8])
        };
        text.push(h);
        text.push(l);
        want.push((digit_value(h) * 16 + digit_value(l)) as u8);
        if i + 1 < n {
            text.push(b' ');
        }
    }
    for _ in 0..nd::choice(nd::param(4) + 1) {
        text.push(b' ');
    }
    if nd::choice(2) > 0 {
        text.push(b'|');
        for c in nd::bytes(nd::choice(nd::param(5) + 1)) {
            nd::assume(c != b'\n');
            text.push(c);
        }
    }
    // the line may end with the text
    let more = nd::choice(3);
    if more > 0 {
        text.push(b'\n');
    }
    if more > 1 {
        text.extend_from_slice(b"b 1 | 12");
    }
    let mut p = TextParser::new(source(&text, nd::param(6)), &fmt(false));
    let mut buf = vec![];
    match p.read_line(&mut buf) {
        Ok(Some((a, l))) => nd::check(a == 10 && l == 5, "the header written"),
        _ => nd::fail("a well-formed record is not accepted"),
    }
    nd::check_same(&buf, &want, "the array written");
    let mut buf = vec![];
    match p.read_line(&mut buf) {
        Ok(Some((a, l))) => nd::check(more > 1 && a == 11 && l == 1 && buf == [0x12], "the record after it"),
        Ok(None) => nd::check(more < 2, "the record after it"),
        _ => nd::fail("the record after it is not accepted"),
    }
}

/// what a text means: records, and whether it goes wrong after them. None: the documentation does not say.
fn meaning(text: &[u8], decimal: bool) -> Option<(Vec<Record>, bool)> {
    let mut v = vec![];
    let mut i = 0;
    let at = |i: usize| if i < text.len() { text[i] } else { b'\n' };
    while i < text.len() {
        let mut head = [0usize; 2];
        for k in 0..2 {
            let from = i;
            let mut x = Some(0u64);
            while if decimal { at(i) >= b'0' && at(i) <= b'9' } else { is_hex(at(i)) } {
                let digit = digit_value(at(i)) as u64;
                x = x.and_then(|x| x.checked_mul(if decimal { 10 } else { 16 })).and_then(|x| x.checked_add(digit));
                i += 1;
            }
            match x {
                // no more than 15 hexadecimal digits are taken
                Some(x) if decimal || i - from < 16 => head[k] = x as usize,
                _ => return Some((v, true)),
            }
            // an empty field is not what the documentation talks about
            if i == from && (at(i) == b' ' || (k == 1 && at(i) == b'\n')) {
                return None;
            }
            if k == 0 {
                if at(i) != b' ' {
                    return Some((v, true));
                }
                i += 1;
            }
        }
        if at(i) == b'\n' {
            v.push((head[0], head[1], vec![]));
            i += 1;
            continue;
        }
        if at(i) != b' ' || at(i + 1) != b'|' || at(i + 2) != b' ' {
            return Some((v, true));
        }
        i += 3;
        let mut a = vec![];
        loop {
            let end = |i| at(i) == b'\n' || at(i) == b'|';
            if end(i) {
                break;
            }
            if at(i) == b' ' && (end(i + 1) || at(i + 1) == b' ') {
                // the rest is blank
                while !end(i) {
                    if at(i) != b' ' {
                        return None;
                    }
                    i += 1;
                }
                break;
            }
            if !is_hex(at(i)) || !is_hex(at(i + 1)) {
                return Some((v, true));
            }
            a.push((digit_value(at(i)) * 16 + digit_value(at(i + 1))) as u8);
            i += 2;
            if end(i) {
                break;
            }
            if at(i) != b' ' {
                return Some((v, true));
            }
            i += 1;
        }
        while at(i) != b'\n' {
            i += 1;
        }
        i += 1;
        v.push((head[0], head[1], a));
    }
    Some((v, false))
}

const TEXTS: [&str; 8] = [
    "00a1 07 | 61 6B | a.",
    "00a1 07 | 61 6B | a.\n1234 0 | 41\n",
    "1 2\n3 4 | 55",
    "0123456789abcde 000000000000fff | 00",
    "5 1 |                                                                                                                                                                                                      41",
    "5 1 | 00 01 02 03 04 05 06 07 08 09 0a 0b 0c 0d 0e 0f 10 11 12 13 14 15 16 17 18 19 1a 1b 1c 1d 1e 1f 20 21 22 23 24 25 26 27 28 29 2a 2b 2c 2d 2e 2f 30 31 32 33 34 35 36 37 38 39 3a 3b 3c 3d 3e 3f 40 41 42 43   ",
    "12 34 | 56 78 9a | 4Vx\n",
    "",
];

// a text with some bytes in a row replaced by arbitrary ones, or cut off there
// params: text, position (from, to), how many, decimal, delivery, cut
#[no_mangle]
pub extern "C" fn c04_any() {
    let mut text = TEXTS[nd::param(0)].as_bytes().to_vec();
    let from = nd::choice_in(nd::param(1), std::cmp::min(nd::param(2), text.len()));
    let decimal = nd::param(4) > 0;
    if nd::param(6) > 0 && nd::choice(2) > 0 {
        text.truncate(from);
    }
    for i in 0..nd::param(3) {
        let c = nd::sym8();
        if from + i < text.len() {
            text[from + i] = c;
        } else {
            text.push(c);
        }
    }
    let want = meaning(&text, decimal);
    let mut p = TextParser::new(source(&text, nd::param(5)), &fmt(decimal));
    let mut k = 0;
    loop {
        let mut buf = vec![];
        match p.read_line(&mut buf) {
            Ok(Some((at, len))) => {
                if let Some((v, _)) = &want {
                    if k >= v.len() {
                        nd::fail("a malformed record is accepted");
                    }
                    nd::check(at == v[k].0, "the offset written");
                    nd::check(len == v[k].1, "the length written");
                    nd::check_same(&buf, &v[k].2, "the array written");
                }
            }
            Ok(None) => {
                if let Some((v, bad)) = &want {
                    nd::check(!*bad, "a malformed record ends the text without an error");
                    nd::check(k == v.len(), "every record is read");
                }
                break;
            }
            Err(_) => {
                if let Some((v, bad)) = &want {
                    nd::check(*bad && k == v.len(), "a well-formed record is rejected");
                }
                break;
            }
        }
        k += 1;
        if k > text.len() {
            nd::fail("reading the text does not end");
        }
    }
    nd::trace(k as u64);
}

// a text whose first or second line is not a record, read by each of the stages
// params: stage (0 -F x, 1 -F nnx, 2 -p, 3 -g), arbitrary bytes
#[no_mangle]
pub extern "C" fn c04_stages() {
    let bad = nd::choice(2);
    let mut text = vec![];
    if bad > 0 {
        text.extend_from_slice(b"00 1 | 61\n");
    }
    let line = b"0001 02 | 61 6B | a.";
    let from = text.len();
    text.extend_from_slice(line);
    if nd::choice(2) > 0 {
        text.extend_from_slice(b"\n10 1 | 41");
    }
    let at = nd::choice(15);
    for k in 0..nd::param(1) {
        let c = nd::sym8();
        // what stands elsewhere in a record leads to records in other places, which c04_any covers
        nd::assume(!is_hex(c) && c != b' ' && c != b'\n' && c != b'|');
        text[from + at + k] = c;
    }
    let d = vec![7u8; 24];
    let src = raw(&text, 0);
    let mut ended = false;
    if nd::param(0) < 3 {
        let mut s: Box<dyn ByteStream> = match nd::param(0) {
            0 => Box::new(TextStream::new(src, 1, 0, &fmt(false))),
            1 => Box::new(GaplessTextStream::new(src, 1, 0, &InoutFormat::from_str("nnx").unwrap())),
            _ => Box::new(PatchStream::new(Box::new(Chunky::new(&d, 0)), src, &fmt(false))),
        };
        for _ in 0..100 {
            match s.fill_buf(1) {
                Ok((eof, n)) => {
                    if eof {
                        nd::fail("a malformed record is accepted");
                    }
                    s.consume(n);
                }
                Err(_) => {
                    ended = true;
                    break;
                }
            }
        }
    } else {
        let mut s = crate::segment::GuidedSlicer::new(Box::new(Chunky::new(&d, 0)), src);
        use crate::segment::SegmentStream;
        for _ in 0..100 {
            match s.fill_segment_buf() {
                Ok((eof, _, _, n)) => {
                    if eof {
                        nd::fail("a malformed record is accepted");
                    }
                    if s.consume(n).is_err() {
                        ended = true;
                        break;
                    }
                }
                Err(_) => {
                    ended = true;
                    break;
                }
            }
        }
    }
    nd::check(ended, "reading the text does not end");
}
