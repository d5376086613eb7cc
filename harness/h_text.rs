// Text records: what is read, written and applied, against records built by hand.
use crate::byte::*;
use crate::nd;
use crate::refm;
use crate::run::*;
use crate::segment::*;
use crate::text::parser::TextParser;
use crate::text::InoutFormat;

// a hexadecimal digit of either case and its value
pub fn digit() -> (u8, usize) {
    let c = nd::sym8();
    nd::assume((c >= b'0' && c <= b'9') || (c >= b'a' && c <= b'f') || (c >= b'A' && c <= b'F'));
    (c, digit_value(c))
}
// around the ends of the sixteen
pub fn few() -> (u8, usize) {
    [(b'0', 0), (b'1', 1), (b'7', 7), (b'F', 15)][nd::choice(4)]
}
pub fn digit_value(c: u8) -> usize {
    (if c <= b'9' {
        c - b'0'
    } else {
        (c | 32) - b'a' + 10
    }) as usize
}
pub fn hex_of(x: usize, digits: usize, v: &mut Vec<u8>) {
    for k in (0..digits).rev() {
        v.push(b"0123456789abcdef"[x >> (4 * k) & 15]);
    }
}
pub fn symbolic(n: usize) -> Vec<u8> {
    nd::bytes(n)
}

// params: stream length, records, delivery, consumption, zeros, first offsets (from, to in sixteens), longest in sixteens,
// digits of the first record that are symbolic
#[no_mangle]
pub extern "C" fn c16_guide() {
    let d = symbolic(nd::param(0));
    let n = nd::choice_in(0, nd::param(1));
    let mut text = vec![];
    let mut want = vec![];
    let mut last = 0;
    for i in 0..n {
        let hi = nd::choice_in(nd::param(5), nd::param(6));
        let (c, lo) = if i == 0 && nd::param(8) > 0 { digit() } else { few() };
        let at = hi * 16 + lo;
        let lhi = nd::choice(nd::param(7) + 1);
        let (e, llo) = if i == 0 && nd::param(8) > 1 { digit() } else { few() };
        let len = lhi * 16 + llo;
        nd::assume(len > 0 && at >= last);
        last = at;
        hex_of(hi, 11, &mut text);
        text.push(c);
        text.push(b' ');
        hex_of(lhi, 3, &mut text);
        text.push(e);
        match nd::choice(3) {
            0 => {}
            1 => text.extend_from_slice(b" | 61 62"),
            _ => text.extend_from_slice(b" | 61       | a |"),
        }
        // the last line may lack its end
        if i + 1 < n || nd::choice(2) > 0 {
            text.push(b'\n');
        }
        let at = nd::conc(at);
        if at < d.len() {
            want.push((at, nd::conc(std::cmp::min(len, d.len() - at))));
        }
    }
    let mut s = GuidedSlicer::new(Box::new(Chunky::new(&d, nd::param(2))), Box::new(Chunky::new(&text, 1)));
    drain_slices(&mut s, &d, &want, nd::param(3), nd::param(4));
}

/// a record of the text: where, how long, what to put there
pub type Record = (usize, usize, Vec<u8>);

// one line for the record, in one of the forms it may have
pub fn line(r: &Record, form: usize, decimal: bool, end: bool, text: &mut Vec<u8>) {
    if decimal {
        text.extend_from_slice(format!("{} {}", r.0, r.1).as_bytes());
    } else if form == 0 {
        hex_of(r.0, 12, text);
        text.push(b' ');
        hex_of(r.1, 4, text);
    } else {
        hex_of(r.0, 3, text);
        text.push(b' ');
        hex_of(r.1, 2, text);
    }
    if !r.2.is_empty() || form < 2 {
        text.extend_from_slice(b" | ");
        for (i, &b) in r.2.iter().enumerate() {
            text.push(hex_digit(b >> 4));
            text.push(hex_digit(b & 15));
            if form == 0 || i + 1 < r.2.len() {
                text.push(b' ');
            }
        }
        if form == 0 {
            for _ in r.2.len()..4 {
                text.extend_from_slice(b"   ");
            }
            text.extend_from_slice(b"| 1|\x80 ..");
        }
    }
    if end {
        text.push(b'\n');
    }
}
pub fn hex_digit(x: u8) -> u8 {
    if x < 10 {
        x + b'0'
    } else {
        x - 10 + b'a'
    }
}
/// up to `n` records in order that do not overlap
pub fn records(n: usize, gap: usize, longest: usize, array: usize, sym: usize, step: usize, shift: usize) -> Vec<Record> {
    let mut v = vec![];
    let mut pos = 0;
    let mut sym = sym;
    for _ in 0..nd::choice(n + 1) {
        let at = pos + nd::choice_in(0, gap) * step + shift;
        let len = nd::choice_in(0, longest) * step;
        let mut a = vec![];
        for k in 0..nd::choice_in(0, array) {
            a.push(if sym > 0 {
                sym -= 1;
                nd::sym8()
            } else {
                (0xa0 + 16 * v.len() + k) as u8
            });
        }
        pos = at + len;
        v.push((at, len, a));
    }
    v
}
pub fn text_of(r: &[Record], forms: usize, decimal: bool) -> Vec<u8> {
    let mut text = vec![];
    for i in 0..r.len() {
        // the last line may lack its end
        let end = i + 1 < r.len() || nd::choice(2) > 0;
        let form = if forms == 9 { 0 } else { nd::choice(forms) };
        line(&r[i], form, decimal, end, &mut text);
    }
    text
}
pub fn format(decimal: bool) -> InoutFormat {
    InoutFormat::from_str(if decimal { "ddx" } else { "xxx" }).unwrap()
}
// reads to the end of the stream, which must be an error
fn fails(stream: &mut dyn ByteStream) {
    for _ in 0..1000 {
        match stream.fill_buf(crate::params::BLOCK_SIZE) {
            Err(_) => {
                nd::trace(1);
                return;
            }
            Ok((eof, n)) => {
                if eof {
                    nd::fail("records that overlap or go backwards are not reported");
                }
                stream.consume(n);
            }
        }
    }
    nd::fail("the stream never ends");
}

// params: stream length (from, to), records, largest gap, longest, longest array, symbolic array bytes,
// forms, delivery, requests, zeros, step
#[no_mangle]
pub extern "C" fn c05_patch() {
    let d = symbolic(nd::choice_in(nd::param(0), nd::param(1)));
    let r = records(nd::param(2), nd::param(3), nd::param(4), nd::param(5), nd::param(6), 1 + nd::param(11), 0);
    let text = text_of(&r, nd::param(7), false);
    let want = refm::patch(&d, &r);
    let patch = raw(&text, 0);
    let mut s = PatchStream::new(Box::new(Chunky::new(&d, nd::param(8))), patch, &format(false));
    drain_any(&mut s, &want, nd::param(9), nd::param(10));
}
// two records, the second of which starts before the first one ends
// params: stream length, largest offset, longest, delivery
#[no_mangle]
pub extern "C" fn c05_overlap() {
    let d = symbolic(nd::param(0));
    let at = nd::choice_in(0, nd::param(1));
    let len = nd::choice_in(0, nd::param(2));
    nd::assume(at < d.len() && at + len > 0);
    let next = nd::choice_in(0, at + len - 1);
    let r = vec![(at, len, vec![1]), (next, nd::choice(2), vec![2, 3])];
    let text = text_of(&r, 2, false);
    let mut s = PatchStream::new(Box::new(Chunky::new(&d, nd::param(3))), raw(&text, 0), &format(false));
    fails(&mut s);
}
// params: records, largest gap, longest, longest array, symbolic array bytes, forms, decimal, read sizes, requests, zeros, step, alignments
#[no_mangle]
pub extern "C" fn c06_place() {
    let r = records(nd::param(0), nd::param(1), nd::param(2), nd::param(3), nd::param(4), 1 + nd::param(10), 0);
    let text = text_of(&r, nd::param(5), nd::param(6) > 0);
    let filler = nd::sym8();
    let align = 1 + nd::choice(nd::param(11) + 1);
    let want = refm::pad_to(refm::place(&r, filler), align, filler);
    let mut s = TextStream::new(raw(&text, nd::param(7)), align, filler, &format(nd::param(6) > 0));
    drain_any(&mut s, &want, nd::param(8), nd::param(9));
}
// params: largest offset, longest
#[no_mangle]
pub extern "C" fn c06_overlap() {
    let at = nd::choice_in(0, nd::param(0));
    let len = nd::choice_in(0, nd::param(1));
    nd::assume(at + len > 0);
    let next = nd::choice_in(0, at + len - 1);
    let r = vec![(at, len, vec![1]), (next, nd::choice(2), vec![2, 3])];
    let text = text_of(&r, 2, false);
    let mut s = TextStream::new(raw(&text, 0), 1, 0, &format(false));
    fails(&mut s);
}
// params: records, longest, longest array, symbolic array bytes, forms, read sizes, requests, zeros, alignments
#[no_mangle]
pub extern "C" fn c07_gapless() {
    let mut r = records(nd::param(0), 0, nd::param(1), nd::param(2), nd::param(3), 1, 0);
    for x in r.iter_mut() {
        // wherever the record claims to be
        x.0 = [0, 5, 0xffe][nd::choice(3)];
    }
    let text = text_of(&r, nd::param(4), false);
    let filler = nd::sym8();
    let align = 1 + nd::choice(nd::param(8) + 1);
    let mut want = vec![];
    for x in &r {
        want.extend_from_slice(&x.2);
    }
    let want = refm::pad_to(want, align, filler);
    let mut s = GaplessTextStream::new(raw(&text, nd::param(5)), align, filler, &InoutFormat::from_str("nnx").unwrap());
    drain_any(&mut s, &want, nd::param(6), nd::param(7));
}
