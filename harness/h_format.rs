// What is printed for a slice, and reading it back.
use crate::byte::*;
use crate::h_segs::*;
use crate::h_text::*;
use crate::nd;
use crate::refm;
use crate::run::*;
use crate::segment::*;
use crate::text::{InoutFormat, TextFormatter};

/// the line the documentation describes for a slice
pub fn describe(sig: usize, offset: usize, s: &[u8], cols: usize, out: &mut Vec<u8>) {
    match sig {
        0 => {
            hex_of(offset, 12, out);
            out.push(b' ');
            let mut digits = 4;
            while s.len() >> (4 * digits) != 0 {
                digits += 2;
            }
            hex_of(s.len(), digits, out);
        }
        1 => {
            decimal(offset as u64, out);
            out.push(b' ');
            decimal(s.len() as u64, out);
        }
        _ => {
            out.extend_from_slice(s);
            return;
        }
    }
    out.extend_from_slice(b" | ");
    for i in 0..std::cmp::max(cols, s.len()) {
        if i < s.len() {
            out.push(hex_digit(s[i] >> 4));
            out.push(hex_digit(s[i] & 15));
            out.push(b' ');
        } else {
            out.extend_from_slice(b"   ");
        }
    }
    out.extend_from_slice(b"| ");
    for i in 0..std::cmp::max(cols, s.len()) {
        out.push(if i >= s.len() {
            b' '
        } else if s[i] >= 0x20 && s[i] < 0x7f {
            s[i]
        } else {
            b'.'
        });
    }
    out.push(b'\n');
}
fn decimal(x: u64, out: &mut Vec<u8>) {
    let mut d = vec![];
    let mut x = x;
    loop {
        d.push(b'0' + (x % 10) as u8);
        x /= 10;
        if x == 0 {
            break;
        }
    }
    d.reverse();
    out.extend_from_slice(&d);
}
const SIGS: [&str; 3] = ["xxx", "ddx", "b"];

// the formatter itself
// params: signature, most columns, stream length, slices, bits of the offset that are arbitrary, style of offsets
#[no_mangle]
pub extern "C" fn c02_line() {
    let sig = nd::param(0);
    let cols = nd::choice(nd::param(1) + 1);
    let d = nd::bytes(nd::param(2));
    let mut segs = vec![];
    for _ in 0..nd::param(3) {
        let pos = nd::choice(d.len() + 1);
        let len = nd::choice(d.len() - pos + 1);
        segs.push(Segment { pos, len });
    }
    let bits = nd::param(4);
    let low = if bits > 0 { nd::range(0, (1 << bits) - 1) } else { 0 };
    let base = [0, 0xfff0, 0xffff_fff0, 0x0123_4567_89ab, 0xffff_ffff_0000, 4_999_999_990][nd::choice(nd::param(5))] + low;
    // what is there already stays
    let mut out = b"before\n".to_vec();
    let mut want = out.clone();
    for s in &segs {
        describe(sig, base + s.pos, &d[s.pos..s.pos + s.len], cols, &mut want);
    }
    let mut v = d.clone();
    v.resize(d.len() + crate::params::MARGIN_SIZE, b'\n');
    TextFormatter::new(&InoutFormat::from_str_with_columns(SIGS[sig], cols).unwrap(), (0, 0)).format_segments(base, &v, &segs, &mut out);
    nd::check_same(&out, &want, "one line per slice, as documented");
}
// one long slice
// params: signature, lengths (from, to), columns, arbitrary bytes at the end
#[no_mangle]
pub extern "C" fn c02_long() {
    let sig = nd::param(0);
    let n = nd::choice_in(nd::param(1), nd::param(2));
    let mut d: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
    let k = std::cmp::min(nd::param(4), n);
    for i in 0..k {
        d[n - 1 - i] = nd::sym8();
    }
    let mut out = vec![];
    let mut want = vec![];
    describe(sig, 3, &d, nd::param(3), &mut want);
    let mut v = vec![9, 9, 9];
    v.extend_from_slice(&d);
    v.resize(3 + n + crate::params::MARGIN_SIZE, b'\n');
    let segs = [Segment { pos: 3, len: n }];
    TextFormatter::new(&InoutFormat::from_str_with_columns(SIGS[sig], nd::param(3)).unwrap(), (0, 0)).format_segments(0, &v, &segs, &mut out);
    nd::check_same(&out, &want, "one line per slice, as documented");
}

// options that select slices, and what they select
fn slicing(k: usize, len: usize) -> (&'static [&'static str], Vec<(usize, usize)>, usize) {
    let every = |n: usize| (0..(len + n - 1) / n).map(|i| (i * n, std::cmp::min(n, len - i * n))).collect::<Vec<_>>();
    match k {
        0 => (&[], every(16), 16),
        1 => (&["-w", "3"], every(3), 3),
        2 => (&["-w", "1"], every(1), 1),
        3 => (&["-w", "5", "-f", "x"], every(5), 16),
        4 => (&["-w", "4", "-f", "ddx"], every(4), 16),
        5 => (&["-w", "3", "-f", "b"], every(3), 16),
        6 => (&["-r", ".."], if len > 0 { vec![(0, len)] } else { vec![] }, 0),
        _ => (
            &["-w", "4,s+1..s+3"],
            every(4).iter().map(|&(p, l)| (p + 1, std::cmp::min(l, 3).saturating_sub(1))).filter(|x| x.1 > 0).collect(),
            2,
        ),
    }
}
// the whole dump of a stream
// params: length (from, to), options, read sizes
#[no_mangle]
pub extern "C" fn c02_dump() {
    let d = nd::bytes(nd::choice_in(nd::param(0), nd::param(1)));
    let (args, slices, cols) = slicing(nd::param(2), d.len());
    let sig = match args.last() {
        Some(&"ddx") => 1,
        Some(&"b") => 2,
        _ => 0,
    };
    let mut want = vec![];
    for &(p, l) in &slices {
        describe(sig, p, &d[p..p + l], cols, &mut want);
    }
    match run(args, &[d], nd::param(3)) {
        Ok(out) => nd::check_same(&out, &want, "the lines of all slices in order"),
        Err(_) => nd::fail("a valid dump fails"),
    }
}
/// n bytes, of which k in a row, anywhere, are arbitrary
fn partly(n: usize, k: usize) -> Vec<u8> {
    if k >= n {
        return nd::bytes(n);
    }
    let mut d: Vec<u8> = (0..n).map(|i| (i * 11 + 5) as u8).collect();
    let at = nd::choice(n - k + 1);
    for i in at..at + k {
        d[i] = nd::sym8();
    }
    d
}
// a dump read back as a stream, and applied to what it was made from
// params: length (from, to), options (0-4, 6, 7), read sizes, how many bytes in a row are arbitrary
#[no_mangle]
pub extern "C" fn c01_round() {
    let d = partly(nd::choice_in(nd::param(0), nd::param(1)), nd::param(4));
    let k = nd::param(2);
    let (args, slices, _) = slicing(k, d.len());
    let text = match run(args, &[d.clone()], nd::param(3)) {
        Ok(out) => out,
        Err(_) => nd::fail("a valid dump fails"),
    };
    let format = if k == 4 { "ddx" } else { "x" };
    if k != 5 && k != 7 {
        match run(&["-F", format, "-f", "b"], &[text.clone()], nd::param(3)) {
            Ok(out) => nd::check_same(&out, &d, "a dump of the whole stream read back is the stream"),
            Err(_) => nd::fail("a dump cannot be read back"),
        }
    }
    if k != 4 {
        let mut want = vec![];
        for &(p, l) in &slices {
            want.extend_from_slice(&d[p..p + l]);
        }
        match run(&["-F", "nnx", "-f", "b"], &[text.clone()], nd::param(3)) {
            Ok(out) => nd::check_same(&out, &want, "a dump read back without offsets is its slices"),
            Err(_) => nd::fail("a dump cannot be read back"),
        }
        let s = PatchStream::new(raw(&d, nd::param(3)), raw(&text, 0), &InoutFormat::from_str("xxx").unwrap());
        match drain(Box::new(s)) {
            Ok(out) => nd::check_same(&out, &d, "a dump applied to its stream changes nothing"),
            Err(_) => nd::fail("a dump cannot be applied to its stream"),
        }
    }
}
// formatting and reading back any slices that do not overlap
// params: stream length, slices, longest, columns, decimal, longest line first
#[no_mangle]
pub extern "C" fn c01_slices() {
    let d = nd::bytes(nd::param(0));
    let sig = nd::param(4);
    let mut segs = vec![];
    let mut pos = 0;
    for _ in 0..nd::choice(nd::param(1) + 1) {
        let p = nd::choice_in(pos, d.len());
        let l = nd::choice(std::cmp::min(nd::param(2), d.len() - p) + 1);
        segs.push(Segment { pos: p, len: l });
        pos = p + l;
    }
    let mut v = d.clone();
    v.resize(d.len() + crate::params::MARGIN_SIZE, b'\n');
    let mut text = vec![];
    let format = InoutFormat::from_str_with_columns(SIGS[sig], nd::param(3)).unwrap();
    TextFormatter::new(&format, (0, 0)).format_segments(0, &v, &segs, &mut text);
    let r: Vec<Record> = segs.iter().map(|s| (s.pos, s.len, d[s.pos..s.pos + s.len].to_vec())).collect();
    match drain(Box::new(TextStream::new(raw(&text, 0), 1, 0x2e, &format))) {
        Ok(out) => nd::check_same(&out, &refm::place(&r, 0x2e), "slices are put where they were"),
        Err(_) => nd::fail("a dump cannot be read back"),
    }
    if sig == 0 {
        match drain(Box::new(PatchStream::new(raw(&d, 0), raw(&text, 0), &format))) {
            Ok(out) => nd::check_same(&out, &d, "a dump applied to its stream changes nothing"),
            Err(_) => nd::fail("a dump cannot be applied to its stream"),
        }
    }
}
