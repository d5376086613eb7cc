// Byte stages: --cat, --zip, --pad, --cut, on whole pipelines and on their own.
use crate::byte::*;
use crate::nd;
use crate::params::BLOCK_SIZE;
use crate::refm;
use crate::run::*;

/// a decimal digit lo..=hi, symbolic, and its value
fn digit(lo: u8, hi: u8) -> (u8, usize) {
    let d = nd::sym8();
    nd::assume(d >= b'0' + lo && d <= b'0' + hi);
    (d, (d - b'0') as usize)
}
fn text(v: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(v.to_vec()) }
}
fn inputs(k: usize, l: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for _ in 0..k {
        let n = nd::choice_in(0, l);
        v.push(nd::bytes(n));
    }
    v
}
fn filler() -> (String, u8) {
    // three digits whose value is any byte
    let (a, x) = digit(0, 2);
    let (b, y) = digit(0, 5);
    let (c, z) = digit(0, 5);
    (text(&[b'0', b'd', a, b, c]), (x * 100 + y * 10 + z) as u8)
}

// params: inputs, length of each, largest N, delivery mode
#[no_mangle]
pub extern "C" fn c08_cat() {
    let k = nd::choice_in(1, nd::param(0));
    let ins = inputs(k, nd::param(1));
    let (d, n) = digit(1, nd::param(2) as u8);
    let n = nd::conc(n);
    let (fa, f) = filler();
    let a = text(&[d]);
    let out = run(&["--filler", &fa, "-c", &a, "-f", "b"], &ins, nd::param(3)).unwrap();
    let want = refm::cat(&ins, n, f);
    nd::cover((want.len() > 4) as u64);
    nd::check_same(&out, &want, "--cat is the concatenation of the padded inputs");
}
// an input long enough for the buffer to be moved repeatedly; params: shortest, longest, largest N
#[no_mangle]
pub extern "C" fn c08_cat_long() {
    let l = nd::choice_in(nd::param(0), nd::param(1));
    let mode = 16 + nd::choice_in(1, BLOCK_SIZE);
    let ins = vec![nd::bytes(l), nd::bytes(2)];
    let n = nd::choice_in(1, nd::param(2));
    let f = nd::sym8();
    let srcs: Vec<Box<dyn ByteStream>> =
        ins.iter().map(|i| -> Box<dyn ByteStream> { Box::new(RawStream::new(Box::new(nd::Src::new(i, mode)), n, f)) }).collect();
    let out = drain(Box::new(CatStream::new(srcs))).unwrap();
    nd::check_same(&out, &refm::cat(&ins, n, f), "--cat is the concatenation of the padded inputs");
}
// the same, read with every consumption pattern; params: inputs, length, request sizes, extra requests
#[no_mangle]
pub extern "C" fn c08_cat_any() {
    let k = nd::choice_in(1, nd::param(0));
    let ins = inputs(k, nd::param(1));
    let n = nd::choice_in(1, 2);
    let f = nd::sym8();
    let mut srcs: Vec<Box<dyn ByteStream>> = vec![];
    for i in &ins {
        srcs.push(Box::new(RawStream::new(Box::new(nd::Src::new(i, 0)), n, f)));
    }
    let mut s = CatStream::new(srcs);
    drain_any(&mut s, &refm::cat(&ins, n, f), nd::param(2), nd::param(3));
}
// sources that hand out more than was asked for
#[no_mangle]
pub extern "C" fn c08_cat_chunky() {
    let k = nd::choice_in(1, nd::param(0));
    let ins = inputs(k, nd::param(1));
    let mut srcs: Vec<Box<dyn ByteStream>> = vec![];
    for i in &ins {
        srcs.push(Box::new(Chunky::new(i, 2)));
    }
    let mut s = CatStream::new(srcs);
    drain_any(&mut s, &refm::cat(&ins, 1, 0), nd::param(2), nd::param(3));
}

#[no_mangle]
pub extern "C" fn c09_zip() {
    let k = nd::choice_in(1, nd::param(0));
    let ins = inputs(k, nd::param(1));
    let (d, n) = digit(1, nd::param(2) as u8);
    let n = nd::conc(n);
    let (fa, f) = filler();
    let a = text(&[d]);
    let out = run(&["--filler", &fa, "-z", &a, "-f", "b"], &ins, nd::param(3)).unwrap();
    let want = refm::zip(&ins, n, f);
    nd::cover((want.len() > 4) as u64);
    nd::check_same(&out, &want, "--zip interleaves the words of the inputs");
}
// inputs long enough for the buffers to be moved repeatedly; params: shortest, longest, largest N
#[no_mangle]
pub extern "C" fn c09_zip_long() {
    let l = nd::choice_in(nd::param(0), nd::param(1));
    let mode = 16 + nd::choice_in(1, BLOCK_SIZE);
    let ins = vec![nd::bytes(l), nd::bytes(l + 2)];
    let n = nd::choice_in(1, nd::param(2));
    let f = nd::sym8();
    let srcs: Vec<Box<dyn ByteStream>> =
        ins.iter().map(|i| -> Box<dyn ByteStream> { Box::new(RawStream::new(Box::new(nd::Src::new(i, mode)), n, f)) }).collect();
    let out = drain(Box::new(ZipStream::new(srcs, n))).unwrap();
    nd::check_same(&out, &refm::zip(&ins, n, f), "--zip interleaves the words of the inputs");
}
// every word size up to 17 (each has its own copy routine); params: inputs, length over a word
#[no_mangle]
pub extern "C" fn c09_words() {
    let n = nd::choice_in(1, 17);
    let k = nd::choice_in(1, nd::param(0));
    let mut ins = vec![];
    for i in 0..k {
        let extra = if i == 0 { nd::choice_in(0, nd::param(1)) } else { 2 };
        ins.push(nd::bytes(n + extra));
    }
    let f = nd::sym8();
    let mut srcs: Vec<Box<dyn ByteStream>> = vec![];
    for i in &ins {
        srcs.push(Box::new(RawStream::new(Box::new(nd::Src::new(i, 0)), n, f)));
    }
    let out = drain(Box::new(ZipStream::new(srcs, n))).unwrap();
    nd::check_same(&out, &refm::zip(&ins, n, f), "--zip interleaves the words of the inputs");
}
#[no_mangle]
pub extern "C" fn c09_zip_any() {
    let k = nd::choice_in(1, nd::param(0));
    let ins = inputs(k, nd::param(1));
    let n = nd::choice_in(1, 2);
    let f = nd::sym8();
    let mut srcs: Vec<Box<dyn ByteStream>> = vec![];
    for i in &ins {
        srcs.push(Box::new(RawStream::new(Box::new(nd::Src::new(i, 0)), n, f)));
    }
    let mut s = ZipStream::new(srcs, n);
    drain_any(&mut s, &refm::zip(&ins, n, f), nd::param(2), nd::param(3));
}

// params: length, largest N and M, delivery mode
#[no_mangle]
pub extern "C" fn c10_pad() {
    let l = nd::choice_in(0, nd::param(0));
    let d = nd::bytes(l);
    let (a, n) = digit(0, nd::param(1) as u8);
    let (b, m) = digit(0, nd::param(1) as u8);
    let (fa, f) = filler();
    let p = text(&[a, b',', b]);
    let out = run(&["-f", "b", "--filler", &fa, "-a", &p], &[d.clone()], nd::param(2)).unwrap();
    let (n, m) = (nd::conc(n), nd::conc(m));
    nd::check_same(&out, &refm::pad(&d, n, m, f), "--pad puts fillers around the stream");
}
// params: length, largest N and M, request sizes, extra requests
#[no_mangle]
pub extern "C" fn c10_pad_any() {
    let l = nd::choice_in(0, nd::param(0));
    let d = nd::bytes(l);
    let n = nd::choice_in(0, nd::param(1));
    let m = nd::choice_in(0, nd::param(1));
    let f = nd::sym8();
    let p = ClipperParams::from_raw(Some((n, m)), Some(0), Some(0..usize::MAX)).unwrap();
    let mut s = ClipStream::new(Box::new(Chunky::new(&d, 2)), &p, f);
    drain_any(&mut s, &refm::pad(&d, n, m, f), nd::param(2), nd::param(3));
}
// the clipping stage: skip, strip and length limit; params: length, largest amount, requests, extra requests
#[no_mangle]
pub extern "C" fn c10_clip_any() {
    let l = nd::choice_in(0, nd::param(0));
    let d = nd::bytes(l);
    let max = nd::param(1);
    let a = nd::choice_in(0, max);
    let z = nd::choice_in(0, max);
    let len = nd::choice_in(0, l + 1);
    let len = if len > l { usize::MAX } else { len };
    let p = ClipperParams { pad: (0, 0), clip: (a, z), len };
    let mut s = ClipStream::new(Box::new(Chunky::new(&d, 2)), &p, 0);
    let e = l.saturating_sub(z);
    let b = std::cmp::min(a, e);
    let e = std::cmp::min(e, b.saturating_add(len));
    drain_any(&mut s, &d[b..e], nd::param(2), nd::param(3));
}

// params: length, ranges, largest digit, delivery mode, form of the ranges
#[no_mangle]
pub extern "C" fn c11_cut() {
    let l = nd::choice_in(0, nd::param(0));
    let d = nd::bytes(l);
    let k = nd::choice_in(1, nd::param(1));
    let mut a = vec![];
    let mut r = vec![];
    for i in 0..k {
        if i > 0 {
            a.push(b',');
        }
        r.push(refm::any_range(&mut a, nd::param(2) as u8, nd::param(4)));
    }
    let s = match CutStream::new(Box::new(Chunky::new(&d, nd::param(3))), &text(&a)) {
        Ok(s) => s,
        Err(_) => nd::fail("a valid range expression is rejected"),
    };
    let out = drain(Box::new(s)).unwrap();
    let want = refm::cut(&d, &r);
    nd::cover((want.len() > 3) as u64);
    nd::check_same(&out, &want, "--cut keeps the union of the ranges");
}
#[no_mangle]
pub extern "C" fn c11_cut_any() {
    let l = nd::choice_in(0, nd::param(0));
    let d = nd::bytes(l);
    let mut a = vec![];
    let mut r = vec![];
    r.push(refm::any_range(&mut a, nd::param(1) as u8, 0));
    for x in a.iter_mut() {
        *x = nd::conc(*x as usize) as u8;
    }
    for (s, e) in r.iter_mut() {
        s.off = nd::conc(s.off as usize) as i64;
        e.off = nd::conc(e.off as usize) as i64;
    }
    let mut s = CutStream::new(Box::new(Chunky::new(&d, 2)), &text(&a)).unwrap();
    let want = refm::cut(&d, &r);
    drain_any(&mut s, &want, nd::param(2), nd::param(3));
}
// a stream long enough for the buffer to be moved repeatedly, consumed in steps of one size
#[no_mangle]
pub extern "C" fn c29_raw_long() {
    let l = nd::choice_in(nd::param(0), nd::param(1));
    let mode = 16 + nd::choice_in(1, BLOCK_SIZE);
    let d = nd::bytes(l);
    let step = nd::choice_in(1, nd::param(2));
    let req = nd::choice_in(1, nd::param(3));
    let mut s = RawStream::new(Box::new(nd::Src::new(&d, mode)), 1, 0);
    let mut at = 0;
    while at < l {
        let (eof, n) = s.fill_buf(req).unwrap();
        nd::check(eof || n >= req, "at least what was asked for, unless the stream has ended");
        nd::check(n > 0 && at + n <= l && (!eof || at + n == l), "no byte more or less than the stream has");
        nd::check(nd::same(&s.as_slice()[..n], &d[at..at + n]), "the bytes of the stream");
        let k = std::cmp::min(step, n);
        s.consume(k);
        at += k;
    }
    nd::check(matches!(s.fill_buf(req), Ok((true, 0))), "the end is reported");
}
#[no_mangle]
pub extern "C" fn c29_raw_any() {
    let l = nd::choice_in(0, nd::param(0));
    let d = nd::bytes(l);
    let mut s = RawStream::new(Box::new(nd::Src::new(&d, 1)), 1, 0);
    drain_any(&mut s, &d, nd::param(1), nd::param(2));
}
