// Slicers and slice manipulators, each against its reference model.
use crate::byte::*;
use crate::nd;
use crate::refm;
use crate::run::*;
use crate::segment::*;

fn text(v: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(v.to_vec()) }
}
pub fn data(l: usize) -> Vec<u8> {
    let n = nd::choice_in(0, l);
    nd::bytes(n)
}
pub fn ranges(k: usize, max: usize, form: usize) -> (String, Vec<(refm::End, refm::End)>) {
    let k = if form == 1 || form == 3 { k } else { nd::choice_in(1, k) };
    let mut a = vec![];
    let mut r = vec![];
    for i in 0..k {
        if i > 0 {
            a.push(b',');
        }
        r.push(refm::any_range(&mut a, max as u8, form));
    }
    //refm::conc_ranges(&mut a, &mut r);
    (text(&a), r)
}

// params: length, largest N, delivery, consumption, requests for more
#[no_mangle]
pub extern "C" fn c12_width() {
    let d = data(nd::param(0));
    let n = nd::choice_in(1, nd::param(1));
    let p = ConstSlicerParams::from_raw(n, None).unwrap();
    let mut s = ConstSlicer::new(Box::new(Chunky::new(&d, nd::param(2))), &p);
    let (a, b) = refm::ALL;
    drain_slices(&mut s, &d, &refm::width(d.len(), n, a, b), nd::param(3), nd::param(4));
}
// params: length, largest N, largest offset, delivery, consumption, requests for more, form of the range
#[no_mangle]
pub extern "C" fn c12_width_map() {
    let d = data(nd::param(0));
    let n = nd::choice_in(0, nd::param(1));
    let (a, r) = ranges(1, nd::param(2), nd::param(6));
    let p = match ConstSlicerParams::from_raw(n, Some(&a)) {
        Ok(p) => p,
        Err(_) if n == 0 => return,
        Err(_) => {
            // only a range that is empty for every slice is refused
            let (s, e) = r[0];
            nd::check(refm::at(s, n) >= refm::at(e, n), "a range that yields slices is accepted");
            return;
        }
    };
    nd::check(n > 0, "a width of zero is refused");
    let mut s = ConstSlicer::new(Box::new(Chunky::new(&d, nd::param(3))), &p);
    drain_slices(&mut s, &d, &refm::width(d.len(), n, r[0].0, r[0].1), nd::param(4), nd::param(5));
}
// params: length, ranges, largest offset, delivery, consumption, requests for more, form of the ranges
#[no_mangle]
pub extern "C" fn c13_slice() {
    let d = data(nd::param(0));
    let (a, r) = ranges(nd::param(1), nd::param(2), nd::param(6));
    let mut s = RangeSlicer::new(Box::new(Chunky::new(&d, nd::param(3))), &a).unwrap();
    drain_slices(&mut s, &d, &refm::slice(d.len(), &r), nd::param(4), nd::param(5));
}

/// A stage that shows a hidden list of slices over hidden data: at each step any amount of bytes, the
/// slices that lie in them, and up to where no further one starts.
/// `style` 0: as few bytes as a step may give; 1: all; 2: few or all, one path each; 3: any amount
pub struct Mock {
    data: Vec<u8>,
    len: usize,
    all: Vec<(usize, usize)>,
    style: usize,
    offset: usize,
    have: usize,
    more: bool,
    gone: usize,
    shown: Vec<Segment>,
    max: usize,
}
impl Mock {
    pub fn new(d: &[u8], all: &[(usize, usize)], style: usize) -> Mock {
        let mut data = d.to_vec();
        data.resize(d.len() + crate::params::MARGIN_SIZE, b'\n');
        Mock { data, len: d.len(), all: all.to_vec(), style, offset: 0, have: 0, more: false, gone: 0, shown: vec![], max: 0 }
    }
}
impl SegmentStream for Mock {
    fn fill_segment_buf(&mut self) -> anyhow::Result<(bool, usize, usize, usize)> {
        let rest = self.len - self.offset;
        let want = std::cmp::min(std::cmp::max(2, self.have + self.more as usize), rest);
        self.more = false;
        self.have = match self.style {
            0 => want,
            1 => rest,
            2 => {
                if want < rest && nd::choice(2) == 1 {
                    rest
                } else {
                    want
                }
            }
            _ => nd::choice_in(want, rest),
        };
        let eof = self.have == rest;
        let end = self.offset + self.have;
        self.shown.clear();
        self.max = self.have;
        for &(p, l) in &self.all[self.gone..] {
            if p + l > end {
                if p < end {
                    self.max = p - self.offset;
                }
                break;
            }
            self.shown.push(Segment { pos: p - self.offset, len: l });
        }
        Ok((eof, self.have, self.shown.len(), self.max))
    }
    fn as_slices(&self) -> (&[u8], &[Segment]) {
        (&self.data[self.offset..self.offset + self.have + crate::params::MARGIN_SIZE], &self.shown)
    }
    fn consume(&mut self, bytes: usize) -> anyhow::Result<(usize, usize)> {
        let bytes = std::cmp::min(bytes, self.max);
        self.more = bytes == 0;
        let mut n = 0;
        while n < self.shown.len() && self.shown[n].pos < bytes {
            n += 1;
        }
        self.gone += n;
        self.offset += bytes;
        self.have -= bytes;
        Ok((bytes, n))
    }
}
/// up to k slices within len bytes, in order, of up to `longest` bytes; symbolic where `sym`
pub fn layout(k: usize, len: usize, longest: usize, sym: bool) -> Vec<(usize, usize)> {
    let n = nd::choice_in(0, k);
    let mut v: Vec<(usize, usize)> = vec![];
    if len == 0 {
        return v;
    }
    for i in 0..n {
        let p = nd::range(0, len - 1);
        let l = nd::range(1, std::cmp::min(len, longest));
        nd::assume(p + l <= len);
        if i > 0 {
            let (q, m) = v[i - 1];
            nd::assume(q < p || (q == p && m <= l));
        }
        v.push(if sym { (p, l) } else { (nd::conc(p), nd::conc(l)) });
    }
    v
}

// params: length, slices, longest slice, ranges, largest offset, delivery, consumption, requests for more, symbolic slices, form of the ranges
#[no_mangle]
pub extern "C" fn c19_extend() {
    let d = data(nd::param(0));
    let src = layout(nd::param(1), d.len(), nd::param(2), nd::param(8) > 0);
    let (a, r) = ranges(nd::param(3), nd::param(4), nd::param(9));
    let want = refm::extend(&src, d.len(), &r);
    let mut s = ExtendStream::new(Box::new(Mock::new(&d, &src, nd::param(5))), &a).unwrap();
    drain_slices(&mut s, &d, &want, nd::param(6), nd::param(7));
}
// the same
#[no_mangle]
pub extern "C" fn c18_invert() {
    let d = data(nd::param(0));
    let src = layout(nd::param(1), d.len(), nd::param(2), nd::param(8) > 0);
    let (a, r) = ranges(nd::param(3), nd::param(4), nd::param(9));
    let want = refm::invert(&src, d.len(), &r);
    let mut s = BridgeStream::new(Box::new(Mock::new(&d, &src, nd::param(5))), &a).unwrap();
    drain_slices(&mut s, &d, &want, nd::param(6), nd::param(7));
}
// the same; the range is not used, the largest distance is the largest offset
#[no_mangle]
pub extern "C" fn c20_merge() {
    let d = data(nd::param(0));
    let src = layout(nd::param(1), d.len(), nd::param(2), nd::param(8) > 0);
    let n = nd::range(0, nd::param(4));
    let want = refm::merge(&src, n);
    let mut s = MergeStream::new(Box::new(Mock::new(&d, &src, nd::param(5))), n);
    drain_slices(&mut s, &d, &want, nd::param(6), nd::param(7));
}
// the same
#[no_mangle]
pub extern "C" fn c21_lines() {
    let d = data(nd::param(0));
    let src = layout(nd::param(1), d.len(), nd::param(2), nd::param(8) > 0);
    let (a, r) = ranges(nd::param(3), nd::param(4), nd::param(9));
    let want = refm::lines(&src, &r);
    let mut s = FilterStream::new(Box::new(Mock::new(&d, &src, nd::param(5))), &a).unwrap();
    drain_slices(&mut s, &d, &want, nd::param(6), nd::param(7));
}

// the pattern as hex digits
fn hex(p: &[u8]) -> String {
    let digit = |x: u8| if x < 10 { b'0' + x } else { b'a' + x - 10 };
    let mut v = vec![];
    for (i, &b) in p.iter().enumerate() {
        if i > 0 {
            v.push(b' ');
        }
        v.push(digit(b >> 4));
        v.push(digit(b & 15));
    }
    text(&v)
}
// params: length, longest pattern, delivery, consumption, requests for more
// Every equality pattern matters, so the bytes of the stream are free; a pattern is one of all over two bytes.
#[no_mangle]
pub extern "C" fn c14_find() {
    let d = data(nd::param(0));
    let n = nd::choice_in(1, nd::param(1));
    let mut pat = vec![];
    for _ in 0..n {
        pat.push([b'a', 0xff][nd::choice(2)]);
    }
    let mut s = ExactMatchSlicer::new(Box::new(Chunky::new(&d, nd::param(2))), &hex(&pat)).unwrap();
    let want = conc_slices(refm::find(&d, &pat));
    drain_slices(&mut s, &d, &want, nd::param(3), nd::param(4));
}
pub fn conc_slices(v: Vec<(usize, usize)>) -> Vec<(usize, usize)> {
    v.iter().map(|&(p, l)| (nd::conc(p), nd::conc(l))).collect()
}
// params: length, expressions (of the list), delivery, consumption, requests for more
#[no_mangle]
pub extern "C" fn c15_walk() {
    let d = data(nd::param(0));
    let k = nd::param(5) + nd::choice(nd::param(1));
    let mut s = WalkSlicer::new(Box::new(Chunky::new(&d, nd::param(2))), refm::WALKS[k]).unwrap();
    let (want, ends) = refm::walk(&d, k);
    if ends {
        nd::cover(1);
        drain_slices(&mut s, &d, &want, nd::param(3), nd::param(4));
    } else {
        nd::cover(2);
        drain_slices_err(&mut s, &d, &want, nd::param(3), nd::param(4));
    }
}
