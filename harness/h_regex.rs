// --regex with the regex crate itself
use crate::h_segs::*;
use crate::nd;
use crate::refm;
use crate::run::*;
use crate::segment::*;

// params: stream length, slices, longest, pattern, delivery, consumption, zeros, 1: bytes below 128 only, 2: only a and b
#[no_mangle]
pub extern "C" fn c17_regex() {
    let d = data(nd::param(0));
    for &b in &d {
        nd::assume(nd::param(7) == 0 || (nd::param(7) == 1 && b < 128) || b == b'a' || b == b'b');
    }
    let src = layout(nd::param(1), d.len(), nd::param(2), false);
    let k = nd::param(3);
    let want = conc_slices(refm::matches(&d, &src, k));
    let mut s = RegexSlicer::new(Box::new(Mock::new(&d, &src, nd::param(4))), refm::PATTERNS[k]).unwrap();
    drain_slices(&mut s, &d, &want, nd::param(5), nd::param(6));
}
