// Whole runs: any of the options together, against the documented composition of the stages.
use crate::byte::*;
use crate::h_format::*;
use crate::h_segs::*;
use crate::nd;
use crate::refm;
use crate::refm::{End, Slices};
use crate::run::*;
use crate::segment::*;

// the options: short and long name, value
pub const OPTS: [(&str, &str, &str); 24] = [
    ("-c", "--cat", "4"),
    ("-z", "--zip", "2"),
    ("-n", "--cut", "1..4,3..e-1"),
    ("-a", "--pad", "2,1"),
    ("-p", "--patch", "patch.txt"),
    // slicers
    ("-w", "--width", "3"),
    ("-w", "--width", "4,s+1..e+1"),
    ("-d", "--find", "00"),
    ("-k", "--walk", "i[0] & 7"),
    ("-r", "--slice", "4..6,1..3"),
    ("-g", "--guide", "guide.txt"),
    // slice manipulators
    ("-e", "--regex", "(?-u:[^b-c][a-b])"),
    ("-v", "--invert", "s-1..e"),
    ("-x", "--extend", "s..e+1,s-1..s"),
    ("-m", "--merge", "1"),
    ("-l", "--lines", "1..3,e-1.."),
    // drains and formats
    ("-o", "--output", "-"),
    ("-f", "--out-format", "b"),
    ("-f", "--out-format", "ddx"),
    ("-F", "--in-format", "b"),
    ("--filler", "--filler", "0x2e"),
    ("-i", "--inplace", ""),
    ("-o", "--output", "out.txt"),
    ("-P", "--patch-back", "cat"),
];
pub const PATCH: &[u8] = b"3 2 | 78 79 7a | \n5 0 | 7b | \n";
pub const GUIDE: &[u8] = b"1 2 |  | \n1 4 |  | \n4 5 |  | \n";
const CUT: [(End, End); 2] = [(End { tail: false, off: 1 }, End { tail: false, off: 4 }), (End { tail: false, off: 3 }, End { tail: true, off: -1 })];
const SLICE: [(End, End); 2] = [(End { tail: false, off: 4 }, End { tail: false, off: 6 }), (End { tail: false, off: 1 }, End { tail: false, off: 3 })];
const INVERT: [(End, End); 1] = [(End { tail: false, off: -1 }, End { tail: true, off: 0 })];
const EXTEND: [(End, End); 2] = [(End { tail: false, off: 0 }, End { tail: true, off: 1 }), (End { tail: false, off: -1 }, End { tail: false, off: 0 })];
const LINES: [(End, End); 2] = [(End { tail: false, off: 1 }, End { tail: false, off: 3 }), (End { tail: true, off: -1 }, End { tail: true, off: 0 })];

fn group(k: usize) -> usize {
    match k {
        0 | 1 | 21 => 1,
        5..=10 => 2,
        17 | 18 => 3,
        16 | 22 | 23 => 4,
        _ => 10 + k,
    }
}
/// the bytes after the byte stages
fn stream(on: &[bool], inputs: &[Vec<u8>]) -> Vec<u8> {
    let filler = if on[20] { 0x2e } else { 0 };
    let mut d = if on[21] {
        inputs[inputs.len() - 1].clone()
    } else if on[1] {
        refm::zip(inputs, 2, filler)
    } else {
        refm::cat(inputs, if on[0] { 4 } else { 1 }, filler)
    };
    if on[2] {
        d = refm::cut(&d, &CUT);
    }
    if on[3] {
        d = refm::pad(&d, 2, 1, filler);
    }
    if on[4] {
        d = refm::patch(&d, &[(3, 2, vec![0x78, 0x79, 0x7a]), (5, 0, vec![0x7b])]);
    }
    d
}
/// the slices of the slicer and the manipulators; whether the slicing reaches the end
fn slices(on: &[bool], d: &[u8]) -> (Slices, bool) {
    let n = d.len();
    let mut ends = true;
    let (a, b) = refm::ALL;
    let mut v = if on[5] {
        refm::width(n, 3, a, b)
    } else if on[6] {
        refm::width(n, 4, End { tail: false, off: 1 }, End { tail: true, off: 1 })
    } else if on[7] {
        conc_slices(refm::find(d, &[0]))
    } else if on[8] {
        let (v, e) = refm::walk(d, 6);
        ends = e;
        v
    } else if on[9] {
        refm::slice(n, &SLICE)
    } else if on[10] {
        let mut v = vec![];
        for (p, l) in [(1, 2), (1, 4), (4, 5)] {
            let e = std::cmp::min(n, p + l);
            if p < e {
                v.push((p, e - p));
            }
        }
        v
    } else {
        refm::width(n, 16, a, b)
    };
    if on[11] {
        v = conc_slices(refm::matches(d, &v, 4));
    }
    if on[12] {
        v = refm::invert(&v, n, &INVERT);
    }
    if on[13] {
        v = refm::extend(&v, n, &EXTEND);
    }
    if on[14] {
        v = refm::merge(&v, 1);
    }
    if on[15] {
        v = refm::lines(&v, &LINES);
    }
    (v, ends)
}
fn output(on: &[bool], d: &[u8], v: &[(usize, usize)]) -> Vec<u8> {
    let sig = if on[17] || (on[21] && !on[18] && !on[22]) { 2 } else if on[18] { 1 } else { 0 };
    let cols = if on[17] || on[18] || !(5..=10).any(|x| on[x]) {
        16
    } else if on[5] {
        3
    } else if on[6] {
        4
    } else {
        0
    };
    let mut out = vec![];
    for &(p, l) in v {
        describe(sig, p, &d[p..p + l], cols, &mut out);
    }
    out
}
/// picks between `least` and `most` of the options from `from` to before `to`; exclusive ones too if `both`
fn pick(least: usize, most: usize, from: usize, to: usize, both: bool) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for k in from..to {
        let free = both || v.iter().all(|&x| group(x) != group(k));
        // enough must remain
        if free && v.len() < most && (v.len() + (to - k) <= least || nd::choice(2) == 1) {
            v.push(k);
        }
    }
    nd::assume(v.len() >= least);
    v
}
/// the options in some order: 0 as documented, 1 reversed, then rotations of both
fn order(v: &[usize], orders: usize) -> Vec<usize> {
    let n = v.len();
    if n < 2 {
        return v.to_vec();
    }
    let all = if n == 2 { 2 } else { 2 * n };
    let k = nd::choice(std::cmp::min(orders, all));
    let mut w = v.to_vec();
    if k % 2 == 1 {
        w.reverse();
    }
    w.rotate_left(k / 2);
    w
}
fn arguments(v: &[usize], form: usize) -> Vec<String> {
    let mut a = vec![];
    for &k in v {
        let (s, l, x) = OPTS[k];
        if k == 21 {
            a.push([s, l][(form > 0) as usize].to_string());
        } else if form == 0 || (k == 20 && form == 1) {
            a.push(s.to_string());
            a.push(x.to_string());
        } else if form == 1 {
            a.push([s, x].concat());
        } else {
            a.push([l, "=", x].concat());
        }
    }
    a
}
/// arbitrary bytes, or bytes of which some contain what is looked for if only `wild` may be arbitrary
const SOME: &[u8] = &[0x02, 0x00, 0x61, 0x61, 0x03, 0x00, 0x62, 0x01, 0xff, 0x62, 0x61, 0x00, 0x04];
fn inputs(on: &[bool], n: usize, from: usize, to: usize, second: usize, wild: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let content = on[7] || on[8] || on[11];
    for i in 0..n {
        let l = if i == 0 { nd::choice_in(from, to) } else { second };
        if !content {
            v.push(nd::bytes(l));
            continue;
        }
        let mut x: Vec<u8> = (0..l).map(|k| SOME[(k + 5 * i) % SOME.len()]).collect();
        for k in 0..std::cmp::min(wild, l) {
            x[l - 1 - 2 * k % l] = nd::sym8();
        }
        v.push(x);
    }
    v
}

// params: options (from, to), list (from, to), orders, form of the options, inputs, length of the first (from, to), of the others, read mode, arbitrary bytes where the content matters
#[no_mangle]
pub extern "C" fn c31_options() {
    let v = pick(nd::param(0), nd::param(1), nd::param(2), nd::param(3), false);
    let w = order(&v, nd::param(4));
    let mut on = vec![false; OPTS.len()];
    for &k in &v {
        on[k] = true;
    }
    let d = inputs(&on, if on[21] { 1 } else { nd::param(6) }, nd::param(7), nd::param(8), nd::param(9), nd::param(11));
    nd::file("patch.txt", PATCH);
    nd::file("guide.txt", GUIDE);
    let a = arguments(&w, nd::param(5));
    let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    nd::steps(2_000_000);
    let got = run(&a, &d, nd::param(10));
    let s = stream(&on, &d);
    let (slices, ends) = slices(&on, &s);
    match got {
        Ok(x) => {
            nd::check(ends, "a walk that cannot be completed is an error");
            nd::cover(1);
            let want = output(&on, &s, &slices);
            if on[22] {
                nd::check(x.len() == 0, "nothing is printed that goes to a file");
                let x = nd::read_file("out.txt").unwrap_or(vec![]);
                nd::check_same(&x, &want, "the stages in the documented order, to a file");
            } else {
                nd::check_same(&x, &want, "the stages in the documented order");
            }
        }
        Err(_) => nd::check(!ends, "a valid list of options is run"),
    }
}

// ranges for the chain, and what they denote
const fn h(off: i64) -> End {
    End { tail: false, off }
}
const fn t(off: i64) -> End {
    End { tail: true, off }
}
const RANGES: [(&str, &[(End, End)]); 6] = [
    ("..", &[(h(0), t(0))]),
    ("s-1..e+1", &[(h(-1), t(1))]),
    ("e-1..e+2,s..s+1", &[(t(-1), t(2)), (h(0), h(1))]),
    ("s+1..e", &[(h(1), t(0))]),
    ("e..e+2", &[(t(0), t(2))]),
    ("s-3..s", &[(h(-3), h(0))]),
];
const LINE_RANGES: [(&str, &[(End, End)]); 6] = [
    ("1..", &[(h(1), t(0))]),
    ("..1", &[(h(0), h(1))]),
    ("e-1..", &[(t(-1), t(0))]),
    ("..e-1", &[(h(0), t(-1))]),
    ("1..2,e-1..", &[(h(1), h(2)), (t(-1), t(0))]),
    ("0..1,2..3", &[(h(0), h(1)), (h(2), h(3))]),
];
// a slicer with some of the slice manipulators on top, step by step
// params: manipulators (from, to), length (from, to), ranges (10 + n: all with constants up to n), delivery, consumption, requests for more, slicer (from, to), arbitrary bytes where the content matters
#[no_mangle]
pub extern "C" fn c34_chain() {
    let v = pick(nd::param(0), nd::param(1), 11, 16, false);
    let slicer = nd::choice_in(nd::param(8), nd::param(9));
    let n = nd::choice_in(nd::param(2), nd::param(3));
    let mut on = vec![false; OPTS.len()];
    on[[5, 5, 7, 8, 9, 10, 9, 6][slicer]] = true;
    for &k in &v {
        on[k] = true;
    }
    let d = inputs(&on, 1, n, n, 0, nd::param(10)).pop().unwrap();
    let (a, b) = refm::ALL;
    let later = on[12] || on[13];
    let src = Box::new(Chunky::new(&d, nd::param(5)));
    let pitch = |k, e| ConstSlicerParams::from_raw(k, e).unwrap();
    let (mut s, mut want): (Box<dyn SegmentStream>, Slices) = match slicer {
        0 => (Box::new(ConstSlicer::new(src, &pitch(3, None))), refm::width(n, 3, a, b)),
        1 => (Box::new(ConstSlicer::new(src, &pitch(2, Some("s-1..e+1")))), refm::width(n, 2, h(-1), t(1))),
        2 => (Box::new(ExactMatchSlicer::new(src, "61").unwrap()), conc_slices(refm::find(&d, b"a"))),
        3 => {
            let (v, ends) = refm::walk(&d, 6);
            nd::assume(ends);
            (Box::new(WalkSlicer::new(src, refm::WALKS[6]).unwrap()), v)
        }
        4 | 6 => {
            let r: (&str, &[(End, End)]) = if slicer == 4 { ("4..6,1..3", &SLICE) } else { ("e-2..,s..s+2", &[(t(-2), t(0)), (h(0), h(2))]) };
            (Box::new(RangeSlicer::new(src, r.0).unwrap().keep_rest(later)), refm::slice(n, r.1))
        }
        5 => {
            let mut v = vec![];
            for (p, l) in [(1, 2), (1, 4), (4, 5)] {
                let e = std::cmp::min(n, p + l);
                if p < e {
                    v.push((p, e - p));
                }
            }
            (Box::new(GuidedSlicer::new(src, raw(GUIDE, 0))), v)
        }
        _ => (Box::new(ConstSlicer::new(src, &pitch(4, Some("s+1..s+3")))), refm::width(n, 4, h(1), h(3))),
    };
    for &k in &v {
        let (mut r, mut text, mut denoted) = (0, String::new(), vec![]);
        if nd::param(4) < 10 {
            r = nd::choice(std::cmp::min(nd::param(4), if k == 14 { 3 } else { 6 }));
            let x = if k == 15 { LINE_RANGES[r] } else { RANGES[r] };
            text.push_str(x.0);
            denoted.extend_from_slice(x.1);
        } else if k != 11 && k != 14 {
            (text, denoted) = ranges(1, nd::param(4) - 10, 0);
        }
        let near = if nd::param(4) < 10 { [0, 1, 3][r % 3] } else { nd::range(0, nd::param(4) - 10) };
        let next: (Box<dyn SegmentStream>, Slices) = match k {
            11 => (Box::new(RegexSlicer::new(s, "a+").unwrap()), conc_slices(refm::matches(&d, &want, 1))),
            12 => (Box::new(BridgeStream::new(s, &text).unwrap()), refm::invert(&want, n, &denoted)),
            13 => (Box::new(ExtendStream::new(s, &text).unwrap()), refm::extend(&want, n, &denoted)),
            14 => (Box::new(MergeStream::new(s, near)), refm::merge(&want, near)),
            _ => (Box::new(FilterStream::new(s, &text).unwrap()), refm::lines(&want, &denoted)),
        };
        (s, want) = next;
    }
    drain_slices(s.as_mut(), &d, &want, nd::param(6), nd::param(7));
}

// options that exclude each other, among others
// params: options (at most), orders, form of the options
#[no_mangle]
pub extern "C" fn c31_exclusive() {
    let v = pick(2, nd::param(0), 0, OPTS.len(), true);
    let mut twice = 0;
    for i in 0..v.len() {
        for j in 0..i {
            twice += (group(v[i]) == group(v[j])) as usize;
        }
    }
    nd::assume(twice > 0);
    let w = order(&v, nd::param(1));
    let a = arguments(&w, nd::param(2));
    let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    nd::check(pipeline(&a).is_err(), "options that exclude each other are refused");
    nd::trace(w.len() as u64);
}
// values that are out of the domain of an option, with another option before or after
// params: digits, others
#[no_mangle]
pub extern "C" fn c31_values() {
    let k = nd::choice(4);
    let mut s = vec![];
    let mut x = 0usize;
    let n = nd::choice_in(1, nd::param(0));
    for _ in 0..n {
        let d = nd::sym8();
        nd::assume(d >= b'0' && d <= b'9');
        // a leading zero is the prefix of another base
        nd::assume(n == 1 || !s.is_empty() || d != b'0');
        s.push(d);
        x = 10 * x + (d - b'0') as usize;
    }
    let s = unsafe { String::from_utf8_unchecked(s) };
    let mut a = vec![["--filler", "-c", "-z", "-w"][k], &s];
    let other = nd::choice(nd::param(1));
    if other > 0 {
        let o = arguments(&[[0, 2, 9, 11, 15, 18, 3][other]], 0);
        let o: Vec<&'static str> = o.iter().map(|x| &*Box::leak(x.clone().into_boxed_str())).collect();
        if nd::choice(2) == 0 {
            a.splice(0..0, o);
        } else {
            a.extend(o);
        }
    }
    // slicers are exclusive, too
    nd::assume(k != 3 || other != 2);
    let ok = pipeline(&a).is_ok();
    nd::cover(1 + ok as u64);
    nd::check(ok == if k == 0 { x < 256 } else { x > 0 }, "values out of the domain, and only those, are refused");
    nd::trace(ok as u64);
}

// more or less odd options
const ODD: [(&str, &[&str]); 20] = [
    ("-c", &["7", "16"]),
    ("-z", &["7", "1"]),
    ("-n", &["", "e-1..", "7..", "2..1,e..s", "0..0x7fffffffffffffff", "e-0x7fffffffffffffff..1"]),
    ("-a", &["0,0", "9,0", "0,9", "9"]),
    ("-p", &["odd.txt"]),
    ("-w", &["1", "100", "3,e..s", "3,e-1..", "3,5..9", "1,s-9..e+9", "2,-9..-5"]),
    ("-w", &["0x7fffffffffffffff", "1,s..e+0x7fffffffffffffff", "0xffffffff,s-1..e", "3,1..0x7fffffffffffffff", "3,s-0x7fffffffffffffff..e", "2,s-0x7ffffffffffffff0..s-0x7fffffffffffffe"]),
    ("-d", &["00 ff", "", "00 00 00 00 00 00 00 00 00", "0", "zz"]),
    ("-k", &["1", "b[0]", "100", "b[0] & 3,2", "-1", "0", "", "b[9]", "i[-1]", "0x7fffffffffffffff", "1/0"]),
    ("-r", &["", "e-2..e-1,0..1", "9..", "0..0x7fffffffffffffff", "s..s", "e-9..3"]),
    ("-g", &["odd.txt"]),
    ("-e", &["a*", "^", "", "(", "\x00", "."]),
    ("-v", &["e..s", "s-9..e+9,..", "s-0x7fffffffffffffff..e+0x7fffffffffffffff", ""]),
    ("-x", &["s-9..e+9", "1..2,2..3", "e..s", "e+0x7fffffffffffffff..e", "s-0x7fffffffffffffff..e", ""]),
    ("-m", &["0", "100", "0x7fffffffffffffff"]),
    ("-l", &["", "e..", "5..,..e-5", "s..s", "..0x7fffffffffffffff"]),
    ("-o", &["out.txt", "{n:04x}", "{l}{(n/0)}", "{", ""]),
    ("-f", &["b", "d", "x,x", "d,x,b", "nnx", "", "x,"]),
    ("-F", &["x", "d", "nnx", "b,b,b", "n,n,n"]),
    ("--filler", &["255"]),
];
const TEXTS: [&[u8]; 9] = [
    b"", b"\n", b"1 2 | 61\n0 1 | 62\n", b"0 0 | 61 62 63 | \n", b"ffffffffffffffff 1 | 61\n", b"1 ffffffffffffffff | 61\n1 1 | \n",
    b"x", b"0 1 |\n0 1 |\n0 1 |\n", b"2 3",
];
// whatever it is given, a run ends, in output or an error
// params: options (from, to), inputs, length of the first (from, to), of the others, read mode, arbitrary bytes where the content matters, 1: a reader that fails
#[no_mangle]
pub extern "C" fn c30_ends() {
    let mut v: Vec<usize> = vec![];
    for k in 0..ODD.len() {
        let slicer = |x: usize| (5..=10).contains(&x);
        let free = !(k == 1 && v.contains(&0)) && !(slicer(k) && v.iter().any(|&x| slicer(x)));
        if free && v.len() < nd::param(1) && (v.len() + (ODD.len() - k) <= nd::param(0) || nd::choice(2) == 1) {
            v.push(k);
        }
    }
    nd::assume(v.len() >= nd::param(0));
    let mut a = vec![];
    let mut on = vec![false; OPTS.len()];
    for &k in &v {
        a.push(ODD[k].0);
        a.push(ODD[k].1[nd::choice(ODD[k].1.len())]);
        on[7] |= k == 7 || k == 8 || k == 11;
    }
    // lines are as wide as these widths
    if v.contains(&6) {
        nd::assume(!v.contains(&17));
        a.push("-f");
        a.push("b");
    }
    let text = |x: usize| x == 4 || x == 10 || x == 18;
    let odd = if v.iter().any(|&x| text(x)) { TEXTS[nd::choice(TEXTS.len())] } else { b"" };
    nd::file("odd.txt", odd);
    let d = if v.contains(&18) {
        vec![odd.to_vec()]
    } else {
        inputs(&on, nd::param(2), nd::param(3), nd::param(4), nd::param(5), nd::param(7))
    };
    nd::steps(4_000_000);
    let got = run(&a, &d, nd::param(6));
    nd::cover(1 + got.is_ok() as u64);
    nd::trace(got.is_ok() as u64);
    nd::check(!a.contains(&"(") || got.is_err(), "what cannot be read is an error");
}
