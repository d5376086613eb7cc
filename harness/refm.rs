// Reference models: what the documentation says each stage does, on whole byte strings.
#![allow(dead_code)]

/// inputs in order, each padded with the filler to a multiple of n
pub fn cat(inputs: &[Vec<u8>], n: usize, filler: u8) -> Vec<u8> {
    let mut v = vec![];
    for i in inputs {
        v.extend_from_slice(i);
        while v.len() % n != 0 {
            v.push(filler);
        }
    }
    v
}
/// n bytes of each input in turn until the shortest one ends
pub fn zip(inputs: &[Vec<u8>], n: usize, filler: u8) -> Vec<u8> {
    let shortest = inputs.iter().map(|x| x.len()).min().unwrap();
    let rounds = (shortest + n - 1) / n;
    let mut v = vec![];
    for r in 0..rounds {
        for i in inputs {
            for k in 0..n {
                v.push(if r * n + k < i.len() { i[r * n + k] } else { filler });
            }
        }
    }
    v
}
pub fn pad(d: &[u8], n: usize, m: usize, filler: u8) -> Vec<u8> {
    let mut v = vec![filler; n];
    v.extend_from_slice(d);
    for _ in 0..m {
        v.push(filler);
    }
    v
}

/// an end of a range expression: from the start (false) or the end (true), plus a constant
#[derive(Copy, Clone)]
pub struct End {
    pub tail: bool,
    pub off: i64,
}
pub const ALL: (End, End) = (End { tail: false, off: 0 }, End { tail: true, off: 0 });
/// the position denoted on 0..len, before clipping
pub fn at(e: End, len: usize) -> i64 {
    if e.tail {
        (len as i64).saturating_add(e.off)
    } else {
        e.off
    }
}
pub fn clip(x: i64, len: usize) -> usize {
    if x < 0 {
        0
    } else if x > len as i64 {
        len
    } else {
        x as usize
    }
}
/// the range denoted on 0..len, clipped; empty ones have end <= start
pub fn range(s: End, e: End, len: usize) -> (usize, usize) {
    (clip(at(s, len), len), clip(at(e, len), len))
}

use crate::nd;
/// appends one S..E expression with symbolic digits up to `max` to the text; what it denotes.
/// `form` 0: every form of both ends; 1: N..e-M; 2: every form, with one huge constant; 3: e-N..e-M
pub fn any_range(v: &mut Vec<u8>, max: u8, form: usize) -> (End, End) {
    let far = if form == 2 { 1 + nd::choice(2) } else { 0 };
    let s = any_end(v, max, false, [0, 2, 0, 3][form], far == 1);
    v.extend_from_slice(b"..");
    let e = any_end(v, max, true, [0, 3, 0, 3][form], far == 2);
    (s, e)
}
// around the limits of 32-bit and 64-bit numbers
const FAR: [(&[u8], i64); 4] = [(b"0x7ffffffd+", 0x7ffffffd), (b"0xfffffffd+", 0xfffffffd), (b"0x7ffffffffffffff6+", 0x7ffffffffffffff6), (b"0x1234567800000000+", 0x1234567800000000)];
fn any_end(v: &mut Vec<u8>, max: u8, is_end: bool, only: usize, far: bool) -> End {
    let form = if only > 0 { only - 1 } else if far { 1 + nd::choice(4) } else { nd::choice(5) };
    if form == 0 {
        return End { tail: is_end, off: 0 };
    }
    v.extend_from_slice([b"".as_slice(), b"", b"e-", b"e+", b"s-"][form]);
    let mut k = 0;
    if far {
        let (t, n) = FAR[nd::choice(4)];
        v.extend_from_slice(t);
        k = n;
    }
    let d = nd::sym8();
    nd::assume(d >= b'0' && d <= b'0' + max);
    v.push(d);
    let d = (d - b'0') as i64;
    let minus = if far { d - k } else { -d };
    match form {
        1 => End { tail: false, off: k + d },
        2 => End { tail: true, off: minus },
        3 => End { tail: true, off: k + d },
        _ => End { tail: false, off: minus },
    }
}
/// the bytes at the positions that at least one range contains
pub fn cut(d: &[u8], ranges: &[(End, End)]) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..d.len() {
        let mut keep = false;
        for &(s, e) in ranges {
            let (a, b) = range(s, e, d.len());
            keep |= a <= i && i < b;
        }
        if keep {
            v.push(d[i]);
        }
    }
    v
}

pub type Slices = Vec<(usize, usize)>;
fn sorted(mut v: Slices) -> Slices {
    for i in 1..v.len() {
        let mut j = i;
        while j > 0 && (v[j].0, v[j].0 + v[j].1) < (v[j - 1].0, v[j - 1].0 + v[j - 1].1) {
            v.swap(j, j - 1);
            j -= 1;
        }
    }
    v
}
/// what S..E denotes for the slice a..b, clipped to 0..len
fn image(s: End, e: End, a: i64, b: i64, len: usize) -> Option<(usize, usize)> {
    let x = clip((if s.tail { b } else { a }).saturating_add(s.off), len);
    let y = clip((if e.tail { b } else { a }).saturating_add(e.off), len);
    if x < y {
        Some((x, y - x))
    } else {
        None
    }
}
/// one slice per n bytes, counted as n bytes long, mapped and clipped
pub fn width(len: usize, n: usize, s: End, e: End) -> Slices {
    let mut v = vec![];
    let mut k = 0;
    // blocks before the end of the stream
    while k * n < len {
        if let Some(x) = image(s, e, (k * n) as i64, (k * n + n) as i64, len) {
            v.push(x);
        }
        k += 1;
    }
    v
}
pub fn slice(len: usize, ranges: &[(End, End)]) -> Slices {
    let mut v = vec![];
    for &(s, e) in ranges {
        if let Some(x) = image(s, e, 0, len as i64, len) {
            v.push(x);
        }
    }
    let mut v = sorted(v);
    v.dedup();
    v
}
pub fn extend(src: &[(usize, usize)], len: usize, ranges: &[(End, End)]) -> Slices {
    let mut v = vec![];
    for &(p, l) in src {
        for &(s, e) in ranges {
            if let Some(x) = image(s, e, p as i64, (p + l) as i64, len) {
                v.push(x);
            }
        }
    }
    sorted(v)
}
pub fn invert(src: &[(usize, usize)], len: usize, ranges: &[(End, End)]) -> Slices {
    let mut gaps = vec![];
    let mut at = 0;
    for &(p, l) in src {
        if p > at {
            gaps.push((at, p - at));
        }
        if p + l > at {
            at = p + l;
        }
    }
    if len > at {
        gaps.push((at, len - at));
    }
    extend(&gaps, len, ranges)
}
pub fn merge(src: &[(usize, usize)], n: usize) -> Slices {
    let mut v: Slices = vec![];
    for &(p, l) in src {
        if let Some(last) = v.last_mut() {
            if last.0 + last.1 + n >= p {
                let end = std::cmp::max(last.0 + last.1, p + l);
                last.1 = end - last.0;
                continue;
            }
        }
        v.push((p, l));
    }
    v
}
pub fn lines(src: &[(usize, usize)], ranges: &[(End, End)]) -> Slices {
    let mut v = vec![];
    for i in 0..src.len() {
        let mut keep = false;
        for &(s, e) in ranges {
            let (a, b) = range(s, e, src.len());
            keep |= a <= i && i < b;
        }
        if keep {
            v.push(src[i]);
        }
    }
    v
}
/// the occurrences of a pattern, from the left, not overlapping
pub fn find(d: &[u8], pat: &[u8]) -> Slices {
    let mut v = vec![];
    let n = pat.len();
    let mut i = 0;
    while n > 0 && i + n <= d.len() {
        if crate::nd::same(&d[i..i + n], pat) {
            v.push((i, n));
            i += n;
        } else {
            i += 1;
        }
    }
    v
}
/// the ranges made concrete, one path each
pub fn conc_ranges(a: &mut Vec<u8>, r: &mut [(End, End)]) {
    for x in a.iter_mut() {
        *x = nd::conc(*x as usize) as u8;
    }
    for (s, e) in r.iter_mut() {
        s.off = nd::conc(s.off as usize) as i64;
        e.off = nd::conc(e.off as usize) as i64;
    }
}

pub const WALKS: [&str; 8] = ["b[0]", "1,b[0]-1", "b[0],b[1]", "h[0]", "b[1]+1", "b[0-b[0]]+1", "i[0] & 7", "8 / b[0]"];
fn le(d: &[u8], at: usize, size: usize, i: usize) -> i64 {
    let at = at + i * size;
    if at + size > d.len() {
        return 0;
    }
    let mut x = 0u64;
    for k in 0..size {
        x |= (d[at + k] as u64) << (8 * k);
    }
    let s = 64 - 8 * size as u32;
    ((x << s) as i64) >> s
}
/// the slices, and whether the walk reaches the end of the stream
pub fn walk(d: &[u8], k: usize) -> (Slices, bool) {
    let mut v = vec![];
    let mut at = 0;
    while at < d.len() {
        // no value: an error
        let x = match k {
            0 => vec![Some(le(d, at, 1, 0))],
            1 => vec![Some(1), Some(le(d, at, 1, 0) - 1)],
            2 => vec![Some(le(d, at, 1, 0)), Some(le(d, at, 1, 1))],
            3 => vec![Some(le(d, at, 2, 0))],
            4 => vec![Some(le(d, at, 1, 1) + 1)],
            5 => {
                let y = -le(d, at, 1, 0);
                vec![if y < 0 { None } else { Some(le(d, at, 1, y as usize) + 1) }]
            }
            6 => vec![Some(le(d, at, 4, 0) & 7)],
            _ => {
                let y = le(d, at, 1, 0);
                vec![if y == 0 { None } else { Some(8 / y) }]
            }
        };
        for y in &x {
            match *y {
                Some(l) if l > 0 => {}
                _ => return (v, false),
            }
        }
        for y in x {
            if at < d.len() {
                let l = crate::nd::conc(std::cmp::min(y.unwrap() as usize, d.len() - at));
                v.push((at, l));
                at += l;
            }
        }
    }
    (v, true)
}
// patterns, and the length of the leftmost match at a position, by hand
pub const PATTERNS: [&str; 7] = ["ab", "a+", "ab?a", "[^a]a|b", "(?-u:[^b-c][a-b])", "a{2}|b+$", "a*"];
fn match_at(k: usize, s: &[u8], i: usize) -> usize {
    let c = |j: usize| if i + j < s.len() { s[i + j] } else { 0 };
    let n = s.len() - i;
    match k {
        0 => if n > 1 && c(0) == b'a' && c(1) == b'b' { 2 } else { 0 },
        1 | 6 => {
            let mut j = 0;
            while j < n && c(j) == b'a' {
                j += 1;
            }
            j
        }
        2 => {
            if n < 2 || c(0) != b'a' {
                0
            } else if n > 2 && c(1) == b'b' && c(2) == b'a' {
                3
            } else if c(1) == b'a' {
                2
            } else {
                0
            }
        }
        3 => {
            // a whole UTF-8 sequence that is not an a
            if n > 1 && c(0) < 128 && c(0) != b'a' && c(1) == b'a' {
                2
            } else if c(0) == b'b' {
                1
            } else {
                0
            }
        }
        4 => {
            if n > 1 && c(0) != b'b' && c(0) != b'c' && (c(1) == b'a' || c(1) == b'b') { 2 } else { 0 }
        }
        _ => {
            if n > 1 && c(0) == b'a' && c(1) == b'a' {
                return 2;
            }
            let mut j = 0;
            while j < n && c(j) == b'b' {
                j += 1;
            }
            if j == n { j } else { 0 }
        }
    }
}
pub fn matches(d: &[u8], src: &[(usize, usize)], k: usize) -> Slices {
    let mut v = vec![];
    for &(p, l) in src {
        let s = &d[p..p + l];
        let mut i = 0;
        while i < l {
            let m = match_at(k, s, i);
            if m > 0 {
                v.push((p + i, m));
                i += m;
            } else {
                i += 1;
            }
        }
    }
    sorted(v)
}

/// the stream with every record's interval replaced by its array; records that start at the end or later do nothing
pub fn patch(d: &[u8], r: &[(usize, usize, Vec<u8>)]) -> Vec<u8> {
    let mut v = vec![];
    let mut pos = 0;
    for (at, len, a) in r {
        if *at >= d.len() {
            break;
        }
        v.extend_from_slice(&d[pos..*at]);
        v.extend_from_slice(a);
        pos = std::cmp::min(at + len, d.len());
    }
    v.extend_from_slice(&d[pos..]);
    v
}
/// an endless run of fillers patched with the records, up to the last array
pub fn place(r: &[(usize, usize, Vec<u8>)], filler: u8) -> Vec<u8> {
    let mut v = vec![];
    let mut pos = 0;
    for (at, len, a) in r {
        for _ in pos..*at {
            v.push(filler);
        }
        v.extend_from_slice(a);
        pos = at + len;
    }
    v
}
pub fn pad_to(mut v: Vec<u8>, n: usize, filler: u8) -> Vec<u8> {
    while v.len() % n != 0 {
        v.push(filler);
    }
    v
}
