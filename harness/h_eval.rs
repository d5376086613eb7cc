// Expressions and literals, ranges and templates: what the evaluator says against a small evaluator
// of its own that works on the tokens the text was made of.
use crate::eval::*;
use crate::nd;
use std::collections::HashMap;

#[derive(Clone, Copy)]
enum T {
    Val(u8),  // a digit
    Var(usize), // n, l
    Elem(u8), // a[digit]
    Op(u8),   // index of OPS
    Un(u8),   // index of UNS
    Open,
    Close,
}
use T::*;
const OPS: [&str; 14] = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", "<=", ">", ">="];
// how tightly they bind, as in C
const PREC: [u8; 14] = [5, 5, 6, 6, 6, 2, 0, 1, 4, 4, 3, 3, 3, 3];
const UNS: [&str; 4] = ["-", "+", "!", "~"];

struct Env {
    vars: [i64; 2],
    elems: [i64; 4],
}
/// None: no value. `ub`: C leaves it undefined
struct Ref<'a> {
    t: &'a [T],
    at: usize,
    env: &'a Env,
    ub: bool,
    none: bool,
}
impl<'a> Ref<'a> {
    fn primary(&mut self) -> i64 {
        let t = self.t[self.at];
        self.at += 1;
        match t {
            Val(d) => (d - b'0') as i64,
            Var(k) => self.env.vars[k],
            Elem(d) => self.env.elems[(d - b'0') as usize],
            Un(k) => {
                let x = self.primary();
                match k {
                    0 => {
                        self.ub |= x == i64::MIN;
                        x.wrapping_neg()
                    }
                    1 => x,
                    _ => !x,
                }
            }
            Open => {
                let x = self.expr(0);
                self.at += 1;
                x
            }
            _ => nd::fail("harness: token"),
        }
    }
    fn expr(&mut self, min: u8) -> i64 {
        let mut x = self.primary();
        while self.at < self.t.len() {
            let k = match self.t[self.at] {
                Op(k) if PREC[k as usize] >= min => k,
                _ => break,
            };
            self.at += 1;
            let y = self.expr(PREC[k as usize] + 1);
            x = self.apply(k, x, y);
        }
        x
    }
    fn apply(&mut self, k: u8, x: i64, y: i64) -> i64 {
        let (v, over) = match k {
            0 => x.overflowing_add(y),
            1 => x.overflowing_sub(y),
            2 => {
                // operands are kept below 2^20 in size where products are asked for
                (x.wrapping_mul(y), false)
            }
            3 | 4 => {
                if y == 0 {
                    self.none = true;
                    return 0;
                }
                if x == i64::MIN && y == -1 {
                    self.ub = true;
                    return 0;
                }
                (if k == 3 { x / y } else { x % y }, false)
            }
            5 => (x & y, false),
            6 => (x | y, false),
            7 => (x ^ y, false),
            8 => (x.wrapping_shl(y as u32), y < 0 || y > 63 || (x.wrapping_shl(y as u32)).wrapping_shr(y as u32) != x),
            9 => (x.wrapping_shr(y as u32), y < 0 || y > 63),
            10 => ((x < y) as i64, false),
            11 => ((x <= y) as i64, false),
            12 => ((x > y) as i64, false),
            _ => ((x >= y) as i64, false),
        };
        self.ub |= over;
        v
    }
}
fn render(t: &[T]) -> String {
    let mut v: Vec<u8> = vec![];
    for x in t {
        match *x {
            Val(d) => v.push(d),
            Var(k) => v.push(b"nl"[k]),
            Elem(d) => v.extend_from_slice(&[b'a', b'[', d, b']']),
            Op(k) => {
                v.push(b' ');
                v.extend_from_slice(OPS[k as usize].as_bytes());
                v.push(b' ');
            }
            Un(k) => v.extend_from_slice(UNS[k as usize].as_bytes()),
            Open => v.push(b'('),
            Close => v.push(b')'),
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
// kinds: 1 literals, 2 n, 4 n and l, 8 elements with one index or another
fn operand(t: &mut Vec<T>, kinds: usize, unary: usize) {
    if unary > 0 {
        let k = nd::choice(unary + 1);
        if k > 0 {
            t.push(Un(k as u8 - 1));
        }
    }
    let mut l = vec![];
    if kinds & 1 != 0 {
        l.push(0);
    }
    if kinds & 6 != 0 {
        l.push(1);
    }
    if kinds & 4 != 0 {
        l.push(2);
    }
    if kinds & 8 != 0 {
        l.push(3);
        l.push(4);
    }
    match l[nd::choice(l.len())] {
        0 => {
            let d = nd::sym8();
            nd::assume(d >= b'0' && d <= b'7');
            t.push(Val(d));
        }
        1 => t.push(Var(0)),
        2 => t.push(Var(1)),
        3 => t.push(Elem(b'0')),
        _ => t.push(Elem(b'1')),
    }
}
fn op(t: &mut Vec<T>, ops: usize) {
    let mut l = vec![];
    for k in 0..OPS.len() {
        if ops >> k & 1 != 0 {
            l.push(k as u8);
        }
    }
    t.push(Op(l[nd::choice(l.len())]));
}
fn vars() -> HashMap<&'static [u8], VarAttr> {
    let mut m: HashMap<&[u8], VarAttr> = HashMap::new();
    m.insert(b"n", VarAttr { is_array: false, id: 0 });
    m.insert(b"l", VarAttr { is_array: false, id: 1 });
    m.insert(b"a", VarAttr { is_array: true, id: 2 });
    m
}
fn any_value(bits: usize) -> i64 {
    if bits > 62 {
        return nd::sym(64) as i64;
    }
    let x = (nd::sym(bits as u32 + 1) << (63 - bits)) as i64 >> (63 - bits);
    x
}

// params: operators, operand kinds, unary operators (of - + ! ~), grouping (0 none, 1 any pair),
// operators to choose from (bits of OPS), size of the values in bits
#[no_mangle]
pub extern "C" fn c22_eval() {
    let n = nd::param(0);
    let (kinds, unary, ops) = (nd::param(1), nd::param(2), nd::param(4));
    // 0: no parentheses; k: around operands k-1 and k
    let group = if nd::param(3) > 0 { nd::choice(n + 1) } else { 0 };
    let outer = if group > 0 && unary > 0 { nd::choice(unary + 1) } else { 0 };
    let mut t = vec![];
    for i in 0..=n {
        if i > 0 {
            op(&mut t, ops);
        }
        if group == i + 1 {
            if outer > 0 {
                t.push(Un(outer as u8 - 1));
            }
            t.push(Open);
        }
        operand(&mut t, kinds, unary);
        if group > 0 && group == i {
            t.push(Close);
        }
    }
    let bits = nd::param(5);
    let mut env = Env { vars: [0; 2], elems: [0; 4] };
    if kinds & 6 != 0 {
        env.vars = [any_value(bits), any_value(bits)];
    }
    if kinds & 8 != 0 {
        env.elems = [any_value(bits), any_value(bits), 0, 0];
    }
    let text = render(&t);
    let (want, ub, none) = {
        let mut r = Ref { t: &t, at: 0, env: &env, ub: false, none: false };
        let x = r.expr(0);
        (x, r.ub, r.none)
    };
    nd::log(&text, 0);
    let rpn = match Rpn::new(&text, Some(&vars())) {
        Ok(r) => r,
        Err(_) => {
            nd::check(ub || none, "an expression with a value is accepted");
            return;
        }
    };
    let got = rpn.evaluate(|id, i| match id {
        2 => {
            nd::check(i >= 0 && i < 4, "the element asked for");
            env.elems[i as usize & 3]
        }
        k => env.vars[k & 1],
    });
    match got {
        Ok(x) => {
            nd::trace(x as u64);
            nd::check(ub || !none, "an expression without a value is an error");
            nd::check(ub || x == want, "the value C gives the expression");
        }
        Err(_) => nd::check(ub || none, "an expression with a value evaluates"),
    }
}

fn lower(c: u8) -> u8 {
    if c >= b'A' && c <= b'Z' {
        c + 32
    } else {
        c
    }
}
/// What a literal stands for: base prefix, digits with single fillers between them, unit suffix.
fn literal(s: &[u8]) -> Option<i64> {
    let (base, mut i) = if s.len() > 0 && s[0] == b'0' {
        if s.len() > 1 {
            match lower(s[1]) {
                b'b' => (2u64, 2),
                b'o' => (8, 2),
                b'd' => (10, 2),
                b'x' => (16, 2),
                _ => (8, 0),
            }
        } else {
            (8, 0)
        }
    } else {
        (10, 0)
    };
    let from = i;
    let mut x = 0u64;
    let mut big = false;
    while i < s.len() {
        let c = lower(s[i]);
        if c == b'_' {
            if i == from || s[i - 1] == b'_' {
                return None;
            }
            i += 1;
            continue;
        }
        let d = if c >= b'0' && c <= b'9' {
            c - b'0'
        } else if base == 16 && c >= b'a' && c <= b'f' {
            c - b'a' + 10
        } else {
            break;
        } as u64;
        if d >= base {
            return None;
        }
        // below 2^63 times 16 plus 15 may not fit, but then it is too big already
        big |= x > (i64::MAX as u64 - d) / base;
        x = x.wrapping_mul(base).wrapping_add(d);
        i += 1;
    }
    if i == from || s[i - 1] == b'_' || big {
        return None;
    }
    if i < s.len() {
        let power = match lower(s[i]) {
            b'k' => 1,
            b'm' => 2,
            b'g' => 3,
            b't' => 4,
            b'e' => 6,
            _ => return None,
        };
        i += 1;
        let unit = if i < s.len() && s[i] == b'i' {
            i += 1;
            1024u64
        } else {
            1000
        };
        let mut k = 0;
        while k < power {
            if x > i64::MAX as u64 / unit {
                return None;
            }
            x *= unit;
            k += 1;
        }
        if i < s.len() {
            return None;
        }
    }
    Some(x as i64)
}
fn same_literal(s: &[u8]) {
    let want = literal(s);
    let t = unsafe { std::str::from_utf8_unchecked(s) };
    nd::log(t, 0);
    match parse_int(t) {
        Ok(x) => {
            nd::trace(x as u64);
            nd::check(want == Some(x), "the literal is read as documented");
        }
        Err(_) => nd::check(want.is_none(), "a literal that is right is accepted"),
    }
}
const PREFIXES: [&str; 9] = ["", "0b", "0B", "0o", "0O", "0d", "0D", "0x", "0X"];
const SUFFIXES: [&str; 8] = ["", "k", "Ki", "M", "gi", "T", "Ei", "e"];
// params: arbitrary letters, digits and fillers between prefix and suffix, prefixes, suffixes
#[no_mangle]
pub extern "C" fn c32_literal() {
    let n = nd::param(0);
    let mut s = PREFIXES[nd::choice(nd::param(1))].as_bytes().to_vec();
    for _ in 0..n {
        let c = nd::sym8();
        nd::assume((c >= b'0' && c <= b'9') || (c >= b'A' && c <= b'Z') || c == b'_' || (c >= b'a' && c <= b'z'));
        s.push(c);
    }
    s.extend_from_slice(SUFFIXES[nd::choice(nd::param(2))].as_bytes());
    // a name is not a literal
    nd::assume(s.len() == 0 || s[0] < b'A');
    same_literal(&s);
}
// numbers around the largest: params: prefix, first digits of the largest kept, arbitrary digits after them, more
#[no_mangle]
pub extern "C" fn c32_large() {
    let k = nd::param(0);
    let mut s = PREFIXES[k].as_bytes().to_vec();
    let full: &[u8] = match k {
        0 | 5 | 6 => b"9223372036854775807",
        7 | 8 => b"7fffffffffffffff",
        3 | 4 => b"777777777777777777777",
        _ => b"111111111111111111111111111111111111111111111111111111111111111",
    };
    let keep = nd::param(1);
    s.extend_from_slice(&full[..keep]);
    let n = full.len() - keep + nd::choice(nd::param(2) + 1);
    for _ in 0..n {
        let c = nd::sym8();
        nd::assume(c >= b'0' && (c <= b'9' || k >= 7 && c >= b'a' && c <= b'f'));
        s.push(c);
    }
    nd::assume(s.len() > 0 && s[0] != b'0' || k > 0);
    same_literal(&s);
}
// option arguments N and N,M: params: digits of each, sizes (1 or 2)
#[no_mangle]
pub extern "C" fn c32_option() {
    let n = nd::param(0);
    let pair = nd::param(1) > 1;
    let mut s = vec![];
    let mut want: [Option<i64>; 2] = [Some(0), Some(0)];
    let parts = if pair { 1 + nd::choice(2) } else { 1 };
    for k in 0..parts {
        if k > 0 {
            s.push(b',');
        }
        let neg = nd::choice(2) > 0;
        let len = nd::choice(n + 1);
        if neg {
            s.push(b'-');
        }
        let at = s.len();
        for _ in 0..len {
            let c = nd::sym8();
            nd::assume(c >= b'0' && c <= b'9');
            s.push(c);
        }
        want[k] = if len == 0 {
            if neg || !pair {
                None
            } else {
                Some(0)
            }
        } else {
            match literal(&s[at..]) {
                Some(x) if neg => Some(-x),
                x => x,
            }
        };
    }
    let ok = s.len() > 0 && want.iter().all(|x| matches!(x, Some(v) if *v >= 0));
    let t = unsafe { std::str::from_utf8_unchecked(&s) };
    if pair {
        match parse_usize_pair(t) {
            Ok((a, b)) => nd::check(ok && want[0] == Some(a as i64) && want[1] == Some(b as i64), "the sizes given"),
            Err(_) => nd::check(!ok, "sizes that are right are accepted"),
        }
    } else {
        match parse_usize(t) {
            Ok(a) => nd::check(ok && want[0] == Some(a as i64), "the size given"),
            Err(_) => nd::check(!ok, "a size that is right is accepted"),
        }
    }
}

// ---- range expressions ----

/// s, e and the constant of a sum, or nothing where the text is no such sum
#[derive(Clone, Copy)]
struct Sum {
    s: i64,
    e: i64,
    c: i64,
}
/// sums of anchors and decimal or octal constants, with signs and blanks
struct Sums<'a> {
    t: &'a [u8],
    i: usize,
}
impl<'a> Sums<'a> {
    fn blank(&mut self) {
        while self.i < self.t.len() && self.t[self.i] == b' ' {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.blank();
        if self.i < self.t.len() {
            self.t[self.i]
        } else {
            0
        }
    }
    fn word(c: u8) -> bool {
        (c >= b'0' && c <= b'9') || c == b's' || c == b'e'
    }
    fn term(&mut self) -> Option<Sum> {
        match self.peek() {
            b'-' => {
                self.i += 1;
                let x = self.term()?;
                Some(Sum { s: -x.s, e: -x.e, c: -x.c })
            }
            b'+' => {
                self.i += 1;
                self.term()
            }
            c if Self::word(c) => {
                let from = self.i;
                while self.i < self.t.len() && Self::word(self.t[self.i]) {
                    self.i += 1;
                }
                let w = &self.t[from..self.i];
                if w[0] == b's' || w[0] == b'e' {
                    if w.len() > 1 {
                        return None;
                    }
                    return Some(Sum { s: (w[0] == b's') as i64, e: (w[0] == b'e') as i64, c: 0 });
                }
                Some(Sum { s: 0, e: 0, c: literal(w)? })
            }
            _ => None,
        }
    }
    fn sum(&mut self) -> Option<Sum> {
        let mut x = self.term()?;
        loop {
            match self.peek() {
                0 => return Some(x),
                op @ (b'+' | b'-') => {
                    self.i += 1;
                    let y = self.term()?;
                    let k = if op == b'+' { 1 } else { -1 };
                    x = Sum { s: x.s + k * y.s, e: x.e + k * y.e, c: x.c + k * y.c };
                }
                _ => return None,
            }
        }
    }
}
/// the anchor (1: the end) and the offset
fn anchored(t: &[u8], empty: usize) -> Option<(usize, i64)> {
    if t.len() == 0 {
        return Some((empty, 0));
    }
    let x = Sums { t, i: 0 }.sum()?;
    match (x.s, x.e) {
        (0, 0) | (1, 0) => Some((0, x.c)),
        (0, 1) => Some((1, x.c)),
        _ => None,
    }
}
fn same_range(t: &[u8], want: Option<((usize, i64), (usize, i64))>, judged: bool) {
    let text = unsafe { std::str::from_utf8_unchecked(t) };
    nd::log(text, 0);
    let got = crate::mapper::SegmentMapper::from_str(text);
    let bits = 40;
    let at = [any_value(bits), any_value(bits)];
    let to = [any_value(bits), any_value(bits)];
    match (got, want) {
        (Ok(m), Some(((a, x), (b, y)))) => {
            let (s, e) = m.evaluate(&[at[0] as isize, at[1] as isize], &[to[0] as isize, to[1] as isize]);
            nd::trace(s as u64);
            nd::trace(e as u64);
            nd::check(!judged || s as i64 == at[a].saturating_add(x), "the start the range denotes");
            nd::check(!judged || e as i64 == to[b].saturating_add(y), "the end the range denotes");
        }
        (Ok(_), None) => nd::check(!judged, "what is not a range is refused"),
        (Err(_), w) => nd::check(!judged || w.is_none(), "a range is accepted"),
    }
    // as --cut, --slice and --lines use it
    if let Ok(m) = crate::mapper::RangeMapper::from_str(text) {
        let _ = (m.trans_offset(), m.tail_margin());
    }
}
const SPOTS: [&str; 4] = ["#..e", "s..#", "#..", "1..#-1"];
// params: arbitrary characters in the place of #, texts (of SPOTS, from, how many)
#[no_mangle]
pub extern "C" fn c23_any() {
    let k = nd::choice_in(0, nd::param(0));
    let f = SPOTS[nd::param(1) + nd::choice(nd::param(2))].as_bytes();
    let mut t = vec![];
    let mut split = 0;
    for (i, &c) in f.iter().enumerate() {
        if c != b'#' {
            t.push(c);
            continue;
        }
        for _ in 0..k {
            let x = nd::sym8();
            nd::assume((x >= b'0' && x <= b'9') || x == b's' || x == b'e' || x == b'+' || x == b'-' || x == b' ' || x == b'.' || x == b'*');
            t.push(x);
        }
    }
    let mut dots = 0;
    let mut i = 0;
    // parts are separated from the left
    while i + 1 < t.len() {
        if t[i] == b'.' && t[i + 1] == b'.' {
            if dots == 0 {
                split = i;
            }
            dots += 1;
            i += 1;
        }
        i += 1;
    }
    // products are not part of the form, and a sign in front of a sign may be refused
    let mut judged = true;
    let mut sign = true;
    for (i, &c) in t.iter().enumerate() {
        judged &= c != b'*';
        if c == b'+' || c == b'-' {
            judged &= !(sign && i > 0 && t[..i].iter().any(|&x| x == b'+' || x == b'-'));
        }
        if c != b' ' {
            sign = c == b'+' || c == b'-';
        }
    }
    let mut want = None;
    if dots == 1 {
        if let (Some(a), Some(b)) = (anchored(&t[..split], 0), anchored(&t[split + 2..], 1)) {
            want = Some((a, b));
        }
    }
    same_range(&t, want, judged);
}
// constants of any size. params: form (of FORMS), digits of the constants, hexadecimal
const FORMS: [&str; 12] = ["#..", "..#", "s+#..e-#", "e-#..e+#", "#+s..#", "-#..s-#", "#-#..e", "e+#-#..", "e-(#+1)..", "..(s)+#", "e-#-1..#", "s..-#-1+e"];
#[no_mangle]
pub extern "C" fn c23_large() {
    let f = FORMS[nd::param(0)].as_bytes();
    let mut t = vec![];
    let mut c = vec![];
    for &x in f {
        if x != b'#' {
            t.push(x);
            continue;
        }
        let n = nd::param(1);
        let mut v = 0i64;
        if nd::param(2) > 0 {
            t.extend_from_slice(b"0x");
            // the largest is 7fff ffff ffff ffff
            let full = b"7fffffffffffffff";
            for i in 0..16 {
                if i < 16 - n {
                    t.push(full[i]);
                    v = v * 16 + if i == 0 { 7 } else { 15 };
                } else {
                    let d = nd::sym8();
                    nd::assume(d >= b'a' && d <= b'f');
                    t.push(d);
                    v = v * 16 + (d - b'a') as i64 + 10;
                }
            }
        } else {
            for i in 0..n {
                let d = nd::sym8();
                nd::assume(d <= b'9' && d >= if i == 0 { b'1' } else { b'0' });
                t.push(d);
                v = v * 10 + (d - b'0') as i64;
            }
        }
        c.push(v);
    }
    // None: out of range
    let neg = |a: i64, b: i64| (-a).checked_sub(b);
    let want: Option<((usize, i64), (usize, i64))> = match nd::param(0) {
        0 => Some(((0, c[0]), (1, 0))),
        1 => Some(((0, 0), (0, c[0]))),
        2 => Some(((0, c[0]), (1, -c[1]))),
        3 => Some(((1, -c[0]), (1, c[1]))),
        4 => Some(((0, c[0]), (0, c[1]))),
        5 => Some(((0, -c[0]), (0, -c[1]))),
        6 => Some(((0, c[0] - c[1]), (1, 0))),
        7 => Some(((1, c[0] - c[1]), (1, 0))),
        8 => match c[0].checked_add(1) {
            Some(x) => Some(((1, -x), (1, 0))),
            None => None,
        },
        9 => Some(((0, 0), (0, c[0]))),
        10 => Some(((1, neg(c[0], 1).unwrap()), (0, c[1]))),
        _ => Some(((0, 0), (1, neg(c[0], 1).unwrap()))),
    };
    // sums beyond 64 bits have no value to judge
    same_range(&t, want, want.is_some());
}
