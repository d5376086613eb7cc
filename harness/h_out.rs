// Where slices go: templates of file names, the files themselves, and the copy kept for write-back.
use crate::byte::*;
use crate::drain::ScatterDrain;
use crate::eval::VarAttr;
use crate::h_segs::*;
use crate::nd;
use crate::run::*;
use crate::segment::*;
use crate::template::Template;
use crate::text::InoutFormat;
use std::collections::HashMap;

/// a format specifier of std::fmt
#[derive(Clone, Copy)]
struct Spec {
    fill: u8, // 0: none given
    align: u8,
    sign: u8,
    hash: bool,
    zero: bool,
    width: usize,
    ty: u8,
}
const PLAIN: Spec = Spec { fill: 0, align: 0, sign: 0, hash: false, zero: false, width: 0, ty: 0 };
impl Spec {
    fn text(&self, out: &mut Vec<u8>) {
        for c in [self.fill, self.align, self.sign] {
            if c != 0 {
                out.push(c);
            }
        }
        if self.hash {
            out.push(b'#');
        }
        if self.zero {
            out.push(b'0');
        }
        if self.width > 9 {
            out.push(b'1');
            out.push(b'0' + (self.width - 10) as u8);
        } else if self.width > 0 {
            out.push(b'0' + self.width as u8);
        }
        if self.ty != 0 {
            out.push(self.ty);
        }
    }
    /// what std::fmt makes of the number
    fn apply(&self, x: i64, out: &mut Vec<u8>) {
        let (base, prefix) = match self.ty {
            b'x' | b'X' => (16u64, b'x'),
            b'o' => (8, b'o'),
            b'b' => (2, b'b'),
            _ => (10, 0),
        };
        let neg = base == 10 && x < 0;
        let mut u = if neg { (x as u64).wrapping_neg() } else { x as u64 };
        let mut digits = vec![];
        loop {
            let d = (u % base) as u8;
            u /= base;
            let letter = if self.ty == b'X' { b'A' - 10 } else { b'a' - 10 };
            digits.push(d + if d < 10 { b'0' } else { letter });
            if u == 0 {
                break;
            }
        }
        let mut head = vec![];
        if neg {
            head.push(b'-');
        } else if self.sign == b'+' {
            head.push(b'+');
        }
        if self.hash && base != 10 {
            head.push(b'0');
            head.push(prefix);
        }
        let have = head.len() + digits.len();
        let pad = if self.width > have { self.width - have } else { 0 };
        let fill = if self.fill == 0 { b' ' } else { self.fill };
        let left = match (self.zero, self.align) {
            (true, _) => 0,
            (_, b'<') => 0,
            (_, b'^') => pad / 2,
            _ => pad,
        };
        out.resize(out.len() + left, fill);
        out.extend_from_slice(&head);
        if self.zero {
            out.resize(out.len() + pad, b'0');
        }
        for &d in digits.iter().rev() {
            out.push(d);
        }
        if !self.zero {
            out.resize(out.len() + pad - left, fill);
        }
    }
}
/// any of these, kept symbolic
fn pick(l: &[u8]) -> u8 {
    let x = nd::sym8();
    let mut ok = false;
    for &c in l {
        ok |= x == c;
    }
    nd::assume(ok);
    x
}
/// bits of `kinds` 1: types, 2: widths and zeros, 4: fill and alignment, 8: signs, 16: prefixes
fn any_spec(kinds: usize) -> Spec {
    let mut s = PLAIN;
    if kinds & 1 != 0 && nd::choice(2) > 0 {
        s.ty = pick(b"dxXbo");
    }
    if kinds & 4 != 0 {
        match nd::choice(3) {
            0 => {}
            1 => s.align = pick(b"<^>"),
            _ => {
                s.align = pick(b"<^>");
                s.fill = pick(b" *:0<n");
            }
        }
    }
    if kinds & 8 != 0 && nd::choice(2) > 0 {
        s.sign = pick(b"+-");
    }
    if kinds & 16 != 0 {
        s.hash = nd::choice(2) > 0;
    }
    if kinds & 2 != 0 {
        match nd::choice(3) {
            0 => {}
            1 => s.width = (pick(b"123456789") - b'0') as usize,
            _ => s.width = 10 + (pick(b"0123") - b'0') as usize,
        }
        s.zero = s.width > 0 && s.align == 0 && nd::choice(2) > 0;
    }
    s
}
impl Spec {
    fn settle(&mut self) {
        for c in [&mut self.fill, &mut self.align, &mut self.sign, &mut self.ty] {
            *c = nd::conc(*c as usize) as u8;
        }
        self.width = nd::conc(self.width);
    }
}
const EXPRS: [&str; 9] = ["n", "l", "(n)", "(n - 7)", "(l+1)", "(2 * n + l)", "(n & 0x0f)", "(0 - n)", "(n / 4)"];
fn value(k: usize, n: i64, l: i64) -> i64 {
    match k {
        0 | 2 => n,
        1 => l,
        3 => n - 7,
        4 => l + 1,
        5 => 2 * n + l,
        6 => n & 15,
        7 => -n,
        _ => n / 4,
    }
}
fn names() -> HashMap<&'static [u8], VarAttr> {
    let mut m: HashMap<&[u8], VarAttr> = HashMap::new();
    m.insert(b"n", VarAttr { is_array: false, id: 0 });
    m.insert(b"l", VarAttr { is_array: false, id: 1 });
    m
}
fn utf8(v: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(v) }
}
const BASES: [i64; 6] = [0, 95, 250, 65530, 999_999_990, 0x7fff_ffff_ffff_0000];
const TEXTS: [&str; 5] = ["", "a", "x-1", "\u{e9}", "}"];

// params: variables, literal texts between them (of TEXTS), expressions (of EXPRS, from, how many), kinds of specifiers,
// arbitrary low bits of n and l, bases (of BASES, from, how many)
#[no_mangle]
pub extern "C" fn c24_render() {
    let k = nd::param(0);
    let base = BASES[nd::param(6) + nd::choice(nd::param(7))];
    let bits = nd::param(5) as u32;
    let any = || if bits == 0 { base } else { base + nd::sym(bits) as i64 };
    let (n, l) = (any(), any());
    let mut t = vec![];
    let mut parts = vec![];
    for i in 0..=k {
        let f = TEXTS[nd::choice(nd::param(1))];
        // a closing brace is a literal where no brace is open
        t.extend_from_slice(f.as_bytes());
        if i == k {
            parts.push((f, 0, PLAIN));
            break;
        }
        let e = nd::param(2) + nd::choice(nd::param(3));
        let s = any_spec(nd::param(4));
        t.push(b'{');
        t.extend_from_slice(EXPRS[e].as_bytes());
        let at = t.len();
        t.push(b':');
        s.text(&mut t);
        if t.len() == at + 1 && nd::choice(2) == 0 {
            t.pop();
        }
        t.push(b'}');
        parts.push((f, e, s));
    }
    let vars = names();
    let tpl = match Template::from_str(utf8(&t), Some(&vars)) {
        Ok(x) => x,
        Err(_) => nd::fail("a template of the documented form is accepted"),
    };
    nd::check(tpl.has_variable() == (k > 0), "whether there is anything to fill in");
    let mut want = vec![];
    for (i, (f, e, mut s)) in parts.into_iter().enumerate() {
        want.extend_from_slice(f.as_bytes());
        if i < k {
            s.settle();
            s.apply(value(e, n, l), &mut want);
        }
    }
    nd::log(utf8(&t), 0);
    match tpl.render(|id, _| if id == 0 { n } else { l }) {
        Ok(s) => nd::check_same(s.as_bytes(), &want, "literal text, and values as std::fmt formats them"),
        Err(_) => nd::fail("a template of the documented form renders"),
    }
}

// a template with any characters between the braces
// params: how many
#[no_mangle]
pub extern "C" fn c24_any() {
    let k = nd::param(0);
    let mut c = vec![];
    for _ in 0..k {
        let x = nd::sym8();
        nd::assume(x >= b' ' && x < 0x7f && x != b'}');
        c.push(x);
    }
    let mut t = b"f{".to_vec();
    t.extend_from_slice(&c);
    t.extend_from_slice(b"}g");
    let n = 0x1fi64;
    let l = 7i64;
    // what stands before the colon, and after
    let mut cut = k;
    for i in (0..k).rev() {
        if c[i] == b':' {
            cut = i;
        }
    }
    let name = &c[..cut];
    let vars = names();
    let got = Template::from_str(utf8(&t), Some(&vars));
    let letter = |x: u8| (x >= b'a' && x <= b'z') || (x >= b'A' && x <= b'Z');
    let paren = cut >= 2 && name[0] == b'(' && name[cut - 1] == b')';
    let known = cut == 1 && (name[0] == b'n' || name[0] == b'l');
    let plain = name.iter().all(|&x| letter(x));
    if !plain && !paren || plain && !known {
        nd::check(got.is_err(), "what is neither a variable nor an expression in parentheses is refused");
        return;
    }
    // expressions of one character
    let x = if known || cut == 3 && (name[1] == b'n' || name[1] == b'l') {
        let c = if known { name[0] } else { name[1] };
        if c == b'n' {
            n
        } else {
            l
        }
    } else if cut == 3 && name[1] >= b'0' && name[1] <= b'9' {
        (name[1] - b'0') as i64
    } else {
        // other expressions: only that nothing breaks
        if let Ok(t) = got {
            let _ = t.render(|_, _| 1);
        }
        return;
    };
    let mut s = PLAIN;
    let spec = if cut < k { &c[cut + 1..] } else { &c[k..] };
    let ty = |x: u8| x == b'd' || x == b'x' || x == b'X' || x == b'b' || x == b'o';
    let mut judged = true;
    if spec.len() == 1 {
        match spec[0] {
            x if ty(x) => s.ty = x,
            x if x >= b'1' && x <= b'9' => s.width = (x - b'0') as usize,
            b'#' => s.hash = true,
            b'+' => s.sign = b'+',
            b'-' | b'<' | b'^' | b'>' => {}
            x if letter(x) && x != b'v' => {
                nd::check(got.is_err(), "a type that std::fmt does not know is refused");
                return;
            }
            _ => judged = false,
        }
    } else {
        judged = spec.len() == 0;
    }
    match got {
        Ok(t) => match t.render(|id, _| if id == 0 { n } else { l }) {
            Ok(r) => {
                if judged {
                    let mut want = vec![b'f'];
                    s.apply(x, &mut want);
                    want.push(b'g');
                    nd::check_same(r.as_bytes(), &want, "literal text, and values as std::fmt formats them");
                }
            }
            Err(_) => nd::check(!judged, "a template of the documented form renders"),
        },
        Err(_) => nd::check(!judged, "a template of the documented form is accepted"),
    }
}

const TEMPLATES: [&str; 7] = ["out", "o{l}", "o{n}", "o{(l & 1)}", "o{(n / 2):02x}", "-", ""];
fn route(k: usize, n: usize, l: usize) -> Option<String> {
    let mut v = b"o".to_vec();
    let mut s = PLAIN;
    match k {
        0 => return Some("out".to_string()),
        1 => s.apply(l as i64, &mut v),
        2 => s.apply(n as i64, &mut v),
        3 => s.apply((l & 1) as i64, &mut v),
        4 => {
            s.zero = true;
            s.width = 2;
            s.ty = b'x';
            s.apply(n as i64 / 2, &mut v)
        }
        _ => return None,
    }
    Some(utf8(&v).to_string())
}
// params: length, slices, longest slice, template (of TEMPLATES), delivery, earlier content of the files (bytes, 9: none), format (0 b, 1 x)
#[no_mangle]
pub extern "C" fn c25_scatter() {
    let d = data(nd::param(0));
    let src = layout(nd::param(1), d.len(), nd::param(2), false);
    let k = nd::param(3);
    // what each file should hold
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let mut shown = vec![];
    let old = nd::param(5);
    for (i, &(p, len)) in src.iter().enumerate() {
        let mut s = vec![];
        crate::h_format::describe(if nd::param(6) > 0 { 0 } else { 2 }, p, &d[p..p + len], 16, &mut s);
        match route(k, p, i) {
            None => shown.extend_from_slice(&s),
            Some(f) => match files.iter_mut().find(|x| x.0 == f) {
                Some(x) => x.1.extend_from_slice(&s),
                None => files.push((f, s)),
            },
        }
    }
    if old < 9 {
        for (f, _) in &files {
            nd::file(f, &vec![b'#'; old]);
        }
        nd::file("other", b"##");
    }
    let src = Box::new(Mock::new(&d, &src, nd::param(4)));
    let out = match ScatterDrain::new(src, TEMPLATES[k], &InoutFormat::from_str(["b", "x"][nd::param(6)]).unwrap()) {
        Ok(x) => drain(Box::new(x)),
        Err(_) => nd::fail("a template of the documented form is accepted"),
    };
    match out {
        Ok(x) => nd::check_same(&x, &shown, "standard output gets the slices that no file takes"),
        Err(_) => nd::fail("a run that meets no error succeeds"),
    }
    for (f, want) in &files {
        match nd::read_file(f) {
            Some(x) => nd::check_same(&x, want, "a file holds the slices routed to it, in order, and nothing else"),
            None => nd::fail("a file a slice is routed to is there"),
        }
    }
    if old < 9 {
        nd::check(nd::read_file("other").unwrap() == b"##", "no other file is touched");
    }
}

// The copy of a stream, with steps of the producer and of the reader in any order.
// params: length, steps, delivery, requests, how the reader consumes (0 all, 1 any), most consumed at a time
#[no_mangle]
pub extern "C" fn c26_tee() {
    let n = nd::choice_in(0, nd::param(0));
    let d = nd::bytes(n);
    let mut tee = TeeStream::new(Box::new(Chunky::new(&d, nd::param(2))));
    let mut reader = tee.spawn_reader();
    let mut put = 0; // consumed from the stream
    let mut got = 0; // consumed from the copy
    let mut have = 0;
    let reqs = [1, 3, 9];
    for _ in 0..nd::param(1) {
        if nd::choice(2) == 0 {
            let (_, k) = match tee.fill_buf(reqs[nd::choice(nd::param(3))]) {
                Ok(x) => x,
                Err(_) => nd::fail("a valid stream ends in an error"),
            };
            nd::check(nd::same(&tee.as_slice()[..k], &d[put..put + k]), "the stream itself passes unchanged");
            let most = std::cmp::min(k, nd::param(5));
            let k = if nd::param(5) == 0 { k } else { nd::choice_in(0, most) };
            tee.consume(k);
            put += k;
        } else {
            let (eof, k) = match reader.fill_buf(reqs[nd::choice(nd::param(3))]) {
                Ok(x) => x,
                Err(_) => nd::fail("a valid stream ends in an error"),
            };
            nd::check(k >= have, "what was presented stays there until consumed");
            nd::check(got + k <= put, "the copy has no more than went through");
            nd::check(nd::same(&reader.as_slice()[..k], &d[got..got + k]), "the copy has the bytes that went through");
            nd::check(!eof || got + k == put, "the copy pauses only where everything is there");
            let c = if nd::param(4) == 0 { k } else { nd::choice_in(0, k) };
            reader.consume(c);
            got += c;
            have = k - c;
        }
    }
    // the producer ends, and the reader takes the rest
    loop {
        let (eof, k) = tee.fill_buf(1).unwrap();
        if eof && k == 0 {
            break;
        }
        tee.consume(k);
        put += k;
    }
    nd::check(put == n, "the stream itself passes unchanged");
    loop {
        let (eof, k) = match reader.fill_buf(1) {
            Ok(x) => x,
            Err(_) => nd::fail("a valid stream ends in an error"),
        };
        nd::check(got + k <= n, "the copy has no more than went through");
        nd::check(nd::same(&reader.as_slice()[..k], &d[got..got + k]), "the copy has the bytes that went through");
        if eof && k == 0 {
            break;
        }
        reader.consume(k);
        got += k;
    }
    nd::check(got == n, "all bytes are handed over");
    nd::trace(got as u64);
}
