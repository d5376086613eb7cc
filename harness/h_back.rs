// --patch-back: a command next to the thread that feeds it, in every order of their steps.
use crate::fakestd::process::{program, Program, PROGRAM};
use crate::fakestd::sched;
use crate::h_format::describe;
use crate::h_segs::data;
use crate::h_text::{line, Record};
use crate::nd;
use crate::refm;
use crate::run::*;
use std::io::Read;

// a source that fails after its data
struct Failing {
    src: nd::Src,
    fails: bool,
}
impl Read for Failing {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.src.read(buf)?;
        if n == 0 && !buf.is_empty() && self.fails {
            return Err(std::io::Error::from(std::io::ErrorKind::InvalidData));
        }
        Ok(n)
    }
}

const SLICERS: [&[&str]; 8] = [
    &["-w", "3"],
    &["-r", "1..4"],
    &["-w", "2", "-l", "1..2"],
    &["-r", "..e"],
    &["-k", "b[0]"],
    &["-w", "2,1..2", "-f", "b"],
    &["-r", "2..3", "-x", "s-1..e+1", "-f", "ddx"],
    &["-r", "e-1..e", "-v", "s..e", "-n", "1.."],
];
fn r(a: i64, b: i64) -> (refm::End, refm::End) {
    (refm::End { tail: false, off: a }, refm::End { tail: false, off: b })
}
fn slices(k: usize, d: &[u8]) -> Option<Vec<(usize, usize)>> {
    let n = d.len();
    let whole = refm::ALL;
    Some(match k {
        0 => refm::width(n, 3, whole.0, whole.1),
        1 => refm::slice(n, &[r(1, 4)]),
        2 => refm::lines(&refm::width(n, 2, whole.0, whole.1), &[r(1, 2)]),
        3 => refm::slice(n, &[whole]),
        4 => {
            let (s, ok) = refm::walk(d, 0);
            if !ok {
                return None;
            }
            s
        }
        5 => refm::width(n, 2, r(1, 2).0, r(1, 2).1),
        6 => refm::extend(&refm::slice(n, &[r(2, 3)]), n, &[(r(-1, 0).0, refm::End { tail: true, off: 1 })]),
        _ => {
            let last = (refm::End { tail: true, off: -1 }, whole.1);
            refm::invert(&refm::slice(n, &[last]), n, &[whole])
        }
    })
}

// params: length from, to, options (of SLICERS), what the command does (0 cat, 1 reads all and then prints, 2 prints
// first, 3 stops reading, 4 is not there), records, longest record, array, room in its output, switches, how the
// stream is read, 1: reading fails in the end, symbolic bytes
#[no_mangle]
pub extern "C" fn c27_back() {
    let n = nd::choice_in(nd::param(0), nd::param(1));
    let mut bytes = nd::bytes(std::cmp::min(n, nd::param(11)));
    for i in bytes.len()..n {
        bytes.push(b"12 \n|3a\x01"[i % 8]);
    }
    let opts = nd::param(2);
    let kind = nd::param(3);
    // the stream before slicing
    let d = if opts == 7 && n > 0 { bytes[1..].to_vec() } else { bytes.clone() };
    let mut recs: Vec<Record> = vec![];
    let mut text = vec![];
    if kind > 0 {
        let k = nd::choice_in(0, nd::param(4));
        let mut at = 0;
        for i in 0..k {
            at += nd::choice(3);
            let l = nd::choice_in(if i == 0 { 0 } else { 1 }, nd::param(5));
            let a = vec![b'A' + i as u8; nd::choice_in(if l == 0 { 1 } else { 0 }, nd::param(6))];
            let x = (at, l, a);
            line(&x, 1, false, true, &mut text);
            recs.push(x);
            at += l;
        }
    }
    let stops = if kind == 3 { nd::choice_in(0, 40) } else { usize::MAX };
    unsafe {
        PROGRAM = Some(Program {
            given: vec![],
            input: false,
            reads: stops,
            text,
            cat: kind == 0,
            early: kind == 2,
            room: nd::param(7),
            printed: 0,
            pipe: vec![],
            taken: 0,
            waited: false,
            starts: kind != 4,
        });
    }
    sched::start(nd::param(8));
    let fails = nd::param(10) > 0 && nd::choice(2) > 0;
    let mut args = vec!["-P", "command"];
    args.extend_from_slice(SLICERS[opts]);
    let p = pipeline(&args).unwrap();
    let source = Failing { src: nd::Src::new(&bytes, nd::param(9)), fails };
    let out = match p.spawn_stream(vec![Box::new(source)]) {
        Ok(x) => drain(x),
        Err(e) => Err(e),
    };
    let want = slices(opts, &d);
    if kind == 4 || fails || want.is_none() {
        nd::check(out.is_err(), "a run that cannot be completed ends in an error");
        return;
    }
    let out = match out {
        Ok(x) => x,
        Err(_) => nd::fail("a run that meets no error succeeds"),
    };
    // what the command was given
    let sig = if opts == 5 { 2 } else { (opts == 6) as usize };
    let cols = [3, 0, 2, 0, 0, 1, 16, 0][opts];
    let mut fed = vec![];
    for &(p, l) in &want.unwrap() {
        describe(sig, p, &d[p..p + l], cols, &mut fed);
    }
    let given = &program().given;
    if kind == 3 {
        nd::check(given.len() == std::cmp::min(stops, fed.len()), "the command is given what it reads");
        nd::check(nd::same(given, &fed[..given.len()]), "the command is given the slices");
    } else {
        nd::check_same(given, &fed, "the command is given the slices and nothing else");
    }
    if kind == 0 {
        nd::check_same(&out, &d, "the slices put back where they were leave the stream as it was");
    } else {
        nd::check_same(&out, &refm::patch(&d, &recs), "the stream is patched with what the command prints");
    }
}
