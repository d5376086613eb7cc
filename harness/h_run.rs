// nd as a whole: main() on files, standard streams and arguments in memory
use crate::fakefs::*;
use crate::nd;
use crate::run::{drain, pipeline, sources};

// what is done to the files, without --inplace itself
const EDITS: [&[&str]; 8] = [
    &[],
    &["-a", "1,2"],
    &["-n", "1..3,e-1.."],
    &["-w", "2", "-f", "b"],
    &["-w", "3,s..s+1"],
    &["-p", "p.txt"],
    &["-f", "x"],
    &["-F", "x"],
];
// what a pipeline makes of one file
fn result(edit: &[&str], d: &[u8]) -> Option<Vec<u8>> {
    let mut a = vec!["-i"];
    a.extend_from_slice(edit);
    let p = pipeline(&a).ok()?;
    drain(p.spawn_stream(sources(&[d.to_vec()], 0)).ok()?).ok()
}
// files named on the command line, in any order, some of them more than once
const NAMES: [&[&str]; 9] = [
    &["a"],
    &["a", "a"],
    &["b", "a"],
    &["a", "b", "a"],
    &["a", "a.tmp"],
    &["a.tmp", "a"],
    &["b", "a.tmp", "a", "b"],
    &["a", "missing"],
    &["a", "-"],
];
/// --inplace: every file is replaced by what the pipeline makes of it, or is as it was
// params: edits (from, to), names (from, to), length (from, to), operations that fail, 1: stopped anywhere,
//         bytes per read, 1: short writes
#[no_mangle]
pub extern "C" fn c28_inplace() {
    let edit = EDITS[nd::choice_in(nd::param(0), nd::param(1))];
    let names = NAMES[nd::choice_in(nd::param(2), nd::param(3))];
    let n = nd::choice_in(nd::param(4), nd::param(5));
    new_world();
    // text that is parsed, well formed or not
    let text = ["1 1 | 61\n", "0 2 | 61 62", "x", "0 1 | 6"];
    let text = if edit.contains(&"-F") { Some(text[nd::choice(text.len())].as_bytes().to_vec()) } else { None };
    let bytes = |n: usize| text.clone().unwrap_or_else(|| nd::bytes(n));
    let files = [("a", bytes(n)), ("b", text.as_ref().map_or_else(|| nd::bytes(2), |_| b"1 1 | 62\n".to_vec())), ("a.tmp", bytes(1)), ("other", b"o".to_vec())];
    for (k, d) in &files {
        world().put(k, d);
    }
    // the patch is read by the pipeline that is compared with, too, from the place it opens files in
    world().put("p.txt", b"1 1 | 70 71\n");
    world().faults = 0;
    let expect: Vec<Option<Vec<u8>>> = files.iter().map(|x| result(edit, &x.1)).collect();
    let w = world();
    w.faults = nd::param(6);
    w.kills = nd::param(7);
    w.chunk = nd::param(8);
    w.short = nd::param(9) > 0;
    let mut a = edit.to_vec();
    a.push("-i");
    a.extend_from_slice(names);
    let code = run(&a);
    let w = world();
    nd::trace(code.map_or(9, |x| x as u64));
    let good = w.failed.is_none() && code.is_some() && !names.contains(&"missing") && !names.contains(&"-");
    nd::cover(if good { 0 } else if code.is_none() { 1 } else { 2 });
    // one that cannot be edited ends the run
    let all = files.iter().enumerate().all(|(k, x)| !names.contains(&x.0) || expect[k].is_some());
    for (k, (name, d)) in files.iter().enumerate() {
        let got = match w.get(name) {
            Some(x) => x,
            None => nd::fail("a file is gone"),
        };
        let named = names.contains(name);
        // the original bytes, or all of the result
        let original = nd::same(got, d);
        let done = named && expect[k].as_ref().map_or(false, |e| nd::same(got, e));
        if named && names.contains(&"-") {
            nd::check(original, "nothing is edited when stdin is to be edited in place");
        }
        if !named {
            nd::check(original, "a file that is not named keeps its content");
        } else {
            nd::check(original | done, "a file holds its original bytes or the whole result");
            if good && all {
                nd::check(done, "a file holds the result after a run without errors");
            }
        }
    }
    nd::check(code != Some(0) || w.failed.is_none(), "a run with an error does not end as if there were none");
    if good {
        nd::check((code == Some(0)) == all, "a run succeeds when the files can be edited");
    } else {
        nd::check(code != Some(0), "a run with an error does not succeed");
    }
    if code == Some(0) {
        nd::check(w.names.len() == files.len() + 1, "no other file is left behind");
    }
}

/// stdin is used at most once
// params: inputs up to, form of the option
#[no_mangle]
pub extern "C" fn c31_stdin() {
    const I: [&str; 3] = ["a", "-", "/dev/stdin"];
    new_world();
    world().put("a", b"61");
    world().put("/dev/stdin", b"31");
    world().stdin = b"0 1 | 31\n".to_vec();
    let mut a = vec![];
    let mut used = 0;
    for o in ["-p", "-g"] {
        let k = nd::choice(4);
        if k > 0 {
            a.push(o);
            a.push(I[k - 1]);
            used += (k > 1) as usize;
        }
    }
    let mut inplace = false;
    if nd::choice(2) == 1 {
        a.push("-i");
        inplace = true;
    }
    let n = nd::choice(nd::param(0) + 1);
    for _ in 0..n {
        let k = nd::choice(3);
        a.push(I[k]);
        used += (k > 0) as usize;
    }
    let file = a.iter().any(|x| *x == "a");
    let code = run(&a);
    nd::trace(code.map_or(9, |x| x as u64));
    let w = world();
    if used > 1 {
        nd::check(code == Some(1), "stdin is used at most once");
        nd::check(w.out.is_empty() && w.stdin_used == 0, "nothing is read or written before the options are checked");
        nd::check(nd::same(w.get("a").unwrap(), b"61"), "no file is edited before the options are checked");
    }
    let _ = (file, inplace);
}

const RUNS: [(&[&str], &[&str]); 14] = [
    (&[], &["a"]),
    (&[], &[]),
    (&["-w", "2"], &["a", "b"]),
    (&["-z", "2", "-f", "b"], &["a", "b"]),
    (&["-p", "p.txt", "-f", "b"], &["a"]),
    (&["-g", "p.txt"], &["-"]),
    (&["-o", "out.txt"], &["a"]),
    (&["-w", "2", "-o", "o{l}"], &["a"]),
    (&["-w", "2", "-m", "0", "-l", "..1"], &["b", "-"]),
    (&["-F", "x", "-f", "b"], &["t"]),
    (&["-r", "1..2", "-v", "s..e"], &["missing", "a"]),
    (&["-F", "x"], &["bad"]),
    (&["-p", "bad"], &["b", "a"]),
    (&["-w", "4", "--pager", "less -S"], &["a", "b"]),
];
/// an operation that fails makes the run fail, and what is written before is a part of the output
// params: runs (from, to), length (from, to), operations that fail, bytes per read, 1: short writes
#[no_mangle]
pub extern "C" fn c35_faults() {
    let k = nd::choice_in(nd::param(0), nd::param(1));
    let (options, names) = RUNS[k];
    let n = nd::choice_in(nd::param(2), nd::param(3));
    new_world();
    let w = world();
    let a = nd::bytes(n);
    let b = nd::bytes(2);
    let input = nd::bytes(3);
    w.put("a", &a);
    w.put("b", &b);
    w.put("t", b"1 1 | 70\n");
    w.put("bad", b"0 1 | 70\n1 1 | 7\n");
    w.put("p.txt", b"1 1 | 70\n");
    w.stdin = input.clone();
    // the output of the pipeline
    let mut d = vec![];
    for name in names {
        match *name {
            "a" => d.push(a.clone()),
            "b" => d.push(b.clone()),
            "t" => d.push(b"1 1 | 70\n".to_vec()),
            "-" => d.push(input.clone()),
            _ => (),
        }
    }
    if names.is_empty() {
        d.push(input.clone());
    }
    let paged = options.contains(&"--pager");
    let options1 = if paged { &options[..2] } else { options };
    let ok = !names.contains(&"missing") && !names.contains(&"bad") && !options.contains(&"bad");
    let expect = if ok { drain(pipeline(options1).unwrap().spawn_stream(sources(&d, 0)).unwrap()).unwrap() } else { vec![] };
    // the pager may stop reading at any place
    let reads = if paged { [9999, 0, 1, 70][nd::choice(4)] } else { 0 };
    unsafe {
        process::PROGRAM = Some(process::Program {
            given: vec![],
            input: false,
            reads,
            text: vec![],
            cat: false,
            early: false,
            room: 1,
            printed: 0,
            pipe: vec![],
            taken: 0,
            waited: false,
            starts: !paged || nd::choice(4) > 0,
        });
    }
    let starts = process::program().starts;
    let files: Vec<(String, Vec<u8>)> = world().names.iter().map(|x| (x.0.clone(), world().nodes[x.1].data.clone())).collect();
    for x in ["out.txt", "o0", "o1", "o2", "o3"] {
        world().names.retain(|y| y.0 != x);
    }
    let w = world();
    w.faults = nd::param(4);
    w.chunk = nd::param(5);
    w.short = nd::param(6) > 0;
    let mut args = options.to_vec();
    args.extend_from_slice(names);
    let code = run(&args);
    let w = world();
    nd::trace(code.map_or(9, |x| x as u64));
    nd::trace(w.ops as u64);
    nd::cover(if w.failed.is_none() { 1 } else { 2 });
    if paged {
        nd::check(w.out.is_empty(), "the pager takes the output");
        w.out = process::program().given.clone();
        nd::check(process::program().waited || !starts || reads < 9999 || code != Some(0), "the pager is waited for");
    }
    let part = !ok || w.out.len() <= expect.len() && nd::same(&w.out, &expect[..w.out.len()]);
    nd::check(part, "what is output is the beginning of the output");
    if w.failed.is_none() && ok && starts {
        nd::check(code == Some(0), "a run without errors succeeds");
        // a pager that has seen enough is not an error
        nd::check(w.out.len() == if paged { std::cmp::min(reads, expect.len()) } else { expect.len() }, "a run that succeeds has output everything");
        for (name, d) in &files {
            nd::check(w.get(name).map_or(false, |x| nd::same(x, d)), "a run that succeeds has written its files");
        }
    } else {
        nd::check(code == Some(1), "a run with an error fails");
    }
}
