mod exec;
mod expr;
mod ext;
mod ir;
mod mem;
mod selftest;
mod z3;

use exec::*;
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

type Job = (Vec<Dec>, HashMap<(u32, u32, u8), u64>);
struct Shared {
    queue: Mutex<VecDeque<Job>>,
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    viols: AtomicUsize,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn inputs_json(v: &[(u32, u64)]) -> String {
    format!("[{}]", v.iter().map(|(w, x)| format!("[{},{}]", w, x)).collect::<Vec<_>>().join(","))
}
fn nums(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("selftest") {
        std::process::exit(selftest::run(args.get(2).and_then(|s| s.parse().ok()).unwrap_or(20000)));
    }
    let opt = |k: &str| -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) };
    let ll = opt("--ll").expect("--ll FILE");
    let entry = opt("--entry").expect("--entry NAME");
    let jobs: usize = opt("--jobs").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = opt("--time").and_then(|s| s.parse().ok()).unwrap_or(60.0);
    let out = opt("--out");
    let params: Vec<i64> = opt("--params").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let cfg = Config {
        params,
        steps: opt("--steps").and_then(|s| s.parse().ok()).unwrap_or(30_000_000),
        timeout_ms: opt("--qtime").and_then(|s| s.parse().ok()).unwrap_or(20_000),
        sample_every: opt("--sample-every").and_then(|s| s.parse().ok()).unwrap_or(50),
        max_samples: opt("--samples").and_then(|s| s.parse().ok()).unwrap_or(20),
        max_viol: opt("--max-viol").and_then(|s| s.parse().ok()).unwrap_or(3),
        stub_format: args.iter().any(|a| a == "--stub-format"),
        avx2: false,
    };
    let t0 = Instant::now();
    let text = match std::fs::read(&ll) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", ll, e);
            std::process::exit(2);
        }
    };
    let mut m = match ir::Module::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("parse: {}", e);
            std::process::exit(2);
        }
    };
    drop(text);
    let (ext, fstub) = resolve(&mut m, &cfg);
    let tparse = t0.elapsed().as_secs_f64();
    let ent = match m.fmap.get(&entry) {
        Some(&e) if m.funcs[e as usize].defined => e,
        _ => {
            eprintln!("no function {}", entry);
            std::process::exit(2);
        }
    };
    let m = Arc::new(m);
    let (ext, fstub) = (Arc::new(ext), Arc::new(fstub));
    let t1 = Instant::now();
    let deadline = t1 + Duration::from_secs_f64(secs);
    let sh = Arc::new(Shared {
        queue: Mutex::new(VecDeque::from(vec![(vec![], HashMap::new())])),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        viols: AtomicUsize::new(0),
    });
    let left = Arc::new(AtomicUsize::new(0));
    let results = Arc::new(Mutex::new(vec![]));
    let mut hs = vec![];
    for _ in 0..jobs {
        let (m, ext, fstub, sh, cfg, results, left) = (m.clone(), ext.clone(), fstub.clone(), sh.clone(), cfg.clone(), results.clone(), left.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let mut x = Exec::new(m, ext, fstub, cfg.clone(), ent);
                    let init = match x.initial() {
                        Ok(s) => s,
                        Err(e) => {
                            eprintln!("init: {}", e);
                            std::process::exit(2);
                        }
                    };
                    'outer: loop {
                        // take a job
                        let job = {
                            let mut q = sh.queue.lock().unwrap();
                            sh.idle.fetch_add(1, Ordering::SeqCst);
                            loop {
                                if let Some(j) = q.pop_front() {
                                    sh.idle.fetch_sub(1, Ordering::SeqCst);
                                    break j;
                                }
                                if sh.idle.load(Ordering::SeqCst) == jobs || sh.stop.load(Ordering::SeqCst) {
                                    sh.stop.store(true, Ordering::SeqCst);
                                    sh.cv.notify_all();
                                    break 'outer;
                                }
                                q = sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                            }
                        };
                        let mut st = init.clone();
                        st.replay = job.0.into_iter().collect();
                        st.hints = std::rc::Rc::new(job.1);
                        x.pending.push_back(st);
                        while let Some(st) = x.pending.pop_back() {
                            if Instant::now() > deadline || sh.stop.load(Ordering::SeqCst) {
                                left.fetch_add(1 + x.pending.len(), Ordering::SeqCst);
                                x.pending.clear();
                                break;
                            }
                            x.explore_one(st, deadline);
                            if x.viols.len() >= cfg.max_viol {
                                sh.viols.fetch_add(1, Ordering::SeqCst);
                                left.fetch_add(x.pending.len(), Ordering::SeqCst);
                                x.pending.clear();
                                sh.stop.store(true, Ordering::SeqCst);
                                break;
                            }
                            if x.pending.len() > 1 && sh.idle.load(Ordering::SeqCst) > 0 {
                                let mut q = sh.queue.lock().unwrap();
                                if q.len() < sh.idle.load(Ordering::SeqCst) {
                                    // the oldest pending state stands for the largest subtree
                                    let o = x.pending.pop_front().unwrap();
                                    q.push_back(x.export(&o));
                                    sh.cv.notify_one();
                                }
                            }
                        }
                    }
                    let mut r = results.lock().unwrap();
                    r.push((
                        x.stats.clone(),
                        x.viols.clone(),
                        x.samples.clone(),
                        x.seen_fn.clone(),
                        (x.z3.queries, x.z3.sat, x.z3.unsat, x.z3.unknown, x.z3.time.as_secs_f64()),
                        x.ar.nodes.len(),
                    ));
                    std::mem::forget(x);
                    std::mem::forget(init);
                })
                .unwrap(),
        );
    }
    for h in hs {
        if h.join().is_err() {
            eprintln!("worker failed");
            std::process::exit(2);
        }
    }
    let rs = results.lock().unwrap();
    let mut s = Stats::default();
    let (mut q, mut sat, mut uns, mut unk, mut zt) = (0, 0, 0, 0, 0.0);
    let mut viols = vec![];
    let mut samples = vec![];
    let mut seen = vec![false; m.funcs.len()];
    let mut nodes = 0;
    for (a, v, sm, f, z, n) in rs.iter() {
        s.done += a.done;
        s.infeasible += a.infeasible;
        s.panics_allowed += a.panics_allowed;
        s.violations += a.violations;
        s.steps += a.steps;
        s.forks += a.forks;
        s.branches += a.branches;
        s.unary += a.unary;
        s.small += a.small;
        s.asserts_folded += a.asserts_folded;
        s.asserts_proved += a.asserts_proved;
        s.oob_queries += a.oob_queries;
        s.cache_hits += a.cache_hits;
        s.max_steps = s.max_steps.max(a.max_steps);
        s.cover |= a.cover;
        for (k, n) in &a.unsupported {
            *s.unsupported.entry(k.clone()).or_default() += n;
        }
        for (k, n) in &a.unknown {
            *s.unknown.entry(k.clone()).or_default() += n;
        }
        viols.extend(v.iter().cloned());
        samples.extend(sm.iter().cloned());
        for i in 0..seen.len() {
            seen[i] |= f[i];
        }
        q += z.0;
        sat += z.1;
        uns += z.2;
        unk += z.3;
        zt += z.4;
        nodes += n;
    }
    let left = left.load(Ordering::SeqCst);
    let complete = left == 0 && s.unsupported.is_empty() && s.unknown.is_empty();
    samples.truncate(cfg.max_samples);
    let map = |b: &std::collections::BTreeMap<String, u64>| {
        format!("{{{}}}", b.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","))
    };
    let fns: Vec<String> = (0..seen.len()).filter(|&i| seen[i]).map(|i| format!("\"{}\"", esc(&m.funcs[i].name))).collect();
    let vj: Vec<String> = viols
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":\"{}\",\"msg\":\"{}\",\"loc\":\"{}\",\"uninit\":{},\"stack\":[{}],\"inputs\":{},\"trace\":{}}}",
                esc(&v.kind),
                esc(&v.msg),
                esc(&v.loc),
                v.uninit,
                v.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
                inputs_json(&v.inputs),
                nums(&v.trace)
            )
        })
        .collect();
    let sj: Vec<String> = samples
        .iter()
        .map(|v| format!("{{\"inputs\":{},\"trace\":{},\"uninit\":{},\"panicked\":{}}}", inputs_json(&v.inputs), nums(&v.trace), v.uninit, v.panicked))
        .collect();
    let json = format!(
        "{{\"entry\":\"{}\",\"params\":[{}],\"complete\":{},\"left\":{},\"paths\":{},\"done\":{},\"infeasible\":{},\"panics_allowed\":{},\"violation_count\":{},\"steps\":{},\"max_steps\":{},\"forks\":{},\"branches\":{},\"unary\":{},\"small\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"asserts_proved\":{},\"asserts_folded\":{},\"bounds_checked\":{},\"cover\":{},\"nodes\":{},\"parse_s\":{:.2},\"run_s\":{:.2},\"solver\":\"{}\",\"unsupported\":{},\"unknown\":{},\"violations\":[{}],\"samples\":[{}],\"functions\":[{}]}}\n",
        esc(&entry),
        cfg.params.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        complete,
        left,
        s.done + s.panics_allowed + s.violations,
        s.done,
        s.infeasible,
        s.panics_allowed,
        s.violations,
        s.steps,
        s.max_steps,
        s.forks,
        s.branches,
        s.unary,
        s.small,
        q,
        sat,
        uns,
        unk,
        s.cache_hits,
        zt,
        s.asserts_proved,
        s.asserts_folded,
        s.oob_queries,
        s.cover,
        nodes,
        tparse,
        t1.elapsed().as_secs_f64(),
        esc(&z3::version()),
        map(&s.unsupported),
        map(&s.unknown),
        vj.join(","),
        sj.join(","),
        fns.join(",")
    );
    match out {
        Some(f) => std::fs::write(f, json).unwrap(),
        None => print!("{}", json),
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(if s.violations > 0 { 1 } else { 0 });
}
