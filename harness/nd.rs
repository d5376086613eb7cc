// Interface between the harnesses and whoever runs them: the symbolic executor (which implements
// the nd_* functions itself) or, with the `native` feature, a replay of recorded inputs.
#![allow(dead_code)]
use std::io::Read;

#[cfg(not(feature = "native"))]
mod raw {
    extern "C" {
        pub fn nd_sym(w: u32) -> u64;
        pub fn nd_range(lo: u64, hi: u64) -> u64;
        pub fn nd_conc(x: u64) -> u64;
        pub fn nd_bytes(p: *mut u8, n: usize);
        pub fn nd_assume(b: bool);
        pub fn nd_assert(b: bool, p: *const u8, n: usize);
        pub fn nd_fail(p: *const u8, n: usize);
        pub fn nd_param(i: usize) -> i64;
        pub fn nd_trace(x: u64);
        pub fn nd_cover(x: u64);
        pub fn nd_steps(x: u64);
        pub fn nd_allow_panic(b: u64);
        pub fn nd_file(np: *const u8, nn: usize, p: *const u8, n: usize);
        pub fn nd_read_file(np: *const u8, nn: usize, p: *mut u8, n: usize) -> u64;
        pub fn nd_fault(k: i64);
        pub fn nd_engine() -> u64;
        pub fn nd_log(p: *const u8, n: usize, x: u64);
        pub fn nd_stdout(p: *mut u8, n: usize) -> u64;
        pub fn nd_co_new(f: extern "C" fn(usize), x: usize) -> u64;
        pub fn nd_co_switch(k: u64);
    }
}
#[cfg(feature = "native")]
pub mod raw {
    use std::sync::{Condvar, Mutex};
    pub static IN: Mutex<(Vec<(u32, u64)>, usize)> = Mutex::new((vec![], 0));
    pub static PARAMS: Mutex<Vec<i64>> = Mutex::new(vec![]);
    // coroutines: threads of which one runs
    static TURN: Mutex<u64> = Mutex::new(0);
    static COUNT: Mutex<u64> = Mutex::new(0);
    static CHANGED: Condvar = Condvar::new();
    std::thread_local! {
        static ME: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    }
    fn my_turn() {
        let me = ME.with(|x| x.get());
        let mut t = TURN.lock().unwrap();
        while *t != me {
            t = CHANGED.wait(t).unwrap();
        }
    }
    pub unsafe fn nd_co_new(f: extern "C" fn(usize), x: usize) -> u64 {
        let mut c = COUNT.lock().unwrap();
        *c += 1;
        let id = *c;
        std::thread::spawn(move || {
            ME.with(|m| m.set(id));
            my_turn();
            // a panic in any of them ends the program
            if std::panic::catch_unwind(|| f(x)).is_err() {
                std::process::exit(101);
            }
        });
        id
    }
    pub unsafe fn nd_co_switch(k: u64) {
        *TURN.lock().unwrap() = k;
        CHANGED.notify_all();
        my_turn();
    }
    fn next(w: u32) -> u64 {
        let mut i = IN.lock().unwrap();
        let k = i.1;
        i.1 += 1;
        match i.0.get(k) {
            Some((_, v)) => {
                let _ = w;
                *v
            }
            None => {
                println!("REPLAY short of inputs");
                std::process::exit(4)
            }
        }
    }
    pub unsafe fn nd_sym(w: u32) -> u64 {
        next(w)
    }
    pub unsafe fn nd_range(lo: u64, hi: u64) -> u64 {
        if lo > hi {
            println!("REPLAY infeasible range");
            std::process::exit(4);
        }
        if lo == hi {
            return lo;
        }
        let v = next(0);
        if v < lo || v > hi {
            println!("REPLAY value out of range");
            std::process::exit(4);
        }
        v
    }
    pub unsafe fn nd_conc(x: u64) -> u64 {
        x
    }
    pub unsafe fn nd_bytes(p: *mut u8, n: usize) {
        for i in 0..n {
            *p.add(i) = next(8) as u8;
        }
    }
    pub unsafe fn nd_assume(b: bool) {
        if !b {
            println!("REPLAY assumption does not hold");
            std::process::exit(4);
        }
    }
    pub unsafe fn nd_assert(b: bool, p: *const u8, n: usize) {
        if !b {
            nd_fail(p, n);
        }
    }
    pub unsafe fn nd_fail(p: *const u8, n: usize) {
        println!("ASSERT {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
        std::process::exit(1);
    }
    pub unsafe fn nd_param(i: usize) -> i64 {
        PARAMS.lock().unwrap().get(i).cloned().unwrap_or(0)
    }
    pub unsafe fn nd_trace(x: u64) {
        println!("T {}", x);
    }
    pub unsafe fn nd_cover(_: u64) {}
    pub unsafe fn nd_steps(_: u64) {}
    pub unsafe fn nd_allow_panic(_: u64) {}
    pub unsafe fn nd_file(np: *const u8, nn: usize, p: *const u8, n: usize) {
        let name = String::from_utf8_lossy(std::slice::from_raw_parts(np, nn)).into_owned();
        std::fs::write(name, std::slice::from_raw_parts(p, n)).unwrap();
    }
    pub unsafe fn nd_read_file(np: *const u8, nn: usize, p: *mut u8, n: usize) -> u64 {
        let name = String::from_utf8_lossy(std::slice::from_raw_parts(np, nn)).into_owned();
        match std::fs::read(name) {
            Ok(v) => {
                let k = v.len().min(n);
                std::ptr::copy_nonoverlapping(v.as_ptr(), p, k);
                v.len() as u64
            }
            Err(_) => !0,
        }
    }
    pub unsafe fn nd_fault(_: i64) {}
    pub unsafe fn nd_engine() -> u64 {
        0
    }
    pub unsafe fn nd_log(p: *const u8, n: usize, x: u64) {
        println!("L {} {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)), x);
    }
    pub unsafe fn nd_stdout(_: *mut u8, _: usize) -> u64 {
        0
    }
}

pub fn sym8() -> u8 {
    unsafe { raw::nd_sym(8) as u8 }
}
pub fn sym(w: u32) -> u64 {
    unsafe { raw::nd_sym(w) }
}
/// an unconstrained value within lo..=hi, kept symbolic
pub fn range(lo: usize, hi: usize) -> usize {
    unsafe { raw::nd_range(lo as u64, hi as u64) as usize }
}
/// a value below n, one path for each
pub fn choice(n: usize) -> usize {
    unsafe { raw::nd_conc(raw::nd_range(0, n as u64 - 1)) as usize }
}
pub fn choice_in(lo: usize, hi: usize) -> usize {
    unsafe { raw::nd_conc(raw::nd_range(lo as u64, hi as u64)) as usize }
}
pub fn conc(x: usize) -> usize {
    unsafe { raw::nd_conc(x as u64) as usize }
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { raw::nd_bytes(v.as_mut_ptr(), n) };
    v
}
pub fn assume(b: bool) {
    unsafe { raw::nd_assume(b) }
}
pub fn check(b: bool, m: &str) {
    unsafe { raw::nd_assert(b, m.as_ptr(), m.len()) }
}
pub fn fail(m: &str) -> ! {
    unsafe { raw::nd_fail(m.as_ptr(), m.len()) };
    loop {}
}
pub fn param(i: usize) -> usize {
    unsafe { raw::nd_param(i) as usize }
}
pub fn trace(x: u64) {
    unsafe { raw::nd_trace(x) }
}
pub fn trace_bytes(b: &[u8]) {
    trace(b.len() as u64);
    for c in b.chunks(8) {
        let mut x = 0u64;
        for (i, &y) in c.iter().enumerate() {
            x |= (y as u64) << (8 * i);
        }
        trace(x);
    }
}
pub fn cover(x: u64) {
    unsafe { raw::nd_cover(x) }
}
/// at most this many further steps, or the path counts as not terminating
pub fn steps(x: u64) {
    unsafe { raw::nd_steps(x) }
}
pub fn co_new(f: extern "C" fn(usize), x: usize) -> usize {
    unsafe { raw::nd_co_new(f, x) as usize }
}
pub fn co_switch(k: usize) {
    unsafe { raw::nd_co_switch(k as u64) }
}
pub fn allow_panic(b: bool) {
    unsafe { raw::nd_allow_panic(b as u64) }
}
pub fn log(m: &str, x: u64) {
    unsafe { raw::nd_log(m.as_ptr(), m.len(), x) }
}
pub fn file(name: &str, data: &[u8]) {
    unsafe { raw::nd_file(name.as_ptr(), name.len(), data.as_ptr(), data.len()) }
}
pub fn read_file(name: &str) -> Option<Vec<u8>> {
    let mut v = vec![0u8; 4096];
    let n = unsafe { raw::nd_read_file(name.as_ptr(), name.len(), v.as_mut_ptr(), v.len()) };
    if n == !0 {
        return None;
    }
    v.truncate(n as usize);
    Some(v)
}
pub fn fault(k: i64) {
    unsafe { raw::nd_fault(k) }
}

/// equality of byte strings: one assertion over all positions
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn check_same(got: &[u8], want: &[u8], m: &str) {
    trace_bytes(got);
    check(got.len() == want.len(), m);
    check(same(got, want), m);
}

/// A reader over a buffer whose read sizes are part of the input.
/// mode 0: as much as fits; 1: one byte or as much as fits; 2: every size; 16 + n: n bytes at a time
pub struct Src {
    pub data: Vec<u8>,
    pub pos: usize,
    pub mode: usize,
}
impl Src {
    pub fn new(data: &[u8], mode: usize) -> Src {
        Src { data: data.to_vec(), pos: 0, mode }
    }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let cap = std::cmp::min(buf.len(), self.data.len() - self.pos);
        if cap == 0 {
            return Ok(0);
        }
        let n = match self.mode {
            0 => cap,
            1 => {
                if cap > 1 && choice(2) == 0 {
                    1
                } else {
                    cap
                }
            }
            m if m > 16 => std::cmp::min(m - 16, cap),
            _ => choice_in(1, cap),
        };
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
