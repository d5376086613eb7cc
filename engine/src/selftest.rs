// Compares the simplifying constructors with direct evaluation, and with the solver, on random terms.
use crate::expr::*;
use crate::z3::{Res, Z3};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
}

pub fn run(n: usize) -> i32 {
    let mut r = Rng(0x1234_5678_9abc_def1);
    let mut ar = Arena::new();
    let mut ev = Evaluator::new();
    let mut z3 = Z3::new(5000);
    let mut bad = 0;
    let widths = [1u32, 3, 8, 8, 16, 32, 64];
    for round in 0..n / 200 + 1 {
        // pool of (expr, value under the model)
        let mut model = vec![0u64; ar.syms.len() + 64];
        let mut pool: Vec<(E, u128)> = vec![];
        for i in 0..8u32 {
            let w = widths[r.below(7) as usize];
            let e = ar.sym(round as u32 * 8 + i, w, 0);
            let v = match r.below(4) {
                0 => 0,
                1 => mask(w) as u64,
                2 => r.below(4) & mask(w) as u64,
                _ => r.next() & mask(w) as u64,
            };
            let id = ar.node(e).a as usize;
            if model.len() <= id {
                model.resize(id + 1, 0);
            }
            model[id] = v;
            pool.push((e, v as u128));
        }
        for _ in 0..6 {
            let w = widths[r.below(7) as usize];
            let v = match r.below(3) {
                0 => r.below(3) as u128,
                1 => mask(w) - r.below(2) as u128,
                _ => r.next() as u128,
            } & mask(w);
            let e = ar.cst(w, v);
            pool.push((e, v));
        }
        for _ in 0..200 {
            let (a, va) = pool[r.below(pool.len() as u64) as usize];
            let w = ar.w(a);
            // second operand of the same width
            let cand: Vec<(E, u128)> = pool.iter().cloned().filter(|x| ar.w(x.0) == w).collect();
            let (b, vb) = cand[r.below(cand.len() as u64) as usize];
            let m = mask(w);
            let (e, v) = match r.below(24) {
                0 => (ar.add(a, b), va.wrapping_add(vb) & m),
                1 => (ar.sub(a, b), va.wrapping_sub(vb) & m),
                2 => (ar.mul(a, b), va.wrapping_mul(vb) & m),
                3 => (ar.and(a, b), va & vb),
                4 => (ar.or(a, b), va | vb),
                5 => (ar.xor(a, b), va ^ vb),
                6 => (ar.not(a), !va & m),
                7 => (ar.shl(a, b), fold2(Op::Shl, w, va, vb)),
                8 => (ar.lshr(a, b), fold2(Op::LShr, w, va, vb)),
                9 => (ar.ashr(a, b), fold2(Op::AShr, w, va, vb)),
                10 => (ar.divrem(Op::UDiv, a, b), fold2(Op::UDiv, w, va, vb)),
                11 => (ar.divrem(Op::URem, a, b), fold2(Op::URem, w, va, vb)),
                12 => (ar.divrem(Op::SDiv, a, b), fold2(Op::SDiv, w, va, vb)),
                13 => (ar.divrem(Op::SRem, a, b), fold2(Op::SRem, w, va, vb)),
                14 => {
                    let tw = (w + r.below(20) as u32).min(128);
                    (ar.zext(a, tw), va)
                }
                15 => {
                    let tw = (w + r.below(20) as u32).min(128);
                    (ar.sext(a, tw), (sx(va, w) as u128) & mask(tw))
                }
                16 | 17 => {
                    let lo = r.below(w as u64) as u32;
                    let l = 1 + r.below((w - lo) as u64) as u32;
                    (ar.extract(a, lo, l), (va >> lo) & mask(l))
                }
                18 | 19 => {
                    let (c, vc) = pool[r.below(pool.len() as u64) as usize];
                    let cw = ar.w(c);
                    if cw + w > 128 {
                        continue;
                    }
                    (ar.concat(a, c), (va << cw) | vc)
                }
                20 => (ar.eq(a, b), (va == vb) as u128),
                21 => (ar.ult(a, b), (va < vb) as u128),
                22 => (ar.slt(a, b), (sx(va, w) < sx(vb, w)) as u128),
                _ => {
                    let cs: Vec<(E, u128)> = pool.iter().cloned().filter(|x| ar.w(x.0) == 1).collect();
                    if cs.is_empty() {
                        continue;
                    }
                    let (c, vc) = cs[r.below(cs.len() as u64) as usize];
                    (ar.ite(c, a, b), if vc != 0 { va } else { vb })
                }
            };
            ev.reset();
            let got = ev.eval(&ar, e, &model);
            if got != v || (ar.w(e) <= 64 && (v < ar.range[e as usize].0 as u128 || v > ar.range[e as usize].1 as u128)) {
                println!("selftest: {} evaluates to {:#x}, expected {:#x}, range {:?}", ar.show(e), got, v, ar.range[e as usize]);
                bad += 1;
                if bad > 10 {
                    return 1;
                }
            }
            pool.push((e, v));
        }
        // solver translation: the model must satisfy e == v, and e != v must not hold under it
        if round % 10 == 0 {
            let mut cs = vec![];
            let mut all = vec![];
            for i in 0..8 {
                let (e, v) = pool[i];
                let k = ar.cst(ar.w(e), v);
                cs.push(ar.eq(e, k));
            }
            for &(e, v) in pool.iter().rev().take(10) {
                let k = ar.cst(ar.w(e), v);
                all.push(ar.ne(e, k));
            }
            let mut any = ar.cst(1, 0);
            for x in all {
                any = ar.or(any, x);
            }
            if ar.is_const(any).is_none() {
                cs.push(any);
                let (res, _) = z3.check(&mut ar, &cs, &[]);
                if res == Res::Sat {
                    println!("selftest: solver disagrees");
                    return 1;
                }
            }
        }
    }
    println!("selftest: {} terms, {} solver checks, {} wrong", n, z3.queries, bad);
    (bad > 0) as i32
}
