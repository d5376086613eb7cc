// Hash-consed bit-vector expressions (width 1..=128) with eager simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Sym,
    Not,
    Add,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    ZExt,
    SExt,
    Extract,
    Concat,
    Ite,
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sx(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub struct SymInfo {
    pub seq: u32,
    pub w: u32,
    pub kind: u8, // 0 = input, 1 = uninitialised memory
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Node, u32>,
    pub range: Vec<(u64, u64)>, // unsigned interval, for w <= 64
    pub wide: Vec<u128>,
    wide_map: FxMap<u64, Vec<u32>>,
    pub syms: Vec<SymInfo>,
    sym_map: FxMap<(u32, u32, u8), u32>,
    supp: Vec<Option<Rc<[u32]>>>,
    truth: FxMap<u32, Option<[u64; 4]>>,
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            map: Default::default(),
            range: vec![],
            wide: vec![],
            wide_map: Default::default(),
            syms: vec![],
            sym_map: Default::default(),
            supp: vec![],
            truth: Default::default(),
        };
        // ids 0 and 1 are reserved by the memory model
        a.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 1 << 30 });
        a.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 1 << 31 });
        a
    }
    fn push(&mut self, n: Node) -> E {
        let id = self.nodes.len() as u32;
        let r = self.calc_range(&n);
        self.nodes.push(n);
        self.range.push(r);
        self.supp.push(None);
        self.map.insert(n, id);
        id
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        self.push(n)
    }
    fn calc_range(&self, n: &Node) -> (u64, u64) {
        let w = n.w as u32;
        if w > 64 {
            return (0, !0);
        }
        let full = (0u64, mask(w) as u64);
        let r = |x: u32| self.range[x as usize];
        let wd = |x: u32| self.nodes[x as usize].w as u32;
        match n.op {
            Op::Const => {
                let v = (n.a as u64) | ((n.b as u64) << 32);
                (v, v)
            }
            Op::ZExt => r(n.a),
            Op::Ite => {
                let (a, b) = (r(n.b), r(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::Add => {
                let (a, b) = (r(n.a), r(n.b));
                match (a.1 as u128 + b.1 as u128) <= mask(w) {
                    true => (a.0 + b.0, a.1 + b.1),
                    false => full,
                }
            }
            Op::Mul => {
                let (a, b) = (r(n.a), r(n.b));
                match (a.1 as u128 * b.1 as u128) <= mask(w) {
                    true => (a.0 * b.0, a.1 * b.1),
                    false => full,
                }
            }
            Op::And => (0, r(n.a).1.min(r(n.b).1)),
            Op::Or => {
                let (a, b) = (r(n.a), r(n.b));
                let m = a.1 | b.1;
                let bits = 64 - m.leading_zeros();
                (a.0.max(b.0), mask(bits) as u64)
            }
            Op::Xor => {
                let m = r(n.a).1 | r(n.b).1;
                let bits = 64 - m.leading_zeros();
                (0, mask(bits) as u64)
            }
            Op::UDiv => {
                let b = r(n.b);
                if b.0 > 0 {
                    (0, r(n.a).1 / b.0)
                } else {
                    full
                }
            }
            Op::URem => {
                let b = r(n.b);
                if b.0 > 0 {
                    (0, r(n.a).1.min(b.1 - 1))
                } else {
                    (0, r(n.a).1)
                }
            }
            Op::LShr => (0, r(n.a).1),
            Op::Concat => {
                let lw = wd(n.b);
                if lw < 64 {
                    let (a, b) = (r(n.a), r(n.b));
                    ((a.0 << lw) | b.0, (a.1 << lw) | b.1)
                } else {
                    full
                }
            }
            Op::Extract => {
                if wd(n.a) <= 64 {
                    let a = r(n.a);
                    if n.b == 0 && a.1 <= full.1 {
                        return a;
                    }
                    if n.b < 64 {
                        let (lo, hi) = (a.0 >> n.b, a.1 >> n.b);
                        if hi <= full.1 {
                            return (lo, hi);
                        }
                    }
                }
                full
            }
            _ => full,
        }
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn node(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn cst(&mut self, w: u32, v: u128) -> E {
        let v = v & mask(w);
        if w <= 64 {
            self.intern(Node { op: Op::Const, w: w as u8, a: v as u32, b: (v >> 32) as u32, c: 0 })
        } else {
            let h = (v as u64) ^ ((v >> 64) as u64).rotate_left(17);
            let l = self.wide_map.entry(h).or_default();
            let idx = match l.iter().find(|&&i| self.wide[i as usize] == v) {
                Some(&i) => i,
                None => {
                    let i = self.wide.len() as u32;
                    self.wide.push(v);
                    l.push(i);
                    i
                }
            };
            self.intern(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: idx })
        }
    }
    #[inline]
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            if n.w <= 64 {
                Some((n.a as u128) | ((n.b as u128) << 32))
            } else {
                Some(self.wide[n.c as usize])
            }
        } else {
            None
        }
    }
    pub fn sym(&mut self, seq: u32, w: u32, kind: u8) -> E {
        let key = (seq, w, kind);
        let id = match self.sym_map.get(&key) {
            Some(&i) => i,
            None => {
                let i = self.syms.len() as u32;
                self.syms.push(SymInfo { seq, w, kind });
                self.sym_map.insert(key, i);
                i
            }
        };
        self.intern(Node { op: Op::Sym, w: w as u8, a: id, b: 0, c: 0 })
    }

    // ---- constructors ----
    pub fn not(&mut self, a: E) -> E {
        let n = self.node(a);
        let w = n.w as u32;
        if let Some(v) = self.is_const(a) {
            return self.cst(w, !v);
        }
        if n.op == Op::Not {
            return n.a;
        }
        self.intern(Node { op: Op::Not, w: n.w, a, b: 0, c: 0 })
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.cst(w, x.wrapping_add(y)),
            (Some(_), None) => return self.add(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) => {
                let n = self.node(a);
                if n.op == Op::Add {
                    if let Some(x) = self.is_const(n.b) {
                        let c = self.cst(w, x.wrapping_add(y));
                        return self.add(n.a, c);
                    }
                }
                if n.op == Op::Ite {
                    if let (Some(p), Some(q)) = (self.is_const(n.b), self.is_const(n.c)) {
                        let p = self.cst(w, p.wrapping_add(y));
                        let q = self.cst(w, q.wrapping_add(y));
                        return self.ite(n.a, p, q);
                    }
                }
                return self.intern(Node { op: Op::Add, w: w as u8, a, b, c: 0 });
            }
            _ => {}
        }
        if w == 1 {
            return self.xor(a, b);
        }
        // pull constants outwards
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::Add && self.is_const(na.b).is_some() {
            let t = self.add(na.a, b);
            return self.add(t, na.b);
        }
        if nb.op == Op::Add && self.is_const(nb.b).is_some() {
            let t = self.add(a, nb.a);
            return self.add(t, nb.b);
        }
        // x + (-1 * x) == 0
        if let Some(x) = self.neg_of(b) {
            if x == a {
                return self.cst(w, 0);
            }
            // (p + x) + (-x)
            if na.op == Op::Add {
                if na.a == x {
                    return na.b;
                }
                if na.b == x {
                    return na.a;
                }
            }
        }
        if let Some(x) = self.neg_of(a) {
            if x == b {
                return self.cst(w, 0);
            }
            if nb.op == Op::Add {
                if nb.a == x {
                    return nb.b;
                }
                if nb.b == x {
                    return nb.a;
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.intern(Node { op: Op::Add, w: w as u8, a, b, c: 0 })
    }
    fn neg_of(&self, e: E) -> Option<E> {
        let n = self.node(e);
        if n.op == Op::Mul && self.is_const(n.b) == Some(mask(n.w as u32)) {
            Some(n.a)
        } else {
            None
        }
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.cst(w, !0);
        let n = self.node(a);
        if n.op == Op::Add {
            let x = self.neg(n.a);
            let y = self.neg(n.b);
            return self.add(x, y);
        }
        self.mul(a, m)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        if a == b {
            let w = self.w(a);
            return self.cst(w, 0);
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.cst(w, x.wrapping_mul(y)),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(y)) => {
                if y.is_power_of_two() {
                    let s = self.cst(w, y.trailing_zeros() as u128);
                    return self.shl(a, s);
                }
                let n = self.node(a);
                if n.op == Op::Mul {
                    if let Some(x) = self.is_const(n.b) {
                        let c = self.cst(w, x.wrapping_mul(y));
                        return self.mul(n.a, c);
                    }
                }
                return self.intern(Node { op: Op::Mul, w: w as u8, a, b, c: 0 });
            }
            _ => {}
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.intern(Node { op: Op::Mul, w: w as u8, a, b, c: 0 })
    }
    pub fn divrem(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.cst(w, fold2(op, w, x, y));
        }
        if let Some(y) = self.is_const(b) {
            if y.is_power_of_two() {
                let k = y.trailing_zeros();
                if op == Op::UDiv {
                    let s = self.cst(w, k as u128);
                    return self.lshr(a, s);
                }
                if op == Op::URem {
                    let m = self.cst(w, y - 1);
                    return self.and(a, m);
                }
            }
        }
        self.intern(Node { op, w: w as u8, a, b, c: 0 })
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.is_const(b) {
            if let Some(x) = self.is_const(a) {
                return self.cst(w, fold2(Op::Shl, w, x, s));
            }
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.cst(w, 0);
            }
            let hi = self.extract(a, 0, w - s as u32);
            let lo = self.cst(s as u32, 0);
            return self.concat(hi, lo);
        }
        self.intern(Node { op: Op::Shl, w: w as u8, a, b, c: 0 })
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.is_const(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.cst(w, 0);
            }
            let x = self.extract(a, s as u32, w - s as u32);
            return self.zext(x, w);
        }
        self.intern(Node { op: Op::LShr, w: w as u8, a, b, c: 0 })
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.is_const(b) {
            if s == 0 {
                return a;
            }
            let s = s.min(w as u128 - 1) as u32;
            let x = self.extract(a, s, w - s);
            return self.sext(x, w);
        }
        self.intern(Node { op: Op::AShr, w: w as u8, a, b, c: 0 })
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.cst(w, x & y),
            (Some(_), None) => return self.and(b, a),
            (None, Some(0)) => return b,
            (None, Some(y)) if y == mask(w) => return a,
            (None, Some(y)) => {
                if w <= 64 {
                    let m = self.range[a as usize].1;
                    let bits = 64 - m.leading_zeros();
                    let k = mask(bits) as u64;
                    if (y as u64) & k == k {
                        return a;
                    }
                    if (y as u64) & k == 0 {
                        return self.cst(w, 0);
                    }
                }
                // contiguous mask -> extract/concat form
                let tz = y.trailing_zeros();
                let z = y >> tz;
                if (z & (z + 1)) == 0 {
                    let len = 128 - z.leading_zeros();
                    let x = self.extract(a, tz, len);
                    let x = self.zext(x, w - tz);
                    if tz == 0 {
                        return x;
                    }
                    let lo = self.cst(tz, 0);
                    return self.concat(x, lo);
                }
                let n = self.node(a);
                if n.op == Op::And {
                    if let Some(x) = self.is_const(n.b) {
                        let c = self.cst(w, x & y);
                        return self.and(n.a, c);
                    }
                }
                if n.op == Op::Ite {
                    if let (Some(p), Some(q)) = (self.is_const(n.b), self.is_const(n.c)) {
                        let p = self.cst(w, p & y);
                        let q = self.cst(w, q & y);
                        return self.ite(n.a, p, q);
                    }
                }
                return self.intern(Node { op: Op::And, w: w as u8, a, b, c: 0 });
            }
            _ => {}
        }
        if a == b {
            return a;
        }
        if w == 1 {
            if self.is_not_of(a, b) {
                return self.cst(1, 0);
            }
            // absorb: (x & y) & x
            let na = self.node(a);
            if na.op == Op::And && (na.a == b || na.b == b) {
                return a;
            }
            let nb = self.node(b);
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return b;
            }
        }
        let (na, nb) = (self.node(a), self.node(b));
        if let Some(r) = self.split_bitwise(Op::And, a, b, na, nb) {
            return r;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.intern(Node { op: Op::And, w: w as u8, a, b, c: 0 })
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let (na, nb) = (self.node(a), self.node(b));
        (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a)
    }
    // push a bitwise operator through concat/zext when both sides split at the same place
    fn split_bitwise(&mut self, op: Op, a: E, b: E, na: Node, nb: Node) -> Option<E> {
        let split = |s: &Self, n: &Node| -> Option<u32> {
            match n.op {
                Op::Concat => Some(s.w(n.b)),
                Op::ZExt => Some(s.w(n.a)),
                _ => None,
            }
        };
        let (sa, sb) = (split(self, &na), split(self, &nb));
        let w = na.w as u32;
        let k = match (sa, sb) {
            (Some(x), Some(y)) => {
                // choose the split; prefer one that both can do without breaking up nodes
                if x == y {
                    x
                } else {
                    x.max(y)
                }
            }
            _ => return None,
        };
        if k >= w {
            return None;
        }
        let (ha, la) = (self.extract(a, k, w - k), self.extract(a, 0, k));
        let (hb, lb) = (self.extract(b, k, w - k), self.extract(b, 0, k));
        let (h, l) = match op {
            Op::And => (self.and(ha, hb), self.and(la, lb)),
            Op::Or => (self.or(ha, hb), self.or(la, lb)),
            _ => (self.xor(ha, hb), self.xor(la, lb)),
        };
        Some(self.concat(h, l))
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.cst(w, x | y),
            (Some(_), None) => return self.or(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == mask(w) => return b,
            (None, Some(y)) => {
                let n = self.node(a);
                match n.op {
                    Op::Concat | Op::ZExt => {
                        let k = if n.op == Op::Concat { self.w(n.b) } else { self.w(n.a) };
                        let (ha, la) = (self.extract(a, k, w - k), self.extract(a, 0, k));
                        let (hb, lb) = (self.cst(w - k, y >> k), self.cst(k, y));
                        let h = self.or(ha, hb);
                        let l = self.or(la, lb);
                        return self.concat(h, l);
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        if a == b {
            return a;
        }
        if w == 1 {
            if self.is_not_of(a, b) {
                return self.cst(1, 1);
            }
            let na = self.node(a);
            if na.op == Op::Or && (na.a == b || na.b == b) {
                return a;
            }
            let nb = self.node(b);
            if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                return b;
            }
        }
        let (na, nb) = (self.node(a), self.node(b));
        if let Some(r) = self.split_bitwise(Op::Or, a, b, na, nb) {
            return r;
        }
        let (a, b) = if a < b || cb.is_some() { (a, b) } else { (b, a) };
        self.intern(Node { op: Op::Or, w: w as u8, a, b, c: 0 })
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.cst(w, x ^ y),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == mask(w) => return self.not(a),
            (None, Some(y)) => {
                let n = self.node(a);
                match n.op {
                    Op::Concat | Op::ZExt => {
                        let k = if n.op == Op::Concat { self.w(n.b) } else { self.w(n.a) };
                        let (ha, la) = (self.extract(a, k, w - k), self.extract(a, 0, k));
                        let (hb, lb) = (self.cst(w - k, y >> k), self.cst(k, y));
                        let h = self.xor(ha, hb);
                        let l = self.xor(la, lb);
                        return self.concat(h, l);
                    }
                    Op::Xor => {
                        if let Some(x) = self.is_const(n.b) {
                            let c = self.cst(w, x ^ y);
                            return self.xor(n.a, c);
                        }
                    }
                    _ => {}
                }
                return self.intern(Node { op: Op::Xor, w: w as u8, a, b, c: 0 });
            }
            _ => {}
        }
        if a == b {
            return self.cst(w, 0);
        }
        if w == 1 {
            // not(x) ^ y = not(x ^ y)
            let na = self.node(a);
            if na.op == Op::Not {
                let t = self.xor(na.a, b);
                return self.not(t);
            }
            let nb = self.node(b);
            if nb.op == Op::Not {
                let t = self.xor(a, nb.a);
                return self.not(t);
            }
        }
        let (na, nb) = (self.node(a), self.node(b));
        if let Some(r) = self.split_bitwise(Op::Xor, a, b, na, nb) {
            return r;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.intern(Node { op: Op::Xor, w: w as u8, a, b, c: 0 })
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.node(a);
        let aw = n.w as u32;
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        if let Some(v) = self.is_const(a) {
            return self.cst(w, v);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
            let p = self.zext(n.b, w);
            let q = self.zext(n.c, w);
            return self.ite(n.a, p, q);
        }
        self.intern(Node { op: Op::ZExt, w: w as u8, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.node(a);
        let aw = n.w as u32;
        if aw == w {
            return a;
        }
        if let Some(v) = self.is_const(a) {
            return self.cst(w, sx(v, aw) as u128);
        }
        if aw <= 64 && self.range[a as usize].1 < (1u64 << (aw - 1)) {
            return self.zext(a, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
            let p = self.sext(n.b, w);
            let q = self.sext(n.c, w);
            return self.ite(n.a, p, q);
        }
        self.intern(Node { op: Op::SExt, w: w as u8, a, b: 0, c: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.node(a);
        let aw = n.w as u32;
        debug_assert!(lo + w <= aw, "extract {} {} {}", lo, w, aw);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(v) = self.is_const(a) {
            return self.cst(w, v >> lo);
        }
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
                if lo >= iw {
                    let s = self.extract(n.a, iw - 1, 1);
                    return self.sext(s, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.add(x, y);
            }
            Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.mul(x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        // high part known to be zero
        if aw <= 64 && lo < 64 && self.range[a as usize].1 >> lo == 0 {
            return self.cst(w, 0);
        }
        self.intern(Node { op: Op::Extract, w: w as u8, a, b: lo, c: 0 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.node(hi), self.node(lo));
        let (hw, lw) = (nh.w as u32, nl.w as u32);
        let w = hw + lw;
        assert!(w <= 128);
        let (ch, cl) = (self.is_const(hi), self.is_const(lo));
        if let (Some(x), Some(y)) = (ch, cl) {
            return self.cst(w, (x << lw) | y);
        }
        if ch == Some(0) {
            return self.zext(lo, w);
        }
        // zext(x) ++ lo  ->  zext(x ++ lo)
        if nh.op == Op::ZExt {
            let t = self.concat(nh.a, lo);
            return self.zext(t, w);
        }
        // merge adjacent extracts
        if nh.op == Op::Extract {
            if nl.op == Op::Extract && nl.a == nh.a && nl.b + lw == nh.b {
                return self.extract(nh.a, nl.b, w);
            }
            if nl.op == Op::Concat {
                let nlh = self.node(nl.a);
                if nlh.op == Op::Extract && nlh.a == nh.a && nlh.b + nlh.w as u32 == nh.b {
                    let h = self.extract(nh.a, nlh.b, hw + nlh.w as u32);
                    return self.concat(h, nl.b);
                }
            }
        }
        // right-nested normal form: (a ++ b) ++ c -> a ++ (b ++ c)
        if nh.op == Op::Concat {
            let t = self.concat(nh.b, lo);
            return self.concat(nh.a, t);
        }
        // const ++ (const ++ x)
        if let Some(x) = ch {
            if nl.op == Op::Concat {
                if let Some(y) = self.is_const(nl.a) {
                    let yw = self.w(nl.a);
                    let c = self.cst(hw + yw, (x << yw) | y);
                    return self.concat(c, nl.b);
                }
            }
        }
        // sign extension pattern is left alone
        self.intern(Node { op: Op::Concat, w: w as u8, a: hi, b: lo, c: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.is_const(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let nc = self.node(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // if x == k then k else x   ->  x
        if nc.op == Op::Eq {
            if (nc.a == a && nc.b == b) || (nc.a == b && nc.b == a) {
                return b;
            }
        }
        self.intern(Node { op: Op::Ite, w: w as u8, a: c, b: a, c: b })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.cst(1, 1);
        }
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(1, (x == y) as u128);
        }
        if ca.is_some() {
            return self.eq(b, a);
        }
        if w == 1 {
            if let Some(y) = cb {
                return if y == 1 { a } else { self.not(a) };
            }
            let t = self.xor(a, b);
            return self.not(t);
        }
        if w <= 64 {
            let (ra, rb) = (self.range[a as usize], self.range[b as usize]);
            if ra.1 < rb.0 || rb.1 < ra.0 {
                return self.cst(1, 0);
            }
        }
        let na = self.node(a);
        if let Some(y) = cb {
            match na.op {
                Op::ZExt => {
                    let iw = self.w(na.a);
                    if y > mask(iw) {
                        return self.cst(1, 0);
                    }
                    let c = self.cst(iw, y);
                    return self.eq(na.a, c);
                }
                Op::SExt => {
                    let iw = self.w(na.a);
                    let t = y & mask(iw);
                    if (sx(t, iw) as u128) & mask(w) != y {
                        return self.cst(1, 0);
                    }
                    let c = self.cst(iw, t);
                    return self.eq(na.a, c);
                }
                Op::Concat => {
                    let lw = self.w(na.b);
                    let (h, l) = (self.cst(w - lw, y >> lw), self.cst(lw, y));
                    let x = self.eq(na.a, h);
                    let z = self.eq(na.b, l);
                    return self.and(x, z);
                }
                Op::Add => {
                    if let Some(x) = self.is_const(na.b) {
                        let c = self.cst(w, y.wrapping_sub(x));
                        return self.eq(na.a, c);
                    }
                    // a - b == 0
                    if y == 0 {
                        if let Some(x) = self.neg_of(na.b) {
                            return self.eq(na.a, x);
                        }
                        if let Some(x) = self.neg_of(na.a) {
                            return self.eq(na.b, x);
                        }
                    }
                }
                Op::Xor => {
                    if let Some(x) = self.is_const(na.b) {
                        let c = self.cst(w, y ^ x);
                        return self.eq(na.a, c);
                    }
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Not => {
                    let c = self.cst(w, !y);
                    return self.eq(na.a, c);
                }
                Op::Or if y == 0 => {
                    let x = self.eq(na.a, b);
                    let z = self.eq(na.b, b);
                    return self.and(x, z);
                }
                Op::Ite => {
                    let (p, q) = (self.is_const(na.b), self.is_const(na.c));
                    if p.is_some() || q.is_some() {
                        let x = self.eq(na.b, b);
                        let z = self.eq(na.c, b);
                        return self.ite(na.a, x, z);
                    }
                }
                _ => {}
            }
        } else {
            let nb = self.node(b);
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (x, y) = (self.w(na.a), self.w(nb.a));
                let m = x.max(y);
                if m < w {
                    let p = self.zext(na.a, m);
                    let q = self.zext(nb.a, m);
                    return self.eq(p, q);
                }
            }
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.eq(na.a, nb.a);
                let z = self.eq(na.b, nb.b);
                return self.and(x, z);
            }
        }
        let (a, b) = if cb.is_some() || a < b { (a, b) } else { (b, a) };
        self.intern(Node { op: Op::Eq, w: 1, a, b, c: 0 })
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.cst(1, 0);
        }
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(1, (x < y) as u128);
        }
        if cb == Some(0) {
            return self.cst(1, 0);
        }
        if cb == Some(1) {
            let z = self.cst(w, 0);
            return self.eq(a, z);
        }
        if ca == Some(0) {
            return self.ne(b, a);
        }
        if ca == Some(mask(w)) {
            return self.cst(1, 0);
        }
        if w <= 64 {
            let (ra, rb) = (self.range[a as usize], self.range[b as usize]);
            if ra.1 < rb.0 {
                return self.cst(1, 1);
            }
            if ra.0 >= rb.1 {
                return self.cst(1, 0);
            }
        }
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::ZExt {
            let iw = self.w(na.a);
            if let Some(y) = cb {
                if y > mask(iw) {
                    return self.cst(1, 1);
                }
                let c = self.cst(iw, y);
                return self.ult(na.a, c);
            }
            if nb.op == Op::ZExt {
                let m = iw.max(self.w(nb.a));
                if m < w {
                    let p = self.zext(na.a, m);
                    let q = self.zext(nb.a, m);
                    return self.ult(p, q);
                }
            }
        }
        if nb.op == Op::ZExt {
            if let Some(x) = ca {
                let iw = self.w(nb.a);
                if x >= mask(iw) {
                    return self.cst(1, 0);
                }
                let c = self.cst(iw, x);
                return self.ult(c, nb.a);
            }
        }
        if na.op == Op::Ite && cb.is_some() && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
            let x = self.ult(na.b, b);
            let z = self.ult(na.c, b);
            return self.ite(na.a, x, z);
        }
        if nb.op == Op::Ite && ca.is_some() && self.is_const(nb.b).is_some() && self.is_const(nb.c).is_some() {
            let x = self.ult(a, nb.b);
            let z = self.ult(a, nb.c);
            return self.ite(nb.a, x, z);
        }
        self.intern(Node { op: Op::Ult, w: 1, a, b, c: 0 })
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let t = self.ult(b, a);
        self.not(t)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.cst(1, 0);
        }
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(1, (sx(x, w) < sx(y, w)) as u128);
        }
        if w <= 64 {
            let h = 1u64 << (w - 1);
            let (ra, rb) = (self.range[a as usize], self.range[b as usize]);
            let (pa, pb) = (ra.1 < h, rb.1 < h);
            let (ma, mb) = (ra.0 >= h, rb.0 >= h);
            if (pa && pb) || (ma && mb) {
                return self.ult(a, b);
            }
            if pa && mb {
                return self.cst(1, 0);
            }
            if ma && pb {
                return self.cst(1, 1);
            }
        }
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::SExt {
            let iw = self.w(na.a);
            if let Some(y) = cb {
                let y = sx(y, w);
                let (lo, hi) = (-(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1);
                if y > hi {
                    return self.cst(1, 1);
                }
                if y <= lo {
                    return self.cst(1, 0);
                }
                let c = self.cst(iw, y as u128);
                return self.slt(na.a, c);
            }
            if nb.op == Op::SExt && self.w(nb.a) == iw {
                return self.slt(na.a, nb.a);
            }
        }
        if nb.op == Op::SExt {
            if let Some(x) = ca {
                let iw = self.w(nb.a);
                let x = sx(x, w);
                let (lo, hi) = (-(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1);
                if x >= hi {
                    return self.cst(1, 0);
                }
                if x < lo {
                    return self.cst(1, 1);
                }
                let c = self.cst(iw, x as u128);
                return self.slt(c, nb.a);
            }
        }
        // sign test
        if cb == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if ca == Some(mask(w)) {
            let t = self.extract(b, w - 1, 1);
            return self.not(t);
        }
        self.intern(Node { op: Op::Slt, w: 1, a, b, c: 0 })
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let t = self.slt(b, a);
        self.not(t)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        match op {
            Op::Add => self.add(a, b),
            Op::Mul => self.mul(a, b),
            Op::UDiv | Op::SDiv | Op::URem | Op::SRem => self.divrem(op, a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            _ => unreachable!(),
        }
    }

    // ---- analyses ----
    pub fn support(&mut self, e: E) -> Rc<[u32]> {
        if let Some(s) = &self.supp[e as usize] {
            return s.clone();
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.supp[x as usize].is_some() {
                stack.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            let kids = kids(&n);
            let mut ready = true;
            for &k in kids.iter().flatten() {
                if self.supp[k as usize].is_none() {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let s: Rc<[u32]> = match n.op {
                Op::Const => Rc::from([]),
                Op::Sym => Rc::from([n.a]),
                _ => {
                    let ks: Vec<u32> = kids.iter().flatten().cloned().collect();
                    if ks.len() == 1 {
                        self.supp[ks[0] as usize].clone().unwrap()
                    } else {
                        let mut acc: Rc<[u32]> = self.supp[ks[0] as usize].clone().unwrap();
                        for k in &ks[1..] {
                            let o = self.supp[*k as usize].clone().unwrap();
                            acc = merge(&acc, &o);
                        }
                        acc
                    }
                }
            };
            self.supp[x as usize] = Some(s);
        }
        self.supp[e as usize].clone().unwrap()
    }

    // truth table of a 1-bit expression over one symbol of at most 8 bits
    pub fn truth_bits(&mut self, e: E, ev: &mut Evaluator) -> Option<[u64; 4]> {
        if let Some(t) = self.truth.get(&e) {
            return *t;
        }
        let s = self.support(e);
        let r = if s.len() == 1 && self.syms[s[0] as usize].w <= 8 {
            let w = self.syms[s[0] as usize].w;
            let mut t = [0u64; 4];
            let mut m = vec![0u64; s[0] as usize + 1];
            for v in 0..(1u64 << w) {
                m[s[0] as usize] = v;
                ev.reset();
                if ev.eval(self, e, &m) != 0 {
                    t[(v >> 6) as usize] |= 1 << (v & 63);
                }
            }
            ev.reset();
            Some(t)
        } else {
            None
        };
        self.truth.insert(e, r);
        r
    }

    pub fn show(&self, e: E) -> String {
        self.show_d(e, 6)
    }
    pub fn show_d(&self, e: E, d: u32) -> String {
        let n = self.node(e);
        if let Some(v) = self.is_const(e) {
            return format!("{:#x}:{}", v, n.w);
        }
        if d == 0 {
            return format!("#{}", e);
        }
        let s = |x: u32| self.show_d(x, d - 1);
        match n.op {
            Op::Sym => format!("s{}:{}", self.syms[n.a as usize].seq, n.w),
            Op::Not => format!("~{}", s(n.a)),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, s(n.a)),
            Op::Extract => format!("{}[{}+:{}]", s(n.a), n.b, n.w),
            Op::Ite => format!("({} ? {} : {})", s(n.a), s(n.b), s(n.c)),
            _ => format!("({:?} {} {})", n.op, s(n.a), s(n.b)),
        }
    }
}

#[inline]
pub fn kids(n: &Node) -> [Option<u32>; 3] {
    match n.op {
        Op::Const | Op::Sym => [None, None, None],
        Op::Not | Op::ZExt | Op::SExt | Op::Extract => [Some(n.a), None, None],
        Op::Ite => [Some(n.a), Some(n.b), Some(n.c)],
        _ => [Some(n.a), Some(n.b), None],
    }
}

fn merge(a: &Rc<[u32]>, b: &Rc<[u32]>) -> Rc<[u32]> {
    if a.len() == 0 {
        return b.clone();
    }
    if b.len() == 0 || Rc::ptr_eq(a, b) {
        return a.clone();
    }
    let mut v = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] {
            v.push(a[i]);
            i += 1;
        } else if a[i] > b[j] {
            v.push(b[j]);
            j += 1;
        } else {
            v.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    v.extend_from_slice(&a[i..]);
    v.extend_from_slice(&b[j..]);
    if v.len() == a.len() {
        return a.clone();
    }
    if v.len() == b.len() {
        return b.clone();
    }
    Rc::from(v)
}

pub fn fold2(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = b.min(w as u128 - 1) as u32;
            (sx(a, w) >> s) as u128
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        _ => unreachable!(),
    }) & m
}

// memoising evaluator under a model (symbol id -> value)
pub struct Evaluator {
    gen: u32,
    stamp: Vec<u32>,
    val: Vec<u128>,
    stack: Vec<E>,
}
impl Evaluator {
    pub fn new() -> Self {
        Evaluator { gen: 1, stamp: vec![], val: vec![], stack: vec![] }
    }
    pub fn reset(&mut self) {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 {
            self.stamp.iter_mut().for_each(|x| *x = 0);
            self.gen = 1;
        }
    }
    pub fn eval(&mut self, ar: &Arena, e: E, model: &[u64]) -> u128 {
        if let Some(v) = ar.is_const(e) {
            return v;
        }
        if self.stamp.len() < ar.nodes.len() {
            self.stamp.resize(ar.nodes.len() + 1024, 0);
            self.val.resize(ar.nodes.len() + 1024, 0);
        }
        if self.stamp[e as usize] == self.gen {
            return self.val[e as usize];
        }
        let mut stack = std::mem::take(&mut self.stack);
        stack.clear();
        stack.push(e);
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            if self.stamp[xi] == self.gen {
                stack.pop();
                continue;
            }
            let n = ar.nodes[xi];
            let w = n.w as u32;
            macro_rules! get {
                ($k:expr) => {{
                    let k = $k as usize;
                    if self.stamp[k] != self.gen {
                        stack.push($k);
                        continue;
                    }
                    self.val[k]
                }};
            }
            let v: u128 = match n.op {
                Op::Const => ar.is_const(x).unwrap(),
                Op::Sym => *model.get(n.a as usize).unwrap_or(&0) as u128,
                Op::Not => !get!(n.a) & mask(w),
                Op::ZExt => get!(n.a),
                Op::SExt => {
                    let v = get!(n.a);
                    (sx(v, ar.w(n.a)) as u128) & mask(w)
                }
                Op::Extract => (get!(n.a) >> n.b) & mask(w),
                Op::Concat => {
                    let h = get!(n.a);
                    let l = get!(n.b);
                    (h << ar.w(n.b)) | l
                }
                Op::Ite => {
                    let c = get!(n.a);
                    if c != 0 {
                        get!(n.b)
                    } else {
                        get!(n.c)
                    }
                }
                Op::Eq => {
                    let a = get!(n.a);
                    let b = get!(n.b);
                    (a == b) as u128
                }
                Op::Ult => {
                    let a = get!(n.a);
                    let b = get!(n.b);
                    (a < b) as u128
                }
                Op::Slt => {
                    let a = get!(n.a);
                    let b = get!(n.b);
                    let iw = ar.w(n.a);
                    (sx(a, iw) < sx(b, iw)) as u128
                }
                _ => {
                    let a = get!(n.a);
                    let b = get!(n.b);
                    fold2(n.op, w, a, b)
                }
            };
            self.stamp[xi] = self.gen;
            self.val[xi] = v;
            stack.pop();
        }
        self.stack = stack;
        self.val[e as usize]
    }
}
