// External functions: allocator, libc, the small model of the file system, harness intrinsics,
// LLVM intrinsics.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
type R<T> = Result<T, Stop>;

const EIO: u64 = 5;
const ENOENT: u64 = 2;
const EBADF: u64 = 9;

impl Exec {
    fn wa(&self, m: &Module, c: &CallIns, i: usize) -> u32 {
        match &m.tys[c.atys[i] as usize] {
            Ty::Vec(_, e) => m.bits(*e) as u32,
            _ => m.bits(c.atys[i]) as u32,
        }
    }
    // apply a scalar function elementwise
    fn each(&mut self, m: &Module, c: &CallIns, args: &[Val], f: &mut dyn FnMut(&mut Exec, u32, &[Val]) -> Val) -> Val {
        match &m.tys[c.atys[0] as usize] {
            Ty::Vec(n, e) => {
                let w = m.bits(*e) as u32;
                let l: Vec<Val> = (0..*n as usize)
                    .map(|i| {
                        let a: Vec<Val> = args.iter().map(|x| if let Val::A(_) = x { el(x, i) } else { x.clone() }).collect();
                        f(self, w, &a)
                    })
                    .collect();
                Val::A(l.into())
            }
            _ => {
                let w = m.bits(c.atys[0]) as u32;
                f(self, w, args)
            }
        }
    }
    fn cttz(&mut self, w: u32, v: &Val) -> Val {
        match v {
            Val::C(x) => Val::C(if *x == 0 { w as u64 } else { x.trailing_zeros() as u64 }),
            Val::S(e) => {
                let e = *e;
                let mut acc = self.ar.cst(w, w as u128);
                for i in (0..w).rev() {
                    let b = self.ar.extract(e, i, 1);
                    let k = self.ar.cst(w, i as u128);
                    acc = self.ar.ite(b, k, acc);
                }
                self.mk(acc)
            }
            _ => Val::U,
        }
    }
    fn ctlz(&mut self, w: u32, v: &Val) -> Val {
        match v {
            Val::C(x) => Val::C(if *x == 0 { w as u64 } else { (w - 64 + x.leading_zeros()) as u64 & 0xffff_ffff }),
            Val::S(e) => {
                let e = *e;
                let mut acc = self.ar.cst(w, w as u128);
                for i in 0..w {
                    let b = self.ar.extract(e, i, 1);
                    let k = self.ar.cst(w, (w - 1 - i) as u128);
                    acc = self.ar.ite(b, k, acc);
                }
                self.mk(acc)
            }
            _ => Val::U,
        }
    }
    fn ctpop(&mut self, w: u32, v: &Val) -> Val {
        match v {
            Val::C(x) => Val::C(x.count_ones() as u64),
            Val::S(e) => {
                let e = *e;
                let mut acc = self.ar.cst(w, 0);
                for i in 0..w {
                    let b = self.ar.extract(e, i, 1);
                    let b = self.ar.zext(b, w);
                    acc = self.ar.add(acc, b);
                }
                self.mk(acc)
            }
            _ => Val::U,
        }
    }
    fn bswap(&mut self, w: u32, v: &Val) -> Val {
        let e = self.ex(v, w);
        let mut acc = self.ar.extract(e, 0, 8);
        for i in 1..w / 8 {
            let b = self.ar.extract(e, 8 * i, 8);
            acc = self.ar.concat(acc, b);
        }
        self.mk(acc)
    }
    fn bitrev(&mut self, w: u32, v: &Val) -> Val {
        let e = self.ex(v, w);
        let mut acc = self.ar.extract(e, 0, 1);
        for i in 1..w {
            let b = self.ar.extract(e, i, 1);
            acc = self.ar.concat(acc, b);
        }
        self.mk(acc)
    }
    fn fsh(&mut self, left: bool, w: u32, a: &Val, b: &Val, s: &Val) -> Val {
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let s = match s {
            Val::C(s) => *s % w as u64,
            Val::S(se) => {
                let se = *se;
                if w > 64 {
                    return Val::U;
                }
                let cat = self.ar.concat(x, y);
                let wm = self.ar.cst(w, w as u128);
                let k = self.ar.divrem(Op::URem, se, wm);
                let k2 = self.ar.zext(k, 2 * w);
                if left {
                    let t = self.ar.shl(cat, k2);
                    let r = self.ar.extract(t, w, w);
                    return self.mk(r);
                }
                let t = self.ar.lshr(cat, k2);
                let r = self.ar.extract(t, 0, w);
                return self.mk(r);
            }
            _ => return Val::U,
        } as u32;
        // x ++ y rotated: pieces, without building a 2w value
        let k = if left { s } else { (w - s) % w };
        if k == 0 {
            return self.mk(if left { x } else { y });
        }
        let hi = self.ar.extract(x, 0, w - k);
        let lo = self.ar.extract(y, w - k, k);
        let r = self.ar.concat(hi, lo);
        self.mk(r)
    }
    fn addsub_o(&mut self, sub: bool, signed: bool, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::U, _) | (_, Val::U) = (a, b) {
            return Val::A(vec![Val::U, Val::U].into());
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = if sub { self.ar.sub(x, y) } else { self.ar.add(x, y) };
        let o = if !signed {
            if sub {
                self.ar.ult(x, y)
            } else {
                self.ar.ult(r, x)
            }
        } else {
            let z = self.ar.cst(w, 0);
            let (sx_, sy, sr) = (self.ar.slt(x, z), self.ar.slt(y, z), self.ar.slt(r, z));
            let d = if sub { self.ar.xor(sx_, sy) } else { self.ar.eq(sx_, sy) };
            let e = self.ar.xor(sx_, sr);
            self.ar.and(d, e)
        };
        let (r, o) = (self.mk(r), self.mk(o));
        Val::A(vec![r, o].into())
    }
    fn mul_o(&mut self, signed: bool, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::U, _) | (_, Val::U) = (a, b) {
            return Ok(Val::A(vec![Val::U, Val::U].into()));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        if w > 64 {
            return match (self.ar.is_const(x), self.ar.is_const(y)) {
                (Some(p), Some(q)) if !signed => {
                    let (r, o) = p.overflowing_mul(q);
                    Ok(Val::A(vec![Exec::mkc(w, r), Val::C(o as u64)].into()))
                }
                _ => Err(Stop::Unsupported("128-bit multiplication".into())),
            };
        }
        let (ex, ey) = if signed {
            (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w))
        } else {
            (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w))
        };
        let p = self.ar.mul(ex, ey);
        let r = self.ar.extract(p, 0, w);
        let back = if signed { self.ar.sext(r, 2 * w) } else { self.ar.zext(r, 2 * w) };
        let o = if w <= 64 && !signed {
            // interval check first
            let (ra, rb) = (self.ar.range[x as usize], self.ar.range[y as usize]);
            if (ra.1 as u128) * (rb.1 as u128) <= mask(w) {
                self.ar.cst(1, 0)
            } else {
                self.ar.ne(p, back)
            }
        } else {
            self.ar.ne(p, back)
        };
        let (r, o) = (self.mk(r), self.mk(o));
        Ok(Val::A(vec![r, o].into()))
    }
    fn sat(&mut self, signed: bool, sub: bool, w: u32, a: &Val, b: &Val) -> Val {
        let ro = self.addsub_o(sub, signed, w, a, b);
        let (r, o) = (el(&ro, 0), el(&ro, 1));
        let r = self.ex(&r, w);
        let o = self.ex(&o, 1);
        let lim = if !signed {
            self.ar.cst(w, if sub { 0 } else { !0 })
        } else {
            let x = self.ex(a, w);
            let z = self.ar.cst(w, 0);
            let n = self.ar.slt(x, z);
            let lo = self.ar.cst(w, 1u128 << (w - 1));
            let hi = self.ar.cst(w, (1u128 << (w - 1)) - 1);
            self.ar.ite(n, lo, hi)
        };
        let e = self.ar.ite(o, lim, r);
        self.mk(e)
    }
    fn cmp3(&mut self, signed: bool, rw: u32, w: u32, a: &Val, b: &Val) -> Val {
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let l = if signed { self.ar.slt(x, y) } else { self.ar.ult(x, y) };
        let g = if signed { self.ar.slt(y, x) } else { self.ar.ult(y, x) };
        let (m1, z, p1) = (self.ar.cst(rw, !0), self.ar.cst(rw, 0), self.ar.cst(rw, 1));
        let t = self.ar.ite(g, p1, z);
        let e = self.ar.ite(l, m1, t);
        self.mk(e)
    }
    fn satw(&mut self, e: E, from_signed: bool, to_w: u32, to_signed: bool) -> E {
        let w = self.ar.w(e);
        let (lo, hi): (i128, i128) = if to_signed { (-(1i128 << (to_w - 1)), (1i128 << (to_w - 1)) - 1) } else { (0, (1i128 << to_w) - 1) };
        let l = self.ar.cst(w, lo as u128);
        let h = self.ar.cst(w, hi as u128);
        let _ = from_signed;
        let a = self.ar.slt(e, l);
        let b = self.ar.slt(h, e);
        let t = self.ar.extract(e, 0, to_w);
        let l2 = self.ar.cst(to_w, lo as u128);
        let h2 = self.ar.cst(to_w, hi as u128);
        let x = self.ar.ite(b, h2, t);
        self.ar.ite(a, l2, x)
    }

    fn malloc(&mut self, st: &mut State, n: u64, zero: bool) -> R<Val> {
        if n > (64 << 20) || st.mem.bytes + n > (512 << 20) {
            return Err(Stop::Unsupported(format!("allocation of {} bytes", n)));
        }
        Ok(Val::C(st.mem.alloc(if zero { Obj::zero(n) } else { Obj::uninit(n) })))
    }
    fn set_errno(&mut self, st: &mut State, e: u64) -> R<()> {
        let a = st.errno;
        self.x_store(st, a, 32, &Val::C(e))
    }
    fn fail(&mut self, st: &mut State, e: u64, w: u32) -> R<Option<Val>> {
        self.set_errno(st, e)?;
        Ok(Some(Val::C(if w == 64 { !0 } else { 0xffff_ffff })))
    }
    // true: the environment makes this call fail
    fn faulty(&mut self, st: &mut State) -> bool {
        let k = st.syscalls;
        st.syscalls += 1;
        st.fault_at >= 0 && k == st.fault_at
    }
    fn file_by_name(&self, st: &State, n: &[u8]) -> Option<usize> {
        st.files.iter().position(|f| f.2 && f.0 == n)
    }
    fn fsize(&self, st: &State, f: usize) -> u64 {
        let a = st.files[f].1;
        st.mem.obj((a >> 32) as u32).map(|o| o.size).unwrap_or(0)
    }

    pub fn external(&mut self, st: &mut State, m: &Module, c: &CallIns, x: X, args: &[Val]) -> R<Option<Val>> {
        let cst = |v: u64| Ok(Some(Val::C(v)));
        Ok(match x {
            X::Malloc => {
                let n = self.conc(st, &args[0])?;
                Some(self.malloc(st, n, false)?)
            }
            X::Calloc => {
                let n = self.conc(st, &args[0])?;
                let k = self.conc(st, &args[1])?;
                Some(self.malloc(st, n.saturating_mul(k), true)?)
            }
            X::PosixMemalign => {
                let n = self.conc(st, &args[2])?;
                let p = self.ptr(st, &args[0], 8)?;
                let v = self.malloc(st, n, false)?;
                self.x_store(st, p, 64, &v)?;
                return cst(0);
            }
            X::Realloc => {
                let p = self.conc(st, &args[0])?;
                let n = self.conc(st, &args[1])?;
                let v = self.malloc(st, n, false)?;
                if p != 0 {
                    let old = match st.mem.find(p, 0) {
                        Some((i, 0)) => st.mem.obj(i).unwrap().size,
                        _ => return Err(Stop::Violation("memory".into(), "realloc of a bad pointer".into())),
                    };
                    if let Val::C(d) = v {
                        self.copy(st, d, p, old.min(n))?;
                    }
                    st.mem.free(p);
                }
                Some(v)
            }
            X::Free => {
                let p = self.conc(st, &args[0])?;
                if p != 0 && !st.mem.free(p) {
                    return Err(Stop::Violation("memory".into(), format!("free of a bad pointer {:#x}", p)));
                }
                None
            }
            X::Bcmp | X::Memcmp => {
                let n = self.conc(st, &args[2])?;
                if n == 0 {
                    return cst(0);
                }
                let a = self.ptr(st, &args[0], n)?;
                let b = self.ptr(st, &args[1], n)?;
                if let (Some(p), Some(q)) = (st.mem.bytes_at(a, n), st.mem.bytes_at(b, n)) {
                    return cst(match p.cmp(&q) {
                        std::cmp::Ordering::Less => 0xffff_ffff,
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    });
                }
                let mut acc = self.ar.cst(32, 0);
                for i in (0..n).rev() {
                    let p = self.byte(st, a + i)?;
                    let q = self.byte(st, b + i)?;
                    let e = self.ar.eq(p, q);
                    let d = if x == X::Bcmp {
                        self.ar.cst(32, 1)
                    } else {
                        let l = self.ar.ult(p, q);
                        let (m1, p1) = (self.ar.cst(32, !0), self.ar.cst(32, 1));
                        self.ar.ite(l, m1, p1)
                    };
                    acc = self.ar.ite(e, acc, d);
                }
                Some(self.mk(acc))
            }
            X::Memcpy | X::IMemcpy => {
                let n = self.conc(st, &args[2])?;
                let d = self.ptr(st, &args[0], n)?;
                let s = self.ptr(st, &args[1], n)?;
                self.copy(st, d, s, n)?;
                Some(Val::C(d))
            }
            X::Memset | X::IMemset => {
                let n = self.conc(st, &args[2])?;
                let d = self.ptr(st, &args[0], n)?;
                let v = match &args[1] {
                    Val::C(x) => Val::C(x & 0xff),
                    Val::S(e) => {
                        let e = self.ar.extract(*e, 0, 8);
                        self.mk(e)
                    }
                    v => v.clone(),
                };
                self.set(st, d, &v, n)?;
                Some(Val::C(d))
            }
            X::Strlen => {
                let a = self.conc(st, &args[0])?;
                match st.mem.cstr(a) {
                    Some(b) => Some(Val::C(b.len() as u64)),
                    None => return Err(Stop::Unsupported("strlen of symbolic bytes".into())),
                }
            }
            X::Errno => Some(Val::C(st.errno)),
            X::Getenv => Some(Val::C(0)),
            X::Zero => Some(Val::C(0)),
            X::MinusOne => return self.fail(st, ENOENT, 64),
            X::Syscall => {
                let n = self.conc(st, &args[0])?;
                match n {
                    318 => {
                        // getrandom: fixed bytes; nothing checked depends on their value
                        let p = self.conc(st, &args[1])?;
                        let k = self.conc(st, &args[2])?;
                        self.set(st, p, &Val::C(0x5a), k)?;
                        return cst(k);
                    }
                    202 => return cst(0),
                    186 => return cst(1),
                    _ => return Err(Stop::Unsupported(format!("syscall {}", n))),
                }
            }
            X::Getrandom => {
                let p = self.conc(st, &args[0])?;
                let k = self.conc(st, &args[1])?;
                self.set(st, p, &Val::C(0x5a), k)?;
                return cst(k);
            }
            X::Fcntl => Some(Val::C(0)),
            X::Strerror => {
                let p = self.conc(st, &args[1])?;
                self.x_store(st, p, 16, &Val::C(0x65))?;
                return cst(0);
            }
            X::Open => {
                let p = self.conc(st, &args[0])?;
                let fl = self.conc(st, &args[1])? as i32;
                let n = match st.mem.cstr(p) {
                    Some(n) => n,
                    None => return Err(Stop::Unsupported("open with a symbolic name".into())),
                };
                if self.faulty(st) {
                    return self.fail(st, EIO, 32);
                }
                let f = match self.file_by_name(st, &n) {
                    Some(f) => {
                        if fl & 0x80 != 0 && fl & 0x40 != 0 {
                            return self.fail(st, 17, 32);
                        }
                        f
                    }
                    None => {
                        if fl & 0x40 == 0 {
                            return self.fail(st, ENOENT, 32);
                        }
                        let a = st.mem.alloc(Obj::zero(0));
                        st.files.push((n, a, true));
                        st.files.len() - 1
                    }
                };
                if fl & 0x200 != 0 {
                    let a = st.files[f].1;
                    st.mem.obj_mut((a >> 32) as u32).unwrap().resize(0);
                }
                st.fds.push(FileDesc { file: f, pos: 0, flags: fl, open: true });
                Some(Val::C(st.fds.len() as u64 - 1))
            }
            X::Close => {
                let fd = self.conc(st, &args[0])? as usize;
                if let Some(d) = st.fds.get_mut(fd) {
                    d.open = false;
                }
                Some(Val::C(0))
            }
            X::Read => {
                let fd = self.conc(st, &args[0])? as usize;
                let p = self.conc(st, &args[1])?;
                let n = self.conc(st, &args[2])?;
                if fd < 3 {
                    return cst(0);
                }
                if self.faulty(st) {
                    return self.fail(st, EIO, 64);
                }
                let d = match st.fds.get(fd) {
                    Some(d) if d.open => d.clone(),
                    _ => return self.fail(st, EBADF, 64),
                };
                let size = self.fsize(st, d.file);
                let k = n.min(size.saturating_sub(d.pos));
                let a = st.files[d.file].1;
                self.copy(st, p, a + d.pos, k)?;
                st.fds[fd].pos += k;
                Some(Val::C(k))
            }
            X::Write => {
                let fd = self.conc(st, &args[0])? as usize;
                let p = self.conc(st, &args[1])?;
                let n = self.conc(st, &args[2])?;
                if fd == 2 {
                    if self.log {
                        if let Some(b) = st.mem.bytes_at(p, n) {
                            eprint!("{}", String::from_utf8_lossy(&b));
                        }
                    }
                    return cst(n);
                }
                if fd == 1 {
                    if self.faulty(st) {
                        return self.fail(st, EIO, 64);
                    }
                    let a = st.stdout;
                    let i = (a >> 32) as u32;
                    let o = st.mem.obj_mut(i).unwrap();
                    let at = o.size;
                    o.resize(at + n);
                    self.copy(st, a + at, p, n)?;
                    return cst(n);
                }
                if self.faulty(st) {
                    return self.fail(st, EIO, 64);
                }
                let d = match st.fds.get(fd) {
                    Some(d) if d.open => d.clone(),
                    _ => return self.fail(st, EBADF, 64),
                };
                if d.flags & 3 == 0 {
                    return self.fail(st, EBADF, 64);
                }
                let pos = if d.flags & 0x400 != 0 { self.fsize(st, d.file) } else { d.pos };
                let a = st.files[d.file].1;
                let o = st.mem.obj_mut((a >> 32) as u32).unwrap();
                if o.size < pos + n {
                    o.resize(pos + n);
                }
                self.copy(st, a + pos, p, n)?;
                st.fds[fd].pos = pos + n;
                Some(Val::C(n))
            }
            X::Lseek => {
                let fd = self.conc(st, &args[0])? as usize;
                let off = self.conc(st, &args[1])? as i64;
                let wh = self.conc(st, &args[2])?;
                let d = match st.fds.get(fd) {
                    Some(d) if d.open => d.clone(),
                    _ => return self.fail(st, EBADF, 64),
                };
                let b = match wh as u32 {
                    0 => 0,
                    1 => d.pos as i64,
                    _ => self.fsize(st, d.file) as i64,
                };
                if b + off < 0 {
                    return self.fail(st, 22, 64);
                }
                st.fds[fd].pos = (b + off) as u64;
                Some(Val::C((b + off) as u64))
            }
            X::Fstat | X::Statx => {
                // report "not supported": callers fall back to unsized reads
                return self.fail(st, 38, 32);
            }
            X::Rename => {
                let p = self.conc(st, &args[0])?;
                let q = self.conc(st, &args[1])?;
                let (a, b) = match (st.mem.cstr(p), st.mem.cstr(q)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return Err(Stop::Unsupported("rename with a symbolic name".into())),
                };
                if self.faulty(st) {
                    return self.fail(st, EIO, 32);
                }
                match self.file_by_name(st, &a) {
                    None => return self.fail(st, ENOENT, 32),
                    Some(f) => {
                        if let Some(g) = self.file_by_name(st, &b) {
                            if g != f {
                                st.files[g].2 = false;
                            }
                        }
                        st.files[f].0 = b;
                    }
                }
                Some(Val::C(0))
            }
            X::Unlink => {
                let p = self.conc(st, &args[0])?;
                let n = st.mem.cstr(p).unwrap_or_default();
                match self.file_by_name(st, &n) {
                    None => return self.fail(st, ENOENT, 32),
                    Some(f) => st.files[f].2 = false,
                }
                Some(Val::C(0))
            }
            X::Abort => return Err(Stop::Panic("abort".into())),
            X::Exit => return Err(Stop::Done),
            X::ITrap => return Err(Stop::Panic("trap".into())),

            // ---- harness ----
            X::NdSym => {
                let w = self.conc(st, &args[0])? as u32;
                let e = self.new_input(st, w);
                let e = self.ar.zext(e, 64);
                Some(self.mk(e))
            }
            X::NdRange => {
                let lo = self.conc(st, &args[0])?;
                let hi = self.conc(st, &args[1])?;
                if lo > hi {
                    return Err(Stop::Infeasible);
                }
                if lo == hi {
                    return cst(lo);
                }
                let w = 64 - hi.leading_zeros();
                let had = st.hints.contains_key(&(st.nsym, w, 0));
                let e = self.new_input(st, w);
                if !had {
                    self.set_model(st, e, lo);
                }
                let (l, h) = (self.ar.cst(w, lo as u128), self.ar.cst(w, hi as u128));
                let a = self.ar.ule(l, e);
                let b = self.ar.ule(e, h);
                self.x_assume(st, a)?;
                self.x_assume(st, b)?;
                let e = self.ar.zext(e, 64);
                Some(self.mk(e))
            }
            X::NdBytes => {
                let p = self.conc(st, &args[0])?;
                let n = self.conc(st, &args[1])?;
                for i in 0..n {
                    let e = self.new_input(st, 8);
                    self.x_store(st, p + i, 8, &Val::S(e))?;
                }
                None
            }
            X::NdAssume => {
                let e = self.ex(&args[0], 1);
                let e = if self.ar.w(e) > 1 { self.ar.extract(e, 0, 1) } else { e };
                self.flush(st)?;
                self.x_assume(st, e)?;
                None
            }
            X::NdAssert => {
                let e = self.ex(&args[0], 1);
                let e = if self.ar.w(e) > 1 { self.ar.extract(e, 0, 1) } else { e };
                let msg = self.text(st, &args[1], &args[2])?;
                self.x_assert(st, e, &msg)?;
                None
            }
            X::NdFail => {
                let msg = self.text(st, &args[0], &args[1])?;
                return Err(Stop::Violation("assert".into(), msg));
            }
            X::NdParam => {
                let i = self.conc(st, &args[0])? as usize;
                Some(Val::C(self.cfg.params.get(i).cloned().unwrap_or(0) as u64))
            }
            X::NdTrace => {
                let e = self.ex(&args[0], 64);
                st.trace.push(e);
                None
            }
            X::NdConc => {
                let v = self.conc(st, &args[0])?;
                Some(Val::C(v))
            }
            X::NdFile => {
                let np = self.conc(st, &args[0])?;
                let nn = self.conc(st, &args[1])?;
                let dp = self.conc(st, &args[2])?;
                let dn = self.conc(st, &args[3])?;
                let name = st.mem.bytes_at(np, nn).unwrap_or_default();
                let a = st.mem.alloc(Obj::zero(dn));
                self.copy(st, a, dp, dn)?;
                st.files.push((name, a, true));
                None
            }
            X::NdReadFile => {
                let np = self.conc(st, &args[0])?;
                let nn = self.conc(st, &args[1])?;
                let dp = self.conc(st, &args[2])?;
                let dn = self.conc(st, &args[3])?;
                let name = st.mem.bytes_at(np, nn).unwrap_or_default();
                match self.file_by_name(st, &name) {
                    None => return cst(!0),
                    Some(f) => {
                        let n = self.fsize(st, f);
                        let a = st.files[f].1;
                        self.copy(st, dp, a, n.min(dn))?;
                        Some(Val::C(n))
                    }
                }
            }
            X::NdFault => {
                st.fault_at = self.conc(st, &args[0])? as i64;
                st.syscalls = 0;
                None
            }
            X::NdAllowPanic => {
                st.allow_panic = self.conc(st, &args[0])? != 0;
                None
            }
            X::NdCover => {
                let k = self.conc(st, &args[0])?;
                st.cover |= 1 << (k & 63);
                None
            }
            X::NdSteps => {
                let k = self.conc(st, &args[0])?;
                st.limit = st.steps + k;
                None
            }
            X::NdEngine => Some(Val::C(1)),
            X::NdLog => {
                if self.log {
                    let t = self.text(st, &args[0], &args[1])?;
                    let e = self.ex(&args[2], 64);
                    let s = self.ar.show(e);
                    let v = self.eval(st, e);
                    eprintln!("[nd_log] {} {} ({:#x})", t, s, v);
                }
                None
            }
            X::NdStdout => {
                let dp = self.conc(st, &args[0])?;
                let dn = self.conc(st, &args[1])?;
                let a = st.stdout;
                let n = st.mem.obj((a >> 32) as u32).unwrap().size;
                self.copy(st, dp, a, n.min(dn))?;
                Some(Val::C(n))
            }

            // ---- LLVM ----
            X::INop | X::IPause => None,
            X::IExpect => Some(args[0].clone()),
            X::IFalse => Some(Val::C(0)),
            X::ITls => Some(args[0].clone()),
            X::IUmin | X::IUmax | X::ISmin | X::ISmax if !matches!(m.tys[c.atys[0] as usize], Ty::Vec(..)) => {
                let w = m.bits(c.atys[0]) as u32;
                Some(self.minmax_in(st, x, w, &args[0], &args[1]))
            }
            X::IUmin | X::IUmax | X::ISmin | X::ISmax => Some(self.each(m, c, args, &mut |s, w, a| s.minmax(x, w, &a[0], &a[1]))),
            X::IAbs => Some(self.each(m, c, args, &mut |s, w, a| {
                let e = s.ex(&a[0], w);
                let n = s.ar.neg(e);
                let z = s.ar.cst(w, 0);
                let k = s.ar.slt(e, z);
                let r = s.ar.ite(k, n, e);
                s.mk(r)
            })),
            // where bytes decide the position (a search), each position is a path of its own
            X::ICttz if !matches!(m.tys[c.atys[0] as usize], Ty::Vec(..)) => {
                let w = m.bits(c.atys[0]) as u32;
                let v = self.cttz(w, &args[0]);
                match v {
                    Val::S(e) if self.ar.support(e).iter().all(|&s| self.ar.syms[s as usize].w <= 8) => Some(Val::C(self.concretize(st, e)? as u64)),
                    v => Some(v),
                }
            }
            X::ICttz => Some(self.each(m, c, &args[..1], &mut |s, w, a| s.cttz(w, &a[0]))),
            X::ICtlz => Some(self.each(m, c, &args[..1], &mut |s, w, a| s.ctlz(w, &a[0]))),
            X::ICtpop => Some(self.each(m, c, args, &mut |s, w, a| s.ctpop(w, &a[0]))),
            X::IBswap => Some(self.each(m, c, args, &mut |s, w, a| s.bswap(w, &a[0]))),
            X::IBitrev => Some(self.each(m, c, args, &mut |s, w, a| s.bitrev(w, &a[0]))),
            X::IFshl => Some(self.each(m, c, args, &mut |s, w, a| s.fsh(true, w, &a[0], &a[1], &a[2]))),
            X::IFshr => Some(self.each(m, c, args, &mut |s, w, a| s.fsh(false, w, &a[0], &a[1], &a[2]))),
            X::IUaddSat => Some(self.each(m, c, args, &mut |s, w, a| s.sat(false, false, w, &a[0], &a[1]))),
            X::IUsubSat => Some(self.each(m, c, args, &mut |s, w, a| s.sat(false, true, w, &a[0], &a[1]))),
            X::ISaddSat => Some(self.each(m, c, args, &mut |s, w, a| s.sat(true, false, w, &a[0], &a[1]))),
            X::ISsubSat => Some(self.each(m, c, args, &mut |s, w, a| s.sat(true, true, w, &a[0], &a[1]))),
            X::IAddO(sg) => {
                let w = self.wa(m, c, 0);
                Some(self.addsub_o(false, sg, w, &args[0], &args[1]))
            }
            X::ISubO(sg) => {
                let w = self.wa(m, c, 0);
                Some(self.addsub_o(true, sg, w, &args[0], &args[1]))
            }
            X::IMulO(sg) => {
                let w = self.wa(m, c, 0);
                Some(self.mul_o(sg, w, &args[0], &args[1])?)
            }
            X::IUcmp | X::IScmp => {
                let w = self.wa(m, c, 0);
                let rw = m.bits(c.rty) as u32;
                Some(self.cmp3(x == X::IScmp, rw, w, &args[0], &args[1]))
            }
            X::ILoadRel => {
                let p = self.conc(st, &args[0])?;
                let o = self.conc(st, &args[1])?;
                let v = self.x_load(st, p.wrapping_add(o), 32)?;
                let v = self.conc(st, &v)?;
                Some(Val::C(p.wrapping_add(v as u32 as i32 as i64 as u64)))
            }
            X::IRed(op) => match &m.tys[c.atys[0] as usize] {
                Ty::Vec(n, e) => {
                    let w = m.bits(*e) as u32;
                    let mut acc = el(&args[0], 0);
                    for i in 1..*n as usize {
                        acc = self.x_bin(op, w, &acc, &el(&args[0], i));
                    }
                    Some(acc)
                }
                _ => None,
            },
            X::IPtrmask => Some(self.x_bin(BinOp::And, 64, &args[0], &args[1])),
            X::IObjsize => Some(Val::C(!0)),
            X::IMovmsk => {
                let n = match &args[0] {
                    Val::A(l) => l.len(),
                    _ => 0,
                };
                let mut acc: Option<E> = None;
                for i in (0..n).rev() {
                    let e = self.ex(&el(&args[0], i), 8);
                    let b = self.ar.extract(e, 7, 1);
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.ar.concat(h, b),
                    });
                }
                let e = self.ar.zext(acc.unwrap(), 32);
                Some(self.mk(e))
            }
            X::IPshufb => {
                let n = match &args[0] {
                    Val::A(l) => l.len(),
                    _ => 0,
                };
                let mut out = vec![];
                for i in 0..n {
                    let lane = i / 16 * 16;
                    let ix = self.ex(&el(&args[1], i), 8);
                    let v = match self.ar.is_const(ix) {
                        Some(k) if k & 0x80 != 0 => self.ar.cst(8, 0),
                        Some(k) => self.ex(&el(&args[0], lane + (k as usize & 15)), 8),
                        None => {
                            let lo = self.ar.extract(ix, 0, 4);
                            let mut acc = self.ex(&el(&args[0], lane), 8);
                            // group equal table entries
                            for k in 1..16 {
                                let t = self.ex(&el(&args[0], lane + k), 8);
                                let kk = self.ar.cst(4, k as u128);
                                let q = self.ar.eq(lo, kk);
                                acc = self.ar.ite(q, t, acc);
                            }
                            let hi = self.ar.extract(ix, 7, 1);
                            let z = self.ar.cst(8, 0);
                            self.ar.ite(hi, z, acc)
                        }
                    };
                    out.push(self.mk(v));
                }
                Some(Val::A(out.into()))
            }
            X::IPmaddubs => {
                let n = match &args[0] {
                    Val::A(l) => l.len() / 2,
                    _ => 0,
                };
                let mut out = vec![];
                for i in 0..n {
                    let mut p = vec![];
                    for j in 0..2 {
                        let a = self.ex(&el(&args[0], 2 * i + j), 8);
                        let b = self.ex(&el(&args[1], 2 * i + j), 8);
                        let a = self.ar.zext(a, 32);
                        let b = self.ar.sext(b, 32);
                        p.push(self.ar.mul(a, b));
                    }
                    let s = self.ar.add(p[0], p[1]);
                    let r = self.satw(s, true, 16, true);
                    out.push(self.mk(r));
                }
                Some(Val::A(out.into()))
            }
            X::IPmaddwd => {
                let n = match &args[0] {
                    Val::A(l) => l.len() / 2,
                    _ => 0,
                };
                let mut out = vec![];
                for i in 0..n {
                    let mut p = vec![];
                    for j in 0..2 {
                        let a = self.ex(&el(&args[0], 2 * i + j), 16);
                        let b = self.ex(&el(&args[1], 2 * i + j), 16);
                        let a = self.ar.sext(a, 32);
                        let b = self.ar.sext(b, 32);
                        p.push(self.ar.mul(a, b));
                    }
                    let s = self.ar.add(p[0], p[1]);
                    out.push(self.mk(s));
                }
                Some(Val::A(out.into()))
            }
            X::IPackuswb | X::IPackusdw | X::IPacksswb => {
                let (fw, tw, sg) = match x {
                    X::IPackuswb => (16, 8, false),
                    X::IPackusdw => (32, 16, false),
                    _ => (16, 8, true),
                };
                let n = match &args[0] {
                    Val::A(l) => l.len(),
                    _ => 0,
                };
                let per = 128 / fw as usize; // elements per lane
                let mut out = vec![];
                for lane in 0..n / per {
                    for src in 0..2 {
                        for i in 0..per {
                            let e = self.ex(&el(&args[src], lane * per + i), fw);
                            let r = self.satw(e, true, tw, sg);
                            out.push(self.mk(r));
                        }
                    }
                }
                Some(Val::A(out.into()))
            }
            X::SFormat => {
                // an empty String: the text of diagnostics is outside every property checked
                let p = self.conc(st, &args[0])?;
                self.x_store(st, p, 64, &Val::C(0))?;
                self.x_store(st, p + 8, 64, &Val::C(1))?;
                self.x_store(st, p + 16, 64, &Val::C(0))?;
                None
            }
            X::IXgetbv => Some(Val::C(0)),
            X::None | X::NdCoNew | X::NdCoSwitch | X::IMaskedLoad | X::IMaskedStore | X::SPanic => return Err(Stop::Unsupported(format!("{:?}", x))),
        })
    }
    fn text(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let p = self.conc(st, p)?;
        let n = self.conc(st, n)?;
        Ok(String::from_utf8_lossy(&st.mem.bytes_at(p, n).unwrap_or_default()).into_owned())
    }
}
