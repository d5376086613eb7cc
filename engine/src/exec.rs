// Symbolic executor over the parsed module.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::{Arc, Condvar, LazyLock, Mutex};

// conditions (with the names of their symbols left out) and whether they contradict themselves; none: being decided
static LEMMAS: LazyLock<(Mutex<HashMap<Box<[u32]>, Option<bool>>>, Condvar)> = LazyLock::new(|| (Mutex::new(HashMap::new()), Condvar::new()));

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub block: u32,
    pub ip: u32,
    pub dst: u32,
    pub sp: u32,
    pub regs: Vec<Val>,
}

#[derive(Clone, Default)]
pub struct FileDesc {
    pub file: usize,
    pub pos: u64,
    pub flags: i32,
    pub open: bool,
}

// a recorded decision: the value taken, where, and whether the path condition already implied it
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Dec {
    pub v: u64,
    pub step: u64,
    pub site: u32,
    pub key: u32, // of what is decided
    pub implied: bool,
    pub not: bool, // of a concretization: this value was left to another path
}

// values chosen by the model of the environment, in order of creation
#[derive(Clone, Copy)]
pub struct Input {
    pub e: E,
    pub w: u32,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>, // of the running coroutine
    pub parked: Vec<Vec<Rc<Frame>>>, // of every other one
    pub cur: usize,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub dom: Rc<FxMap<u32, [u64; 4]>>,
    pub multi: Rc<FxMap<u32, ()>>, // symbols occurring in a constraint over several symbols
    pub model: Rc<Vec<u64>>,
    pub hints: Rc<HashMap<(u32, u32, u8), u64>>,
    pub decisions: Vec<Dec>,
    pub replay: VecDeque<Dec>,
    pub mark: usize,
    pub nsym: u32,
    pub nuninit: u32,
    pub inputs: Vec<Input>,
    pub trace: Vec<E>,
    pub steps: u64,
    pub limit: u64,
    pub allow_panic: bool,
    pub files: Vec<(Vec<u8>, u64, bool)>, // name, object address, live
    pub fds: Vec<FileDesc>,
    pub fault_at: i64,
    pub syscalls: i64,
    pub errno: u64,
    pub cover: u64,
    pub stdout: u64,
    pub due: Vec<(E, Rc<str>)>, // assertions not yet put to the solver
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub loc: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(u32, u64)>,
    pub uninit: bool,
    pub trace: Vec<u64>,
}
#[derive(Clone, Debug)]
pub struct Sample {
    pub inputs: Vec<(u32, u64)>,
    pub trace: Vec<u64>,
    pub uninit: bool,
    pub panicked: bool,
}

pub enum Stop {
    Done,
    Infeasible,
    Violation(String, String),
    Panic(String),
    Unsupported(String),
    Unknown(String),
}
type R<T> = Result<T, Stop>;

#[derive(Default, Clone)]
pub struct Stats {
    pub done: u64,
    pub infeasible: u64,
    pub panics_allowed: u64,
    pub violations: u64,
    pub unsupported: BTreeMap<String, u64>,
    pub unknown: BTreeMap<String, u64>,
    pub steps: u64,
    pub forks: u64,
    pub branches: u64,
    pub unary: u64,
    pub small: u64,
    pub asserts_folded: u64,
    pub by_parts: u64,
    pub asserts_proved: u64,
    pub oob_queries: u64,
    pub cache_hits: u64,
    pub max_steps: u64,
    pub cover: u64,
}

#[derive(Clone)]
pub struct Config {
    pub params: Vec<i64>,
    pub steps: u64,
    pub timeout_ms: u32,
    pub sample_every: u64,
    pub max_samples: usize,
    pub max_viol: usize,
    pub stub_format: bool,
    pub avx2: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum X {
    None,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcmp,
    Bcmp,
    Memcpy,
    Memset,
    Strlen,
    Read,
    Write,
    Open,
    Close,
    Lseek,
    Fstat,
    Statx,
    Rename,
    Unlink,
    Getenv,
    Abort,
    Exit,
    Errno,
    Syscall,
    Getrandom,
    Zero,
    MinusOne,
    NdSym,
    NdRange,
    NdBytes,
    NdAssume,
    NdAssert,
    NdFail,
    NdParam,
    NdTrace,
    NdConc,
    NdFile,
    NdReadFile,
    NdFault,
    NdAllowPanic,
    NdCoNew,
    NdCoSwitch,
    NdCover,
    NdSteps,
    NdEngine,
    NdLog,
    NdStdout,
    Fcntl,
    Strerror,
    // intrinsics
    INop,
    IMemcpy,
    IMemset,
    IUmin,
    IUmax,
    ISmin,
    ISmax,
    IAbs,
    ICttz,
    ICtlz,
    ICtpop,
    IBswap,
    IBitrev,
    IFshl,
    IFshr,
    IUaddSat,
    IUsubSat,
    ISaddSat,
    ISsubSat,
    IAddO(bool),
    ISubO(bool),
    IMulO(bool),
    IUcmp,
    IScmp,
    IExpect,
    IFalse,
    ITrap,
    ILoadRel,
    ITls,
    IRed(BinOp),
    IPtrmask,
    IObjsize,
    IPshufb,
    IMovmsk,
    IPmaddubs,
    IPmaddwd,
    IPackuswb,
    IPackusdw,
    IPacksswb,
    IPause,
    IXgetbv,
    IMaskedLoad,
    IMaskedStore,
    // stubs
    SPanic,
    SFormat,
}

pub struct Exec {
    pub m: Arc<Module>,
    pub ext: Arc<Vec<X>>,     // per call id
    pub fstub: Arc<Vec<X>>,   // per function
    pub ar: Arena,
    pub z3: Z3,
    pub ev: Evaluator,
    pub cfg: Config,
    pub stats: Stats,
    pub pending: VecDeque<State>,
    pub viols: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub seen_fn: Vec<bool>,
    pub cache: HashMap<Vec<E>, (Res, Vec<(u32, u64)>)>,
    pub words: FxMap<[E; 9], E>,
    pub log: bool,
    pub entry: u32,
    pub viol_keys: HashMap<String, u32>,
}

pub fn intr_of(n: &str) -> X {
    let s = &n[5..];
    let p = |x: &str| s.starts_with(x);
    if p("lifetime") || p("experimental.noalias") || p("assume") || p("dbg") || p("invariant") || p("prefetch") || p("sideeffect") || p("donothing") {
        X::INop
    } else if p("memcpy") || p("memmove") {
        X::IMemcpy
    } else if p("memset") {
        X::IMemset
    } else if p("umin") {
        X::IUmin
    } else if p("umax") {
        X::IUmax
    } else if p("smin") {
        X::ISmin
    } else if p("smax") {
        X::ISmax
    } else if p("abs.") {
        X::IAbs
    } else if p("cttz") {
        X::ICttz
    } else if p("ctlz") {
        X::ICtlz
    } else if p("ctpop") {
        X::ICtpop
    } else if p("bswap") {
        X::IBswap
    } else if p("bitreverse") {
        X::IBitrev
    } else if p("fshl") {
        X::IFshl
    } else if p("fshr") {
        X::IFshr
    } else if p("uadd.sat") {
        X::IUaddSat
    } else if p("usub.sat") {
        X::IUsubSat
    } else if p("sadd.sat") {
        X::ISaddSat
    } else if p("ssub.sat") {
        X::ISsubSat
    } else if p("uadd.with") {
        X::IAddO(false)
    } else if p("sadd.with") {
        X::IAddO(true)
    } else if p("usub.with") {
        X::ISubO(false)
    } else if p("ssub.with") {
        X::ISubO(true)
    } else if p("umul.with") {
        X::IMulO(false)
    } else if p("smul.with") {
        X::IMulO(true)
    } else if p("ucmp") {
        X::IUcmp
    } else if p("scmp") {
        X::IScmp
    } else if p("expect") {
        X::IExpect
    } else if p("is.constant") {
        X::IFalse
    } else if p("trap") || p("ubsantrap") {
        X::ITrap
    } else if p("load.relative") {
        X::ILoadRel
    } else if p("threadlocal") {
        X::ITls
    } else if p("vector.reduce.or") {
        X::IRed(BinOp::Or)
    } else if p("vector.reduce.and") {
        X::IRed(BinOp::And)
    } else if p("vector.reduce.xor") {
        X::IRed(BinOp::Xor)
    } else if p("vector.reduce.add") {
        X::IRed(BinOp::Add)
    } else if p("ptrmask") {
        X::IPtrmask
    } else if p("objectsize") {
        X::IObjsize
    } else if p("x86.ssse3.pshuf.b") || p("x86.avx2.pshuf.b") {
        X::IPshufb
    } else if p("x86.sse2.pmovmskb") || p("x86.avx2.pmovmskb") {
        X::IMovmsk
    } else if p("x86.ssse3.pmadd.ub.sw") || p("x86.avx2.pmadd.ub.sw") {
        X::IPmaddubs
    } else if p("x86.sse2.pmadd.wd") || p("x86.avx2.pmadd.wd") {
        X::IPmaddwd
    } else if p("x86.sse2.packuswb") || p("x86.avx2.packuswb") {
        X::IPackuswb
    } else if p("x86.sse41.packusdw") || p("x86.avx2.packusdw") {
        X::IPackusdw
    } else if p("x86.sse2.packsswb") || p("x86.avx2.packsswb") {
        X::IPacksswb
    } else if p("x86.sse2.pause") {
        X::IPause
    } else if p("x86.xgetbv") {
        X::IXgetbv
    } else if p("masked.load") {
        X::IMaskedLoad
    } else if p("masked.store") {
        X::IMaskedStore
    } else {
        X::None
    }
}
pub fn ext_of(n: &str) -> X {
    match n {
        "malloc" => X::Malloc,
        "calloc" => X::Calloc,
        "realloc" => X::Realloc,
        "free" => X::Free,
        "posix_memalign" => X::PosixMemalign,
        "memcmp" => X::Memcmp,
        "bcmp" => X::Bcmp,
        "memcpy" | "memmove" => X::Memcpy,
        "memset" => X::Memset,
        "strlen" => X::Strlen,
        "read" => X::Read,
        "write" => X::Write,
        "open64" | "open" => X::Open,
        "close" => X::Close,
        "lseek64" | "lseek" => X::Lseek,
        "fstat64" => X::Fstat,
        "statx" => X::Statx,
        "rename" => X::Rename,
        "unlink" => X::Unlink,
        "getenv" => X::Getenv,
        "abort" => X::Abort,
        "exit" | "_exit" => X::Exit,
        "__errno_location" => X::Errno,
        "syscall" => X::Syscall,
        "getrandom" => X::Getrandom,
        "fcntl" | "fcntl64" => X::Fcntl,
        "__xpg_strerror_r" => X::Strerror,
        "sched_yield" | "pthread_self" | "gettid" | "__cxa_thread_atexit_impl" | "isatty" | "munmap" | "pthread_key_create" | "pthread_setspecific"
        | "pthread_getspecific" | "__cxa_atexit" | "pthread_key_delete" | "getauxval" | "poll" | "sigaction" | "signal" => X::Zero,
        "_Unwind_Backtrace" | "dl_iterate_phdr" => X::Zero,
        "mmap64" | "getcwd" | "readlink" | "realpath" | "stat64" | "lstat64" => X::MinusOne,
        "nd_sym" => X::NdSym,
        "nd_range" => X::NdRange,
        "nd_bytes" => X::NdBytes,
        "nd_assume" => X::NdAssume,
        "nd_assert" => X::NdAssert,
        "nd_fail" => X::NdFail,
        "nd_param" => X::NdParam,
        "nd_trace" => X::NdTrace,
        "nd_conc" => X::NdConc,
        "nd_file" => X::NdFile,
        "nd_read_file" => X::NdReadFile,
        "nd_fault" => X::NdFault,
        "nd_allow_panic" => X::NdAllowPanic,
        "nd_co_new" => X::NdCoNew,
        "nd_co_switch" => X::NdCoSwitch,
        "nd_cover" => X::NdCover,
        "nd_steps" => X::NdSteps,
        "nd_engine" => X::NdEngine,
        "nd_log" => X::NdLog,
        "nd_stdout" => X::NdStdout,
        _ => X::None,
    }
}

pub fn stub_of(n: &str, cfg: &Config) -> X {
    if n.contains("9panicking9panic_fmt")
        || n.contains("9panicking13panic_display")
        || n.contains("9panicking18panic_nounwind")
        || n.contains("9panicking19panic_cannot_unwind")
        || n.contains("rust_begin_unwind")
        || n.contains("begin_panic")
        || n.contains("rust_panic_with_hook")
        || n.contains("18handle_alloc_error")
    {
        return X::SPanic;
    }
    if cfg.stub_format && (n.contains("5stdio7__eprint") || n.contains("5stdio6_eprint")) {
        return X::INop;
    }
    if cfg.stub_format && n.contains("5alloc3fmt6format12format_inner") {
        return X::SFormat;
    }
    ext_of(n)
}

// ---- resolution of call targets, done once ----
pub fn resolve(m: &mut Module, cfg: &Config) -> (Vec<X>, Vec<X>) {
    let mut tab = vec![];
    for f in m.funcs.iter_mut() {
        for b in f.blocks.iter_mut() {
            for i in b.ins.iter_mut() {
                if let Ins::Call(c) = i {
                    let x = match &c.callee {
                        Callee::Intr(n) => intr_of(n),
                        Callee::Ext(n) => ext_of(n),
                        _ => X::None,
                    };
                    c.ext_id = tab.len() as u32;
                    tab.push(x);
                }
            }
        }
    }
    let st = m.funcs.iter().map(|f| stub_of(&f.name, cfg)).collect();
    (tab, st)
}

fn base_state() -> State {
    State {
        frames: vec![],
        parked: vec![vec![]],
        cur: 0,
        mem: Mem::new(),
        pc: vec![],
        dom: Default::default(),
        multi: Default::default(),
        model: Default::default(),
        hints: Default::default(),
        decisions: vec![],
        replay: Default::default(),
        mark: 0,
        nsym: 0,
        nuninit: 0,
        inputs: vec![],
        trace: vec![],
        steps: 0,
        limit: 0,
        allow_panic: false,
        files: vec![],
        fds: vec![FileDesc::default(); 3],
        fault_at: -1,
        syscalls: 0,
        errno: 0,
        cover: 0,
        stdout: 0,
        due: vec![],
    }
}

impl Exec {
    pub fn new(m: Arc<Module>, ext: Arc<Vec<X>>, fstub: Arc<Vec<X>>, cfg: Config, entry: u32) -> Self {
        let nf = m.funcs.len();
        Exec {
            m,
            ext,
            fstub,
            ar: Arena::new(),
            z3: Z3::new(cfg.timeout_ms),
            ev: Evaluator::new(),
            cfg,
            stats: Default::default(),
            pending: Default::default(),
            viols: vec![],
            samples: vec![],
            seen_fn: vec![false; nf],
            cache: HashMap::new(),
            words: Default::default(),
            log: std::env::var("NDX_LOG").is_ok(),
            entry,
            viol_keys: HashMap::new(),
        }
    }
    pub fn initial(&mut self) -> Result<State, String> {
        let mut st = base_state();
        st.limit = self.cfg.steps;
        let m = self.m.clone();
        for g in &m.globals {
            let size = m.size(g.ty);
            let mut o = Obj::zero(size);
            if let Some(init) = &g.init {
                let mut b = vec![None; size as usize];
                m.init_bytes(g.ty, init, &mut b, 0)?;
                o.conc = b.iter().map(|x| x.unwrap_or(0)).collect();
            }
            o.ro = g.constant;
            st.mem.alloc(o);
        }
        st.errno = st.mem.alloc(Obj::zero(8));
        st.stdout = st.mem.alloc(Obj::zero(0));
        let f = &m.funcs[self.entry as usize];
        st.frames.push(Rc::new(Frame { func: self.entry, block: 0, ip: 0, dst: u32::MAX, sp: 0, regs: vec![Val::U; f.nregs as usize] }));
        Ok(st)
    }

    // ---- values ----
    #[inline]
    pub fn ex(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(x) => self.ar.cst(w, *x as u128),
            Val::S(e) => *e,
            Val::W(x) => self.ar.cst(w, **x),
            _ => self.ar.cst(w, 0),
        }
    }
    #[inline]
    pub fn mk(&self, e: E) -> Val {
        match self.ar.is_const(e) {
            Some(v) => {
                if self.ar.w(e) <= 64 {
                    Val::C(v as u64)
                } else {
                    Val::W(Arc::new(v))
                }
            }
            None => Val::S(e),
        }
    }
    pub fn mkc(w: u32, v: u128) -> Val {
        if w <= 64 {
            Val::C(v as u64)
        } else {
            Val::W(Arc::new(v))
        }
    }

    // ---- constraints and decisions ----
    fn slice(&mut self, st: &State, seed: &[E]) -> (Vec<E>, Vec<u32>) {
        // constraints connected with the seed
        let mut syms: FxMap<u32, ()> = Default::default();
        let mut order: Vec<u32> = vec![];
        for &e in seed {
            for &s in self.ar.support(e).iter() {
                if syms.insert(s, ()).is_none() {
                    order.push(s);
                }
            }
        }
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut grew = false;
            for (i, &c) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let sup = self.ar.support(c);
                if sup.iter().any(|s| syms.contains_key(s)) {
                    used[i] = true;
                    out.push(c);
                    for &s in sup.iter() {
                        if syms.insert(s, ()).is_none() {
                            order.push(s);
                            grew = true;
                        }
                    }
                }
            }
            if !grew {
                break;
            }
        }
        (out, order)
    }
    // is pc & extra satisfiable? on Sat: a model for the symbols concerned
    fn query(&mut self, st: &State, extra: E) -> (Res, Vec<(u32, u64)>) {
        let (mut cs, syms) = self.slice(st, &[extra]);
        cs.push(extra);
        cs.sort();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let r = self.z3.check(&mut self.ar, &cs, &syms);
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
        self.cache.insert(cs, r.clone());
        r
    }
    // Conditions made of conditions on one symbol each, none of which the path relates to another
    // symbol: decided by the domains.
    fn independent(&mut self, st: &State, c: E, depth: u32) -> Option<(Res, Vec<(u32, u64)>)> {
        if depth == 0 {
            return None;
        }
        let (mut all, mut any) = (vec![], vec![]);
        self.flatten(c, true, &mut all);
        if all.len() == 1 {
            self.flatten(c, false, &mut any);
            if any.len() > 1 {
                let mut unsat = true;
                for x in any {
                    match self.independent(st, x, depth - 1) {
                        Some((Res::Unsat, _)) => {}
                        Some(r) => return Some(r),
                        None => unsat = false,
                    }
                }
                return if unsat { Some((Res::Unsat, vec![])) } else { None };
            }
        }
        let mut doms: BTreeMap<u32, [u64; 4]> = Default::default();
        let mut rest = vec![];
        for x in all {
            match self.ar.is_const(x) {
                Some(0) => return Some((Res::Unsat, vec![])),
                Some(_) => continue,
                None => {}
            }
            match self.ar.truth_bits(x, &mut self.ev) {
                Some(t) => {
                    let s = self.ar.support(x)[0];
                    let d = doms.entry(s).or_insert_with(|| match st.dom.get(&s) {
                        Some(d) => *d,
                        None => [!0; 4],
                    });
                    for k in 0..4 {
                        d[k] &= t[k];
                    }
                    if *d == [0; 4] {
                        return Some((Res::Unsat, vec![]));
                    }
                }
                None => rest.push(x),
            }
        }
        if !rest.is_empty() || doms.keys().any(|s| st.multi.contains_key(s)) {
            return None;
        }
        let vals = doms
            .iter()
            .map(|(&s, d)| {
                let k = (0..4).find(|&k| d[k] != 0).unwrap();
                (s, k as u64 * 64 + d[k].trailing_zeros() as u64)
            })
            .collect();
        Some((Res::Sat, vals))
    }
    // the operands of nested conjunctions (or disjunctions)
    fn flatten(&mut self, c: E, and: bool, out: &mut Vec<E>) {
        let n = self.ar.node(c);
        if n.w == 1 && n.op == (if and { Op::And } else { Op::Or }) {
            self.flatten(n.a, and, out);
            self.flatten(n.b, and, out);
            return;
        }
        if n.op == Op::Not && n.w == 1 {
            let i = self.ar.node(n.a);
            if i.op == (if and { Op::Or } else { Op::And }) {
                let x = self.ar.not(i.a);
                let y = self.ar.not(i.b);
                self.flatten(x, and, out);
                self.flatten(y, and, out);
                return;
            }
        }
        out.push(c);
    }
    // the same for the feasibility of a branch: decided by evaluation when few values are left for the
    // symbols concerned
    fn branch_query(&mut self, st: &State, extra: E) -> (Res, Vec<(u32, u64)>) {
        if let Some(r) = self.independent(st, extra, 4) {
            self.stats.small += 1;
            return r;
        }
        let (mut cs, syms) = self.slice(st, &[extra]);
        let mut total = 1usize;
        let mut doms: Vec<(u32, Vec<u64>)> = vec![];
        for &s in &syms {
            if self.ar.syms[s as usize].w > 8 {
                total = usize::MAX;
                break;
            }
            let d = self.domain(st, s);
            let mut v = vec![];
            for k in 0..4 {
                let mut b = d[k];
                while b != 0 {
                    v.push(k as u64 * 64 + b.trailing_zeros() as u64);
                    b &= b - 1;
                }
            }
            total = total.saturating_mul(v.len());
            if total > 2048 {
                break;
            }
            doms.push((s, v));
        }
        if total > 2048 {
            return self.query(st, extra);
        }
        self.stats.small += 1;
        cs.retain(|&c| self.ar.support(c).len() > 1 || self.ar.truth_bits(c, &mut self.ev).is_none());
        cs.push(extra);
        let mut idx = vec![0usize; doms.len()];
        if doms.iter().any(|d| d.1.is_empty()) {
            return (Res::Unsat, vec![]);
        }
        let mut model = (*st.model).clone();
        loop {
            for (k, (s, v)) in doms.iter().enumerate() {
                if model.len() <= *s as usize {
                    model.resize(*s as usize + 1, 0);
                }
                model[*s as usize] = v[idx[k]];
            }
            self.ev.reset();
            let mut ok = true;
            for &c in cs.iter().rev() {
                if self.ev.eval(&self.ar, c, &model) == 0 {
                    ok = false;
                    break;
                }
            }
            if ok {
                return (Res::Sat, doms.iter().map(|(s, _)| (*s, model[*s as usize])).collect());
            }
            let mut k = 0;
            while k < idx.len() {
                idx[k] += 1;
                if idx[k] < doms[k].1.len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
            if k == idx.len() {
                return (Res::Unsat, vec![]);
            }
        }
    }
    // is the condition settled by what this path has assumed so far? (incomplete: None when unsure)
    fn decided(&mut self, st: &State, c: E) -> Option<bool> {
        if let Some(v) = self.ar.is_const(c) {
            return Some(v != 0);
        }
        if let Some((y, n, _, _)) = self.unary(st, c) {
            return match (y, n) {
                (true, false) => Some(true),
                (false, true) => Some(false),
                _ => None,
            };
        }
        let sup = self.ar.support(c);
        let mut doms: Vec<(u32, Vec<u64>)> = vec![];
        let mut total = 1;
        for &s in sup.iter() {
            if self.ar.syms[s as usize].w > 8 {
                return None;
            }
            let d = self.domain(st, s);
            total *= d.iter().map(|x| x.count_ones() as usize).sum::<usize>();
            if total > 128 || total == 0 {
                return None;
            }
            let mut v = vec![];
            for k in 0..4 {
                let mut b = d[k];
                while b != 0 {
                    v.push(k as u64 * 64 + b.trailing_zeros() as u64);
                    b &= b - 1;
                }
            }
            doms.push((s, v));
        }
        let mut model = (*st.model).clone();
        let mut idx = vec![0usize; doms.len()];
        let mut seen = None;
        loop {
            for (k, (s, v)) in doms.iter().enumerate() {
                if model.len() <= *s as usize {
                    model.resize(*s as usize + 1, 0);
                }
                model[*s as usize] = v[idx[k]];
            }
            self.ev.reset();
            let r = self.ev.eval(&self.ar, c, &model) != 0;
            match seen {
                None => seen = Some(r),
                Some(x) if x != r => return None,
                _ => (),
            }
            let mut k = 0;
            while k < idx.len() {
                idx[k] += 1;
                if idx[k] < doms[k].1.len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
            if k == idx.len() {
                return seen;
            }
        }
    }
    pub fn minmax_in(&mut self, st: &State, x: X, w: u32, a: &Val, b: &Val) -> Val {
        let p = match x {
            X::IUmin => Pred::Ult,
            X::IUmax => Pred::Ugt,
            X::ISmin => Pred::Slt,
            _ => Pred::Sgt,
        };
        if let Val::S(c) = self.icmp1(p, w, a, b) {
            match self.decided(st, c) {
                Some(true) => return a.clone(),
                Some(false) => return b.clone(),
                None => (),
            }
        }
        self.minmax(x, w, a, b)
    }
    fn with_model(&self, st: &State, vals: &[(u32, u64)]) -> Rc<Vec<u64>> {
        let mut m = (*st.model).clone();
        for &(s, v) in vals {
            if m.len() <= s as usize {
                m.resize(s as usize + 1, 0);
            }
            m[s as usize] = v;
        }
        Rc::new(m)
    }
    pub fn eval(&mut self, st: &State, e: E) -> u128 {
        self.ev.reset();
        self.ev.eval(&self.ar, e, &st.model)
    }
    fn domain(&self, st: &State, s: u32) -> [u64; 4] {
        match st.dom.get(&s) {
            Some(d) => *d,
            None => {
                let w = self.ar.syms[s as usize].w;
                let mut d = [0u64; 4];
                for v in 0..(1usize << w.min(8)) {
                    d[v >> 6] |= 1 << (v & 63);
                }
                d
            }
        }
    }
    fn add_constraint(&mut self, st: &mut State, c: E) {
        if self.ar.is_const(c).is_some() {
            return;
        }
        if st.pc.iter().rev().take(8).any(|&x| x == c) {
            return;
        }
        // split conjunctions so that unary parts refine domains
        let n = self.ar.node(c);
        if n.op == Op::And && n.w == 1 {
            self.add_constraint(st, n.a);
            self.add_constraint(st, n.b);
            return;
        }
        if n.op == Op::Not {
            let i = self.ar.node(n.a);
            if i.op == Op::Or && i.w == 1 {
                let x = self.ar.not(i.a);
                let y = self.ar.not(i.b);
                self.add_constraint(st, x);
                self.add_constraint(st, y);
                return;
            }
        }
        st.pc.push(c);
        if let Some(t) = self.ar.truth_bits(c, &mut self.ev) {
            let s = self.ar.support(c)[0];
            let mut d = self.domain(st, s);
            for k in 0..4 {
                d[k] &= t[k];
            }
            Rc::make_mut(&mut st.dom).insert(s, d);
        } else {
            let sup = self.ar.support(c);
            if sup.iter().any(|s| !st.multi.contains_key(s)) {
                let m = Rc::make_mut(&mut st.multi);
                for &s in sup.iter() {
                    m.insert(s, ());
                }
            }
        }
    }
    // value of a condition decided by the domains alone; Some(None): both sides possible, exactly
    fn unary(&mut self, st: &State, c: E) -> Option<(bool, bool, u64, u64)> {
        let t = self.ar.truth_bits(c, &mut self.ev)?;
        let s = self.ar.support(c)[0];
        let d = self.domain(st, s);
        let mut y = None;
        let mut n = None;
        for k in 0..4 {
            let a = d[k] & t[k];
            let b = d[k] & !t[k];
            if y.is_none() && a != 0 {
                y = Some((k as u64) * 64 + a.trailing_zeros() as u64);
            }
            if n.is_none() && b != 0 {
                n = Some((k as u64) * 64 + b.trailing_zeros() as u64);
            }
        }
        Some((y.is_some(), n.is_some(), y.unwrap_or(0), n.unwrap_or(0)))
    }
    fn spawn(&mut self, st: &State, flipped: Dec, c: E, model: Rc<Vec<u64>>) {
        let mut o = st.clone();
        o.steps -= 1; // the instruction is executed again
        let tail: Vec<Dec> = o.decisions.drain(o.mark..).collect();
        o.replay = tail.into_iter().collect();
        o.replay.push_back(flipped);
        self.add_constraint(&mut o, c);
        o.model = model;
        self.stats.forks += 1;
        self.pending.push_back(o);
    }
    #[inline]
    fn site(&self, st: &State) -> u32 {
        let f = st.frames.last().unwrap();
        f.func.wrapping_mul(0x9e37_79b1) ^ (f.block << 9) ^ f.ip
    }
    // which symbols it is about: the same for every worker, however it has simplified it
    fn key(&mut self, e: E) -> u32 {
        let mut k = 0x811c_9dc5u32;
        for &s in self.ar.support(e).iter() {
            let q = self.ar.syms[s as usize].seq.wrapping_add(1).wrapping_mul(0x9e37_79b1);
            k = k.wrapping_add(q ^ (q >> 15));
        }
        k
    }
    // the value that the recorded decision of this condition took
    fn take_replay(&mut self, st: &mut State, site: u32, key: u32) -> R<Option<Dec>> {
        // another worker may have simplified a condition to a constant that is not one here, or the
        // other way round: its decision is not recorded, or of no use here. A condition that is not
        // recorded is decided as if it were new
        while let Some(&d) = st.replay.front() {
            if d.step > st.steps {
                return Ok(None);
            }
            if d.step == st.steps && d.site != site {
                return Err(Stop::Unknown("replay out of step".into()));
            }
            if d.step == st.steps && d.key != key {
                let n = st.replay.iter().take_while(|x| x.step == d.step).position(|x| x.key == key);
                match n {
                    Some(n) => st.decisions.extend(st.replay.drain(..n)),
                    None => return Ok(None),
                }
                continue;
            }
            st.replay.pop_front();
            st.decisions.push(d);
            if d.step == st.steps {
                return Ok(Some(d));
            }
        }
        Ok(None)
    }
    // decide a one-bit condition on this path; the other feasible side is queued
    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.ar.is_const(c) {
            return Ok(v != 0);
        }
        let site = self.site(st);
        let key = self.key(c);
        if let Some(d) = self.take_replay(st, site, key)? {
            if (self.eval(st, c) != 0) != (d.v != 0) {
                return Err(Stop::Unknown("replay off its path".into()));
            }
            if !d.implied {
                let cc = if d.v != 0 { c } else { self.ar.not(c) };
                self.add_constraint(st, cc);
            }
            return Ok(d.v != 0);
        }
        self.stats.branches += 1;
        let nc = self.ar.not(c);
        if let Some((y, n, yv, nv)) = self.unary(st, c) {
            self.stats.unary += 1;
            if !y && !n {
                return Err(Stop::Unknown("no value left on a path".into()));
            }
            if !n || !y {
                st.decisions.push(Dec { v: y as u64, step: st.steps, site, key, implied: true, not: false });
                return Ok(y);
            }
            let s = self.ar.support(c)[0];
            if !st.multi.contains_key(&s) {
                if self.flush(st)? {
                    return self.decide(st, c);
                }
                let cur = self.eval(st, c) != 0;
                let other = self.with_model(st, &[(s, if cur { nv } else { yv })]);
                let (cc, oc) = if cur { (c, nc) } else { (nc, c) };
                self.spawn(st, Dec { v: !cur as u64, step: st.steps, site, key, implied: false, not: false }, oc, other);
                st.decisions.push(Dec { v: cur as u64, step: st.steps, site, key, implied: false, not: false });
                self.add_constraint(st, cc);
                return Ok(cur);
            }
        }
        let cur = self.eval(st, c) != 0;
        let (cc, oc) = if cur { (c, nc) } else { (nc, c) };
        let (r, vals) = self.branch_query(st, oc);
        let mut implied = false;
        match r {
            Res::Sat => {
                if self.flush(st)? {
                    return self.decide(st, c);
                }
                let m = self.with_model(st, &vals);
                self.spawn(st, Dec { v: !cur as u64, step: st.steps, site, key, implied: false, not: false }, oc, m);
            }
            Res::Unsat => implied = true,
            Res::Unknown => {
                *self.stats.unknown.entry("branch query undecided".into()).or_default() += 1;
            }
        }
        st.decisions.push(Dec { v: cur as u64, step: st.steps, site, key, implied, not: false });
        if !implied {
            self.add_constraint(st, cc);
        }
        Ok(cur)
    }
    // pick one value for e on this path; the remaining values are queued
    pub fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(v) = self.ar.is_const(e) {
            return Ok(v);
        }
        let w = self.ar.w(e);
        if w > 64 {
            return Err(Stop::Unsupported("wide concretization".into()));
        }
        let value = |x: &mut Self, _: &State, v: u64| {
            let k = x.ar.cst(w, v as u128);
            x.ar.eq(e, k)
        };
        Ok(self.pick(st, e, &|_, _, v| Ok(v), &value)? as u128)
    }
    // pick one case of e on this path, the one that holds in the model; the others are queued. The
    // cases are what is recorded, as the model is another one when a queued path is run
    fn pick(
        &mut self,
        st: &mut State,
        e: E,
        case: &dyn Fn(&mut Self, &State, u64) -> R<u64>,
        cond: &dyn Fn(&mut Self, &State, u64) -> E,
    ) -> R<u64> {
        let site = self.site(st);
        let key = self.key(e);
        while st.replay.iter().find(|d| d.step >= st.steps && (d.step > st.steps || d.key == key)).map_or(false, |d| d.not && d.step == st.steps) {
            let d = match self.take_replay(st, site, key)? {
                Some(d) => d,
                None => break,
            };
            let c = cond(self, st, d.v);
            let c = self.ar.not(c);
            self.add_constraint(st, c);
        }
        if let Some(d) = self.take_replay(st, site, key)? {
            let c = cond(self, st, d.v);
            if self.eval(st, c) == 0 {
                return Err(Stop::Unknown("replay off its path".into()));
            }
            if !d.implied {
                self.add_constraint(st, c);
            }
            return Ok(d.v);
        }
        let v = self.eval(st, e) as u64;
        let v = case(self, st, v)?;
        let c = cond(self, st, v);
        let nc = self.ar.not(c);
        self.stats.branches += 1;
        let mut implied = self.ar.is_const(c) == Some(1);
        let mut decided = implied;
        if let Some((y, n, _, nv)) = self.unary(st, c) {
            self.stats.unary += 1;
            if y && !n {
                decided = true;
                implied = true;
            } else {
                let s = self.ar.support(c)[0];
                if !st.multi.contains_key(&s) {
                    if self.flush(st)? {
                        return self.pick(st, e, case, cond);
                    }
                    let m = self.with_model(st, &[(s, nv)]);
                    self.spawn(st, Dec { v, step: st.steps, site, key, implied: false, not: true }, nc, m);
                    decided = true;
                }
            }
        }
        if !decided {
            let (r, vals) = self.branch_query(st, nc);
            match r {
                Res::Sat => {
                    if self.flush(st)? {
                        return self.pick(st, e, case, cond);
                    }
                    let m = self.with_model(st, &vals);
                    self.spawn(st, Dec { v, step: st.steps, site, key, implied: false, not: true }, nc, m);
                }
                Res::Unsat => implied = true,
                Res::Unknown => {
                    *self.stats.unknown.entry("concretization undecided".into()).or_default() += 1;
                }
            }
        }
        st.decisions.push(Dec { v, step: st.steps, site, key, implied, not: false });
        if !implied {
            self.add_constraint(st, c);
        }
        Ok(v)
    }
    fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        if let Some(v) = self.ar.is_const(c) {
            return if v != 0 { Ok(()) } else { Err(Stop::Infeasible) };
        }
        if !st.replay.is_empty() || self.eval(st, c) != 0 {
            self.add_constraint(st, c);
            return Ok(());
        }
        let (r, vals) = self.branch_query(st, c);
        match r {
            Res::Sat => {
                st.model = self.with_model(st, &vals);
                self.add_constraint(st, c);
                Ok(())
            }
            Res::Unsat => Err(Stop::Infeasible),
            Res::Unknown => Err(Stop::Unknown("assume undecided".into())),
        }
    }
    fn assert(&mut self, st: &mut State, c: E, msg: &str) -> R<()> {
        if !st.replay.is_empty() {
            self.add_constraint(st, c);
            return Ok(());
        }
        if let Some(v) = self.ar.is_const(c) {
            if v != 0 {
                self.stats.asserts_folded += 1;
                return Ok(());
            }
            return Err(Stop::Violation("assert".into(), msg.into()));
        }
        st.due.push((c, msg.into()));
        if st.due.len() >= 64 {
            self.flush(st)?;
        }
        Ok(())
    }
    // the parts of a conjunction (of an equality of several bytes: the equalities of the bytes)
    fn conjuncts(&mut self, c: E, out: &mut Vec<E>) {
        let mut work = vec![c];
        while let Some(c) = work.pop() {
            if self.ar.is_const(c) == Some(1) {
                continue;
            }
            let n = self.ar.node(c);
            match n.op {
                Op::And => {
                    work.push(n.b);
                    work.push(n.a);
                    continue;
                }
                Op::Not => {
                    let m = self.ar.node(n.a);
                    if m.op == Op::Or {
                        let a = self.ar.not(m.a);
                        let b = self.ar.not(m.b);
                        work.push(b);
                        work.push(a);
                        continue;
                    }
                }
                Op::Eq => {
                    let (x, k) = if self.ar.is_const(n.a).is_some() { (n.b, n.a) } else { (n.a, n.b) };
                    let m = self.ar.node(x);
                    let zero = self.ar.is_const(k) == Some(0);
                    match m.op {
                        Op::Or if zero && self.ar.w(x) > 1 => {
                            let z = k;
                            let a = self.ar.eq(m.a, z);
                            let b = self.ar.eq(m.b, z);
                            work.push(b);
                            work.push(a);
                            continue;
                        }
                        Op::ZExt if zero => {
                            let w = self.ar.w(m.a);
                            let z = self.ar.cst(w, 0);
                            let a = self.ar.eq(m.a, z);
                            if a != c {
                                work.push(a);
                                continue;
                            }
                        }
                        Op::Xor if zero => {
                            let a = self.ar.eq(m.a, m.b);
                            if a != c {
                                work.push(a);
                                continue;
                            }
                        }
                        Op::Concat => {
                            let lo = self.ar.w(m.b);
                            let hi = self.ar.w(m.a);
                            let kl = self.ar.extract(k, 0, lo);
                            let kh = self.ar.extract(k, lo, hi);
                            let a = self.ar.eq(m.b, kl);
                            let b = self.ar.eq(m.a, kh);
                            work.push(b);
                            work.push(a);
                            continue;
                        }
                        _ => {}
                    }
                }
                _ => {}
            }
            out.push(c);
        }
    }
    // Does c hold for every value of its symbols (with or without what the path says about them)? The
    // answers for conditions that differ in the names of their symbols only are shared.
    fn lemma(&mut self, st: &State, c: E) -> bool {
        if self.ar.is_const(c).is_some() || self.ar.support(c).len() > 8 {
            return self.ar.is_const(c) == Some(1);
        }
        let nc = self.ar.not(c);
        if self.lemma_of(&[nc]) {
            return true;
        }
        let (mut cs, syms) = self.slice(st, &[nc]);
        if cs.is_empty() || syms.len() > 8 {
            return false;
        }
        cs.push(nc);
        self.lemma_of(&cs)
    }
    fn lemma_of(&mut self, cs: &[E]) -> bool {
        let key = self.canon(cs);
        let (lock, done) = &*LEMMAS;
        {
            let mut l = lock.lock().unwrap();
            loop {
                match l.get(&key) {
                    Some(Some(r)) => {
                        self.stats.cache_hits += 1;
                        return *r;
                    }
                    // another worker is at it
                    Some(None) => l = done.wait(l).unwrap(),
                    None => break,
                }
            }
            l.insert(key.clone(), None);
        }
        let r = self.z3.check(&mut self.ar, cs, &[]).0 == Res::Unsat;
        lock.lock().unwrap().insert(key, Some(r));
        done.notify_all();
        r
    }
    // a description of the conditions that does not depend on which symbols they are about
    fn canon(&mut self, cs: &[E]) -> Box<[u32]> {
        let mut num: FxMap<E, u32> = Default::default();
        let mut names: FxMap<u32, u32> = Default::default();
        let mut out: Vec<u32> = vec![];
        let mut stack: Vec<(E, bool)> = vec![];
        for &root in cs {
            stack.push((root, false));
            while let Some((e, done)) = stack.pop() {
                if num.contains_key(&e) {
                    continue;
                }
                let n = self.ar.node(e);
                if !done {
                    stack.push((e, true));
                    for k in crate::expr::kids(&n).into_iter().rev().flatten() {
                        if !num.contains_key(&k) {
                            stack.push((k, false));
                        }
                    }
                    continue;
                }
                out.push(n.op as u32 | (n.w as u32) << 8);
                match n.op {
                    Op::Sym => {
                        let next = names.len() as u32;
                        out.push(*names.entry(n.a).or_insert(next));
                    }
                    Op::Const => {
                        let v = self.ar.is_const(e).unwrap();
                        out.extend([v as u32, (v >> 32) as u32, (v >> 64) as u32, (v >> 96) as u32]);
                    }
                    Op::Extract => out.extend([num[&n.a], n.b, n.c]),
                    _ => {
                        for k in crate::expr::kids(&n).into_iter().flatten() {
                            out.push(num[&k]);
                        }
                    }
                }
                let id = num.len() as u32;
                num.insert(e, id);
            }
            out.push(u32::MAX);
            out.push(num[&root]);
        }
        out.into()
    }
    // Puts the assertions met since the last fork to the solver: is there a value of the inputs for
    // which this path is taken and one of them fails? True when there is (the first to fail is reported,
    // and the path goes on with the values for which all hold).
    pub fn flush(&mut self, st: &mut State) -> R<bool> {
        if st.due.is_empty() {
            return Ok(false);
        }
        let mut due = std::mem::take(&mut st.due);
        let before = due.len() as u64;
        let mut rest = Vec::with_capacity(due.len());
        for (c, msg) in due {
            let mut parts = vec![];
            self.conjuncts(c, &mut parts);
            let mut left: Option<E> = None;
            for p in parts {
                if !self.lemma(st, p) {
                    left = Some(match left {
                        None => p,
                        Some(l) => self.ar.and(l, p),
                    });
                }
            }
            match left {
                None => self.stats.asserts_proved += 1,
                Some(l) => rest.push((l, msg)),
            }
        }
        due = rest;
        self.stats.by_parts += before - due.len() as u64;
        if due.is_empty() {
            return Ok(false);
        }
        let mut any = self.ar.cst(1, 0);
        for (c, _) in &due {
            let nc = self.ar.not(*c);
            any = self.ar.or(any, nc);
        }
        if due.len() > 1 && self.query(st, any).0 == Res::Unsat {
            self.stats.asserts_proved += due.len() as u64;
            return Ok(false);
        }
        let mut bad = false;
        for (c, msg) in due {
            let nc = self.ar.not(c);
            let (r, vals) = self.query(st, nc);
            match r {
                Res::Unsat => {
                    self.stats.asserts_proved += 1;
                    continue;
                }
                Res::Sat => {
                    let keep = st.model.clone();
                    st.model = self.with_model(st, &vals);
                    self.report(st, "assert", &msg);
                    st.model = keep;
                }
                Res::Unknown => {
                    *self.stats.unknown.entry(format!("assert undecided: {}", msg)).or_default() += 1;
                }
            }
            bad = true;
            self.assume(st, c)?;
        }
        Ok(bad)
    }
    pub fn inputs_of(&mut self, st: &State) -> Vec<(u32, u64)> {
        let v: Vec<Input> = st.inputs.clone();
        v.iter().map(|i| (i.w, self.eval(st, i.e) as u64)).collect()
    }
    fn depends_uninit(&mut self, st: &State) -> bool {
        let mut l: Vec<E> = st.pc.clone();
        l.extend_from_slice(&st.trace);
        l.iter().any(|&e| {
            let s = self.ar.support(e);
            s.iter().any(|&x| self.ar.syms[x as usize].kind == 1)
        })
    }
    pub fn report(&mut self, st: &State, kind: &str, msg: &str) {
        self.stats.violations += 1;
        let mut stack = vec![];
        for f in st.frames.iter().rev() {
            stack.push(self.m.funcs[f.func as usize].name.clone());
        }
        let loc = self.panic_loc(st);
        let key = format!("{}|{}|{}|{}", kind, msg, loc, stack.get(0).cloned().unwrap_or_default());
        let n = self.viol_keys.entry(key).or_default();
        *n += 1;
        if *n > 3 || self.viols.len() >= 64 {
            return;
        }
        let inputs = self.inputs_of(st);
        let trace: Vec<E> = st.trace.clone();
        let trace = trace.iter().map(|&e| self.eval(st, e) as u64).collect();
        let uninit = self.depends_uninit(st);
        stack.truncate(24);
        self.viols.push(Violation { kind: kind.into(), msg: msg.into(), loc, stack, inputs, uninit, trace });
    }
    // best effort: the core::panic::Location among the arguments of the panicking frames
    fn panic_loc(&self, st: &State) -> String {
        for f in st.frames.iter().rev().take(6) {
            for v in f.regs.iter().take(6) {
                if let Val::C(a) = v {
                    if let Some((i, o)) = st.mem.find(*a, 24) {
                        let ob = st.mem.obj(i).unwrap();
                        if o != 0 || ob.size != 24 || !ob.ro {
                            continue;
                        }
                        let g = |k: usize, n: usize| -> u64 { (0..n).fold(0u64, |x, j| x | (ob.conc[k + j] as u64) << (8 * j)) };
                        let (p, l, line, col) = (g(0, 8), g(8, 8), g(16, 4), g(20, 4));
                        if l > 0 && l < 300 {
                            if let Some(b) = st.mem.bytes_at(p, l) {
                                let s = String::from_utf8_lossy(&b).trim_end_matches('\0').to_string();
                                if s.ends_with(".rs") {
                                    return format!("{}:{}:{}", s, line, col);
                                }
                            }
                        }
                    }
                }
            }
        }
        String::new()
    }

    // ---- memory ----
    fn some_value(&mut self, st: &mut State, w: u32) -> Val {
        let s = st.nuninit;
        st.nuninit += 1;
        let e = self.new_sym(st, s, w, 1);
        self.mk(e)
    }
    fn fresh_uninit(&mut self, st: &mut State) -> E {
        let s = st.nuninit;
        st.nuninit += 1;
        if std::env::var("NDX_UNINIT").is_ok() {
            let f = st.frames.last().unwrap();
            eprintln!("UNINIT {}:{} {:?}", f.block, f.ip, st.frames.iter().map(|f| self.m.funcs[f.func as usize].name.clone()).collect::<Vec<_>>());
        }
        self.new_sym(st, s, 8, 1)
    }
    fn new_sym(&mut self, st: &mut State, seq: u32, w: u32, kind: u8) -> E {
        let e = self.ar.sym(seq, w, kind);
        if let Some(&h) = st.hints.get(&(seq, w, kind)) {
            let id = self.ar.node(e).a as usize;
            let m = Rc::make_mut(&mut st.model);
            if m.len() <= id {
                m.resize(id + 1, 0);
            }
            m[id] = h;
        }
        e
    }
    // an address value as a concrete one, for an access of n bytes; forks where several objects or
    // offsets are possible, reports accesses that can leave their object
    fn addr(&mut self, st: &mut State, v: &Val, n: u64, what: &str) -> R<u64> {
        match v {
            Val::C(a) => Ok(*a),
            Val::S(e) => {
                let e = *e;
                self.bound(st, e, n, what)?;
                Ok(self.concretize(st, e)? as u64)
            }
            _ => Err(Stop::Violation("memory".into(), format!("{} through an undefined pointer", what))),
        }
    }
    // make sure that e lies within one object on this path
    fn bound(&mut self, st: &mut State, e: E, n: u64, what: &str) -> R<(u64, u64)> {
        let (lo, hi) = self.ar.range[e as usize];
        if lo >> 32 == hi >> 32 {
            if let Some(o) = st.mem.obj((lo >> 32) as u32) {
                let base = obj_addr((lo >> 32) as u32);
                if n <= o.size && lo >= base && hi <= base + (o.size - n) {
                    return Ok((base, o.size));
                }
            }
        }
        self.stats.oob_queries += 1;
        let inside = |x: &mut Self, idx: u64, size: u64| {
            let b = x.ar.cst(64, obj_addr(idx as u32) as u128);
            let off = x.ar.sub(e, b);
            let lim = x.ar.cst(64, (size - n) as u128);
            x.ar.ule(off, lim)
        };
        // the object; its size cannot change within one instruction
        let size = |st: &State, idx: u64| st.mem.obj(idx as u32).map_or(0, |o| o.size);
        let idx = self.pick(
            st,
            e,
            &|_, st, a| {
                if st.mem.find(a, n).is_some() {
                    return Ok(a >> 32);
                }
                let o = st.mem.obj((a >> 32) as u32).map(|o| o.size);
                Err(Stop::Violation(
                    "memory".into(),
                    format!("{} of {} bytes at offset {} of an object of {:?} bytes", what, n, (a as u32 as i64) - (BASE as i64), o),
                ))
            },
            &|x, st, idx| inside(x, idx, size(st, idx).max(n)),
        )?;
        Ok((obj_addr(idx as u32), size(st, idx)))
    }
    fn word_key(b: &[E]) -> [E; 9] {
        let mut k = [0; 9];
        k[..b.len()].copy_from_slice(b);
        k[8] = b.len() as u32;
        k
    }
    fn loadw(&mut self, st: &mut State, addr: u64, w: u32) -> R<Val> {
        let nb = ((w + 7) / 8) as usize;
        let (idx, off) = match st.mem.find(addr, nb as u64) {
            Some(x) => x,
            None => return Err(self.bad(st, addr, nb as u64, "load")),
        };
        let o = st.mem.obj(idx).unwrap();
        if o.all_conc(off, nb) {
            if nb <= 8 {
                let mut v = 0u64;
                for i in (0..nb).rev() {
                    v = (v << 8) | o.conc[off + i] as u64;
                }
                return Ok(Val::C(if w < 64 { v & ((1u64 << w) - 1) } else { v }));
            }
            let mut v = 0u128;
            for i in (0..nb).rev() {
                v = (v << 8) | o.conc[off + i] as u128;
            }
            return Ok(Self::mkc(w, v & mask(w)));
        }
        let o = o.clone();
        if nb > 1 && nb <= 8 && w as usize == 8 * nb {
            let mut bs = [0u32; 8];
            let mut ok = true;
            for i in 0..nb {
                let (b, s) = o.get(off + i);
                bs[i] = match s {
                    0 => self.ar.cst(8, b as u128),
                    UNINIT => {
                        ok = false;
                        break;
                    }
                    s => s,
                };
            }
            // a word that was stored as a whole comes back as what it was
            if ok {
                if let Some(&e) = self.words.get(&Self::word_key(&bs[..nb])) {
                    return Ok(self.mk(e));
                }
            }
        }
        let mut acc: Option<E> = None;
        let mut fix: Vec<(usize, E)> = vec![];
        // build from the most significant byte down so that adjacent extracts merge
        for i in (0..nb).rev() {
            let (b, s) = o.get(off + i);
            let e = match s {
                0 => self.ar.cst(8, b as u128),
                UNINIT => {
                    let e = self.fresh_uninit(st);
                    fix.push((off + i, e));
                    e
                }
                s => s,
            };
            acc = Some(match acc {
                None => e,
                Some(h) => self.ar.concat(h, e),
            });
        }
        if !fix.is_empty() {
            let m = st.mem.obj_mut(idx).unwrap();
            for (i, e) in fix {
                m.sym[i] = e;
            }
        }
        let mut e = acc.unwrap();
        if self.ar.w(e) > w {
            e = self.ar.extract(e, 0, w);
        }
        Ok(self.mk(e))
    }
    fn bad(&self, st: &State, addr: u64, n: u64, what: &str) -> Stop {
        let idx = (addr >> 32) as u32;
        let d = match st.mem.obj(idx) {
            Some(o) => format!("{} of {} bytes at offset {} of an object of {} bytes", what, n, (addr as u32 as i64) - (BASE as i64), o.size),
            None => format!("{} of {} bytes at {:#x}: no live object there", what, n, addr),
        };
        Stop::Violation("memory".into(), d)
    }
    fn storew(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) -> R<()> {
        let nb = ((w + 7) / 8) as usize;
        let (idx, off) = match st.mem.find(addr, nb as u64) {
            Some(x) => x,
            None => return Err(self.bad(st, addr, nb as u64, "store")),
        };
        if st.mem.obj(idx).unwrap().ro {
            return Err(Stop::Violation("memory".into(), "store to a constant".into()));
        }
        match v {
            Val::C(x) => {
                let b = x.to_le_bytes();
                let o = st.mem.obj_mut(idx).unwrap();
                if nb <= 8 {
                    o.set_conc(off, &b[..nb]);
                } else {
                    o.set_conc(off, &(*x as u128).to_le_bytes()[..nb]);
                }
            }
            Val::W(x) => {
                let b = x.to_le_bytes();
                st.mem.obj_mut(idx).unwrap().set_conc(off, &b[..nb]);
            }
            Val::S(e) => {
                let mut e = *e;
                if w % 8 != 0 {
                    e = self.ar.zext(e, (nb * 8) as u32);
                }
                let mut bs = Vec::with_capacity(nb);
                for i in 0..nb {
                    bs.push(self.ar.extract(e, 8 * i as u32, 8));
                }
                if w % 8 == 0 && nb > 1 && nb <= 8 {
                    self.words.insert(Self::word_key(&bs), e);
                }
                let cs: Vec<(u8, u32)> = bs
                    .iter()
                    .map(|&b| match self.ar.is_const(b) {
                        Some(v) => (v as u8, 0),
                        None => (0, b),
                    })
                    .collect();
                let o = st.mem.obj_mut(idx).unwrap();
                for (i, (c, s)) in cs.into_iter().enumerate() {
                    o.set(off + i, c, s);
                }
            }
            _ => {
                let o = st.mem.obj_mut(idx).unwrap();
                for i in 0..nb {
                    o.set(off + i, 0, UNINIT);
                }
            }
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, addr: u64, ty: TyId) -> R<Val> {
        let m = self.m.clone();
        match &m.tys[ty as usize] {
            Ty::Int(w) => self.loadw(st, addr, *w),
            Ty::Ptr => self.loadw(st, addr, 64),
            Ty::Float(w) => self.loadw(st, addr, *w),
            Ty::Vec(n, e) => {
                let bw = m.bits(*e) as u32;
                if bw % 8 != 0 {
                    return Err(Stop::Unsupported("load of a bit vector".into()));
                }
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n as u64 {
                    v.push(self.loadw(st, addr + i * (bw as u64 / 8), bw)?);
                }
                Ok(Val::A(v.into()))
            }
            Ty::Array(n, e) => {
                let s = m.size(*e);
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, addr + i * s, *e)?);
                }
                Ok(Val::A(v.into()))
            }
            Ty::Struct(fs, p) => {
                let mut v = vec![];
                for i in 0..fs.len() {
                    v.push(self.load(st, addr + m.field_off(fs, *p, i), fs[i])?);
                }
                Ok(Val::A(v.into()))
            }
            _ => Err(Stop::Unsupported("load type".into())),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: TyId, v: &Val) -> R<()> {
        let m = self.m.clone();
        match &m.tys[ty as usize] {
            Ty::Int(w) => self.storew(st, addr, *w, v),
            Ty::Ptr => self.storew(st, addr, 64, v),
            Ty::Float(w) => self.storew(st, addr, *w, v),
            Ty::Vec(n, e) => {
                let bw = m.bits(*e) as u32;
                if bw % 8 != 0 {
                    return Err(Stop::Unsupported("store of a bit vector".into()));
                }
                for i in 0..*n as usize {
                    let x = el(v, i);
                    self.storew(st, addr + i as u64 * (bw as u64 / 8), bw, &x)?;
                }
                Ok(())
            }
            Ty::Array(n, e) => {
                let s = m.size(*e);
                for i in 0..*n {
                    let x = el(v, i as usize);
                    self.store(st, addr + i * s, *e, &x)?;
                }
                Ok(())
            }
            Ty::Struct(fs, p) => {
                for i in 0..fs.len() {
                    let x = el(v, i);
                    self.store(st, addr + m.field_off(fs, *p, i), fs[i], &x)?;
                }
                Ok(())
            }
            _ => Err(Stop::Unsupported("store type".into())),
        }
    }
    // load through a symbolic address: an if-then-else over the feasible offsets when they are few
    fn load_sym(&mut self, st: &mut State, e: E, ty: TyId) -> R<Val> {
        let m = self.m.clone();
        let w = match &m.tys[ty as usize] {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => {
                let a = self.addr(st, &Val::S(e), m.store_size(ty), "load")?;
                return self.load(st, a, ty);
            }
        };
        let nb = ((w + 7) / 8) as u64;
        let (base, size) = self.bound(st, e, nb, "load")?;
        let r = self.ar.range[e as usize];
        let lo = r.0.max(base);
        let hi = r.1.min(base + size - nb);
        // feasible offsets: exact when the address depends on one small symbol
        let sup = self.ar.support(e);
        let mut feas: Vec<(u64, E)> = vec![]; // (address, condition)
        if sup.len() == 1 && self.ar.syms[sup[0] as usize].w <= 8 {
            let s = sup[0];
            let d = self.domain(st, s);
            let sw = self.ar.syms[s as usize].w;
            let mut by: BTreeMap<u64, [u64; 4]> = BTreeMap::new();
            let mut model = vec![0u64; s as usize + 1];
            for v in 0..(1usize << sw) {
                if d[v >> 6] >> (v & 63) & 1 == 0 {
                    continue;
                }
                model[s as usize] = v as u64;
                self.ev.reset();
                let a = self.ev.eval(&self.ar, e, &model) as u64;
                by.entry(a).or_default()[v >> 6] |= 1 << (v & 63);
            }
            self.ev.reset();
            // group by the value found there
            let mut groups: Vec<(Val, [u64; 4])> = vec![];
            let mut sym_ok = true;
            for (a, set) in by {
                if st.mem.find(a, nb).is_none() {
                    sym_ok = false;
                    break;
                }
                let v = self.loadw(st, a, w)?;
                match groups.iter_mut().find(|(g, _)| same(g, &v)) {
                    Some((_, g)) => {
                        for k in 0..4 {
                            g[k] |= set[k];
                        }
                    }
                    None => groups.push((v, set)),
                }
            }
            if sym_ok {
                groups.sort_by_key(|(_, g)| std::cmp::Reverse(g.iter().map(|x| x.count_ones()).sum::<u32>()));
                let seq = self.ar.syms[s as usize].seq;
                let kind = self.ar.syms[s as usize].kind;
                let se = self.ar.sym(seq, sw, kind);
                let mut acc = self.ex(&groups[0].0.clone(), w);
                for (v, set) in groups[1..].iter() {
                    let c = self.in_set(se, set);
                    let v = self.ex(v, w);
                    acc = self.ar.ite(c, v, acc);
                }
                return Ok(self.mk(acc));
            }
        }
        if hi - lo <= 64 {
            for a in lo..=hi {
                let k = self.ar.cst(64, a as u128);
                let c = self.ar.eq(e, k);
                if self.ar.is_const(c) == Some(0) {
                    continue;
                }
                feas.push((a, c));
            }
            if !feas.is_empty() {
                let last = feas.pop().unwrap();
                let v = self.loadw(st, last.0, w)?;
                let mut acc = self.ex(&v, w);
                for (a, c) in feas.into_iter().rev() {
                    let v = self.loadw(st, a, w)?;
                    let v = self.ex(&v, w);
                    acc = self.ar.ite(c, v, acc);
                }
                return Ok(self.mk(acc));
            }
        }
        let a = self.concretize(st, e)? as u64;
        self.loadw(st, a, w)
    }
    // membership of a small symbol in a set, as a disjunction of intervals
    fn in_set(&mut self, s: E, set: &[u64; 4]) -> E {
        let w = self.ar.w(s);
        let has = |v: usize| set[v >> 6] >> (v & 63) & 1 == 1;
        let n = 1usize << w;
        let mut acc = self.ar.cst(1, 0);
        let mut v = 0;
        while v < n {
            if !has(v) {
                v += 1;
                continue;
            }
            let st = v;
            while v < n && has(v) {
                v += 1;
            }
            let k = self.ar.cst(w, st as u128);
            let c = if v - st == 1 {
                self.ar.eq(s, k)
            } else if st == 0 && v == n {
                self.ar.cst(1, 1)
            } else {
                let lo = self.ar.ule(k, s);
                let h = self.ar.cst(w, (v - 1) as u128);
                let hi = self.ar.ule(s, h);
                self.ar.and(lo, hi)
            };
            acc = self.ar.or(acc, c);
        }
        acc
    }
    pub fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = match st.mem.find(s, n) {
            Some(x) => x,
            None => return Err(self.bad(st, s, n, "copy source")),
        };
        let (di, dof) = match st.mem.find(d, n) {
            Some(x) => x,
            None => return Err(self.bad(st, d, n, "copy destination")),
        };
        let src = st.mem.obj(si).unwrap().clone();
        let n = n as usize;
        let o = st.mem.obj_mut(di).unwrap();
        if o.ro {
            return Err(Stop::Violation("memory".into(), "copy to a constant".into()));
        }
        o.conc[dof..dof + n].copy_from_slice(&src.conc[so..so + n]);
        if src.sym.is_empty() {
            if !o.sym.is_empty() {
                o.sym[dof..dof + n].iter_mut().for_each(|x| *x = 0);
            }
        } else {
            if o.sym.is_empty() {
                o.sym = vec![0; o.size as usize];
            }
            o.sym[dof..dof + n].copy_from_slice(&src.sym[so..so + n]);
        }
        Ok(())
    }
    pub fn set(&mut self, st: &mut State, d: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (di, dof) = match st.mem.find(d, n) {
            Some(x) => x,
            None => return Err(self.bad(st, d, n, "fill")),
        };
        let (c, s) = match v {
            Val::C(x) => (*x as u8, 0),
            Val::S(e) => (0, *e),
            _ => (0, UNINIT),
        };
        let o = st.mem.obj_mut(di).unwrap();
        for i in 0..n as usize {
            o.set(dof + i, c, s);
        }
        Ok(())
    }

    // ---- arithmetic ----
    fn bin1(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = if w == 64 { !0 } else { (1u64 << w) - 1 };
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::UDiv => {
                        if y == 0 {
                            m
                        } else {
                            x / y
                        }
                    }
                    BinOp::URem => {
                        if y == 0 {
                            x
                        } else {
                            x % y
                        }
                    }
                    BinOp::AShr => fold2(Op::AShr, w, x as u128, y as u128) as u64,
                    BinOp::SDiv => fold2(Op::SDiv, w, x as u128, y as u128) as u64,
                    BinOp::SRem => fold2(Op::SRem, w, x as u128, y as u128) as u64,
                };
                return Val::C(r & m);
            }
        }
        match (op, a, b) {
            (BinOp::And, Val::U, Val::C(0)) | (BinOp::And, Val::C(0), Val::U) => return Val::C(0),
            (_, Val::U, _) | (_, _, Val::U) => return Val::U,
            _ => {}
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match op {
            BinOp::Add => self.ar.add(x, y),
            BinOp::Sub => self.ar.sub(x, y),
            BinOp::Mul => self.ar.mul(x, y),
            BinOp::UDiv => self.ar.divrem(Op::UDiv, x, y),
            BinOp::SDiv => self.ar.divrem(Op::SDiv, x, y),
            BinOp::URem => self.ar.divrem(Op::URem, x, y),
            BinOp::SRem => self.ar.divrem(Op::SRem, x, y),
            BinOp::Shl => self.ar.shl(x, y),
            BinOp::LShr => self.ar.lshr(x, y),
            BinOp::AShr => self.ar.ashr(x, y),
            BinOp::And => self.ar.and(x, y),
            BinOp::Or => self.ar.or(x, y),
            BinOp::Xor => self.ar.xor(x, y),
        };
        self.mk(e)
    }
    fn bin(&mut self, op: BinOp, w: u32, n: u32, a: &Val, b: &Val) -> Val {
        if n == 0 {
            return self.bin1(op, w, a, b);
        }
        let v: Vec<Val> = (0..n as usize).map(|i| self.bin1(op, w, &el(a, i), &el(b, i))).collect();
        Val::A(v.into())
    }
    fn icmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
            if w <= 64 {
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Slt => s(x) < s(y),
                    Pred::Sle => s(x) <= s(y),
                    Pred::Sgt => s(x) > s(y),
                    Pred::Sge => s(x) >= s(y),
                };
                return Val::C(r as u64);
            }
        }
        if matches!(a, Val::U) || matches!(b, Val::U) {
            return Val::U;
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => self.ar.ne(x, y),
            Pred::Ult => self.ar.ult(x, y),
            Pred::Ule => self.ar.ule(x, y),
            Pred::Ugt => self.ar.ult(y, x),
            Pred::Uge => self.ar.ule(y, x),
            Pred::Slt => self.ar.slt(x, y),
            Pred::Sle => self.ar.sle(x, y),
            Pred::Sgt => self.ar.slt(y, x),
            Pred::Sge => self.ar.sle(y, x),
        };
        self.mk(e)
    }
    fn cast1(&mut self, op: CastOp, fw: u32, tw: u32, a: &Val) -> Val {
        match a {
            Val::C(x) if tw <= 64 => Val::C(match op {
                CastOp::Trunc => x & mask(tw) as u64,
                CastOp::ZExt => *x,
                CastOp::SExt => (sx(*x as u128, fw) as u128 & mask(tw)) as u64,
            }),
            Val::U => Val::U,
            _ => {
                let e = self.ex(a, fw);
                let r = match op {
                    CastOp::Trunc => self.ar.extract(e, 0, tw),
                    CastOp::ZExt => self.ar.zext(e, tw),
                    CastOp::SExt => self.ar.sext(e, tw),
                };
                self.mk(r)
            }
        }
    }
    fn select(&mut self, st: &mut State, c: &Val, ty: TyId, n: u32, a: &Val, b: &Val) -> R<Val> {
        let m = self.m.clone();
        if n > 0 {
            let et = match &m.tys[ty as usize] {
                Ty::Vec(_, e) => *e,
                _ => return Err(Stop::Unsupported("vector select".into())),
            };
            let mut v = vec![];
            for i in 0..n as usize {
                v.push(self.select(st, &el(c, i), et, 0, &el(a, i), &el(b, i))?);
            }
            return Ok(Val::A(v.into()));
        }
        match c {
            Val::C(x) => Ok(if *x & 1 != 0 { a.clone() } else { b.clone() }),
            Val::S(ce) => {
                let ce = *ce;
                if let Some(d) = self.decided(st, ce) {
                    return Ok(if d { a.clone() } else { b.clone() });
                }
                match &m.tys[ty as usize] {
                    Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                        let w = m.bits(ty) as u32;
                        if matches!(a, Val::U) {
                            return Ok(b.clone());
                        }
                        if matches!(b, Val::U) {
                            return Ok(a.clone());
                        }
                        // pointers to different objects: decide now rather than carry an unusable address
                        if m.tys[ty as usize] == Ty::Ptr {
                            let (x, y) = (self.ex(a, 64), self.ex(b, 64));
                            let (rx, ry) = (self.ar.range[x as usize], self.ar.range[y as usize]);
                            if rx.0 >> 32 != ry.0 >> 32 {
                                let d = self.decide(st, ce)?;
                                return Ok(if d { a.clone() } else { b.clone() });
                            }
                        }
                        let (x, y) = (self.ex(a, w), self.ex(b, w));
                        let e = self.ar.ite(ce, x, y);
                        Ok(self.mk(e))
                    }
                    Ty::Vec(k, e) => {
                        let mut v = vec![];
                        for i in 0..*k as usize {
                            v.push(self.select(st, c, *e, 0, &el(a, i), &el(b, i))?);
                        }
                        Ok(Val::A(v.into()))
                    }
                    Ty::Struct(fs, _) => {
                        let mut v = vec![];
                        for i in 0..fs.len() {
                            v.push(self.select(st, c, fs[i], 0, &el(a, i), &el(b, i))?);
                        }
                        Ok(Val::A(v.into()))
                    }
                    _ => Err(Stop::Unsupported("select type".into())),
                }
            }
            _ => Ok(a.clone()),
        }
    }
    fn flat(&mut self, ty: TyId, v: &Val) -> E {
        let m = self.m.clone();
        match &m.tys[ty as usize] {
            Ty::Vec(n, e) => {
                let w = m.bits(*e) as u32;
                let mut acc = self.ex(&el(v, *n as usize - 1), w);
                for i in (0..*n as usize - 1).rev() {
                    let x = self.ex(&el(v, i), w);
                    acc = self.ar.concat(acc, x);
                }
                acc
            }
            _ => {
                let w = m.bits(ty) as u32;
                self.ex(v, w)
            }
        }
    }
    fn bitcast(&mut self, fty: TyId, tty: TyId, v: &Val) -> R<Val> {
        let m = self.m.clone();
        if m.bits(fty) > 128 {
            // wide vectors: go through bytes
            let (fe, fnn) = match &m.tys[fty as usize] {
                Ty::Vec(n, e) => (m.bits(*e) as u32, *n as usize),
                _ => return Err(Stop::Unsupported("wide bitcast".into())),
            };
            let (te, tn) = match &m.tys[tty as usize] {
                Ty::Vec(n, e) => (m.bits(*e) as u32, *n as usize),
                _ => return Err(Stop::Unsupported("wide bitcast".into())),
            };
            if fe == te {
                return Ok(v.clone());
            }
            let mut out = vec![];
            if fe < te {
                let k = (te / fe) as usize;
                for i in 0..tn {
                    let mut acc = self.ex(&el(v, i * k + k - 1), fe);
                    for j in (0..k - 1).rev() {
                        let x = self.ex(&el(v, i * k + j), fe);
                        acc = self.ar.concat(acc, x);
                    }
                    out.push(self.mk(acc));
                }
            } else {
                let k = (fe / te) as usize;
                for i in 0..fnn {
                    let x = self.ex(&el(v, i), fe);
                    for j in 0..k {
                        let y = self.ar.extract(x, j as u32 * te, te);
                        out.push(self.mk(y));
                    }
                }
            }
            return Ok(Val::A(out.into()));
        }
        let e = self.flat(fty, v);
        match &m.tys[tty as usize] {
            Ty::Vec(n, et) => {
                let w = m.bits(*et) as u32;
                let v: Vec<Val> = (0..*n)
                    .map(|i| {
                        let x = self.ar.extract(e, i * w, w);
                        self.mk(x)
                    })
                    .collect();
                Ok(Val::A(v.into()))
            }
            _ => Ok(self.mk(e)),
        }
    }

    // ---- main loop ----
    #[inline]
    fn get<'a>(m: &'a Module, fr: &'a Frame, o: Opnd) -> &'a Val {
        if o.0 & 0x8000_0000 != 0 {
            &m.pool[(o.0 & 0x7fff_ffff) as usize]
        } else {
            &fr.regs[o.0 as usize]
        }
    }
    fn jump(m: &Module, fr: &mut Frame, t: &Target) {
        match t.moves.len() {
            0 => {}
            1 => {
                let v = Self::get(m, fr, t.moves[0].1).clone();
                fr.regs[t.moves[0].0 as usize] = v;
            }
            _ => {
                let vs: Vec<Val> = t.moves.iter().map(|(_, o)| Self::get(m, fr, *o).clone()).collect();
                for ((d, _), v) in t.moves.iter().zip(vs) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.block = t.block;
        fr.ip = 0;
    }
    pub fn run(&mut self, st: &mut State, deadline: std::time::Instant) -> R<()> {
        let m = self.m.clone();
        loop {
            st.steps += 1;
            self.stats.steps += 1;
            if st.steps >= st.limit {
                return Err(Stop::Violation("steps".into(), "step limit reached (no termination within the bound)".into()));
            }
            if st.steps & 0xfffff == 0 && std::time::Instant::now() > deadline {
                return Err(Stop::Unknown("time budget".into()));
            }
            st.mark = st.decisions.len();
            self.step(st, &m)?;
        }
    }
    #[inline]
    fn step(&mut self, st: &mut State, m: &Module) -> R<()> {
        let fr = st.frames.last().unwrap();
        let ins: &Ins = &m.funcs[fr.func as usize].blocks[fr.block as usize].ins[fr.ip as usize];
        macro_rules! v {
            ($o:expr) => {
                Self::get(m, st.frames.last().unwrap(), $o)
            };
        }
        macro_rules! put {
            ($d:expr, $v:expr) => {{
                let val = $v;
                let f = Rc::make_mut(st.frames.last_mut().unwrap());
                f.regs[$d as usize] = val;
                f.ip += 1;
            }};
        }
        macro_rules! go {
            ($t:expr) => {{
                let f = Rc::make_mut(st.frames.last_mut().unwrap());
                Self::jump(m, f, $t);
            }};
        }
        match ins {
            Ins::Bin { op, dst, w, n, a, b } => {
                let (mut x, y) = (v!(*a).clone(), v!(*b).clone());
                // undefined in some of the bits only
                if *n == 0 && matches!(x, Val::U) && matches!(op, BinOp::Shl | BinOp::LShr | BinOp::And | BinOp::Or) {
                    x = self.some_value(st, *w);
                }
                let r = self.bin(*op, *w, *n, &x, &y);
                put!(*dst, r);
            }
            Ins::Icmp { pred, dst, w, n, a, b } => {
                let (x, y) = (v!(*a).clone(), v!(*b).clone());
                let r = if *n == 0 {
                    self.icmp1(*pred, *w, &x, &y)
                } else {
                    let l: Vec<Val> = (0..*n as usize).map(|i| self.icmp1(*pred, *w, &el(&x, i), &el(&y, i))).collect();
                    Val::A(l.into())
                };
                put!(*dst, r);
            }
            Ins::Cast { op, dst, fw, tw, n, a } => {
                let mut x = v!(*a).clone();
                if *n == 0 && matches!(x, Val::U) && *tw > *fw {
                    x = self.some_value(st, *fw);
                }
                let r = if *n == 0 {
                    self.cast1(*op, *fw, *tw, &x)
                } else {
                    let l: Vec<Val> = (0..*n as usize).map(|i| self.cast1(*op, *fw, *tw, &el(&x, i))).collect();
                    Val::A(l.into())
                };
                put!(*dst, r);
            }
            Ins::Mov { dst, a } => {
                let x = v!(*a).clone();
                put!(*dst, x);
            }
            Ins::Freeze { dst, a, ty } => {
                let x = v!(*a).clone();
                let x = self.freeze(*ty, x);
                put!(*dst, x);
            }
            Ins::Bitcast { dst, fty, tty, a } => {
                let x = v!(*a).clone();
                let r = self.bitcast(*fty, *tty, &x)?;
                put!(*dst, r);
            }
            Ins::Select { dst, ty, n, c, a, b } => {
                let (k, x, y) = (v!(*c).clone(), v!(*a).clone(), v!(*b).clone());
                let r = self.select(st, &k, *ty, *n, &x, &y)?;
                put!(*dst, r);
            }
            Ins::Gep { dst, base, off, terms } => {
                let mut acc = v!(*base).clone();
                if terms.is_empty() {
                    if let Val::C(b) = acc {
                        put!(*dst, Val::C(b.wrapping_add(*off as u64)));
                        return Ok(());
                    }
                }
                let mut k = *off as u64;
                for (o, iw, sc) in terms.iter() {
                    match v!(*o).clone() {
                        Val::C(x) => {
                            let x = sx(x as u128, *iw) as u64;
                            k = k.wrapping_add(x.wrapping_mul(*sc as u64));
                        }
                        Val::S(e) => {
                            let e = self.ar.sext(e, 64);
                            let s = self.ar.cst(64, *sc as u64 as u128);
                            let t = self.ar.mul(e, s);
                            let b = self.ex(&acc, 64);
                            let r = self.ar.add(b, t);
                            acc = self.mk(r);
                        }
                        _ => acc = Val::U,
                    }
                }
                let r = match acc {
                    Val::C(b) => Val::C(b.wrapping_add(k)),
                    Val::S(e) => {
                        let s = self.ar.cst(64, k as u128);
                        let r = self.ar.add(e, s);
                        self.mk(r)
                    }
                    x => x,
                };
                put!(*dst, r);
            }
            Ins::Load { dst, ty, p } => {
                let r = match v!(*p).clone() {
                    Val::C(a) => self.load(st, a, *ty)?,
                    Val::S(e) => self.load_sym(st, e, *ty)?,
                    _ => return Err(Stop::Violation("memory".into(), "load through an undefined pointer".into())),
                };
                put!(*dst, r);
            }
            Ins::Store { ty, v, p } => {
                let (x, pp) = (v!(*v).clone(), v!(*p).clone());
                let a = match pp {
                    Val::C(a) => a,
                    _ => self.addr(st, &pp, m.store_size(*ty), "store")?,
                };
                self.store(st, a, *ty, &x)?;
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
            }
            Ins::Alloca { dst, size, count } => {
                let n = match count {
                    None => 1,
                    Some(c) => match v!(*c).clone() {
                        Val::C(x) => x,
                        Val::S(e) => self.concretize(st, e)? as u64,
                        _ => 1,
                    },
                };
                let a = st.mem.push_stack(st.cur, size * n);
                put!(*dst, Val::C(a));
            }
            Ins::Call(c) => self.call(st, m, c)?,
            Ins::ExtractValue { dst, a, path } => {
                let mut x = v!(*a).clone();
                for &k in path.iter() {
                    x = el(&x, k as usize);
                }
                put!(*dst, x);
            }
            Ins::InsertValue { dst, ty, a, v, path } => {
                let (x, y) = (v!(*a).clone(), v!(*v).clone());
                let r = ins_val(m, *ty, &x, &y, path);
                put!(*dst, r);
            }
            Ins::ExtractElement { dst, a, i } => {
                let x = v!(*a).clone();
                let k = match v!(*i).clone() {
                    Val::C(k) => k,
                    Val::S(e) => self.concretize(st, e)? as u64,
                    _ => 0,
                };
                put!(*dst, el(&x, k as usize));
            }
            Ins::InsertElement { dst, n, a, v, i } => {
                let (x, y) = (v!(*a).clone(), v!(*v).clone());
                let k = match v!(*i).clone() {
                    Val::C(k) => k,
                    Val::S(e) => self.concretize(st, e)? as u64,
                    _ => 0,
                };
                let mut l: Vec<Val> = (0..*n as usize).map(|j| el(&x, j)).collect();
                l[k as usize] = y;
                put!(*dst, Val::A(l.into()));
            }
            Ins::Shuffle { dst, n, a, b, mask } => {
                let (x, y) = (v!(*a).clone(), v!(*b).clone());
                let l: Vec<Val> = mask
                    .iter()
                    .map(|&k| {
                        if k < 0 {
                            Val::U
                        } else if (k as u32) < *n {
                            el(&x, k as usize)
                        } else {
                            el(&y, (k as u32 - *n) as usize)
                        }
                    })
                    .collect();
                put!(*dst, Val::A(l.into()));
            }
            Ins::AtomicRmw { op, dst, w, p, v } => {
                let (pp, x) = (v!(*p).clone(), v!(*v).clone());
                let a = self.addr(st, &pp, (*w / 8) as u64, "atomic")?;
                let old = self.loadw(st, a, *w)?;
                let new = match op {
                    0 => x,
                    1 => self.bin1(BinOp::Add, *w, &old, &x),
                    2 => self.bin1(BinOp::Sub, *w, &old, &x),
                    3 => self.bin1(BinOp::And, *w, &old, &x),
                    4 => self.bin1(BinOp::Or, *w, &old, &x),
                    5 => self.bin1(BinOp::Xor, *w, &old, &x),
                    8 => self.minmax(X::IUmax, *w, &old, &x),
                    9 => self.minmax(X::IUmin, *w, &old, &x),
                    6 => self.minmax(X::ISmax, *w, &old, &x),
                    7 => self.minmax(X::ISmin, *w, &old, &x),
                    _ => return Err(Stop::Unsupported("atomicrmw".into())),
                };
                self.storew(st, a, *w, &new)?;
                put!(*dst, old);
            }
            Ins::CmpXchg { dst, w, p, c, v } => {
                let (pp, cc, x) = (v!(*p).clone(), v!(*c).clone(), v!(*v).clone());
                let a = self.addr(st, &pp, (*w / 8) as u64, "atomic")?;
                let old = self.loadw(st, a, *w)?;
                let eq = self.icmp1(Pred::Eq, *w, &old, &cc);
                let ok = match eq {
                    Val::C(k) => k != 0,
                    Val::S(e) => self.decide(st, e)?,
                    _ => false,
                };
                if ok {
                    self.storew(st, a, *w, &x)?;
                }
                put!(*dst, Val::A(vec![old, Val::C(ok as u64)].into()));
            }
            Ins::Nop => Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1,
            Ins::Br(t) => go!(t),
            Ins::CondBr { c, t, f } => {
                let k = match v!(*c) {
                    Val::C(x) => *x & 1 != 0,
                    Val::S(e) => {
                        let e = *e;
                        self.decide(st, e)?
                    }
                    _ => return Err(Stop::Unsupported("branch on an undefined value".into())),
                };
                go!(if k { t } else { f });
            }
            Ins::Switch { v, w, def, cases } => {
                let x = v!(*v).clone();
                let t = match x {
                    Val::C(x) => cases.iter().find(|(k, _)| *k == x).map(|c| &c.1).unwrap_or(def),
                    Val::S(e) => self.switch(st, e, *w, def, cases)?,
                    _ => return Err(Stop::Unsupported("switch on an undefined value".into())),
                };
                go!(t);
            }
            Ins::Ret(o) => {
                let r = o.map(|o| v!(o).clone());
                let f = st.frames.pop().unwrap();
                st.mem.pop_stack(st.cur, f.sp);
                if st.frames.is_empty() {
                    if st.cur > 0 {
                        return Err(Stop::Unsupported("a coroutine that returns".into()));
                    }
                    return Err(Stop::Done);
                }
                let (dst, rv) = (f.dst, r);
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                let cins = match &m.funcs[fr.func as usize].blocks[fr.block as usize].ins[fr.ip as usize] {
                    Ins::Call(c) => c,
                    _ => unreachable!(),
                };
                if dst != u32::MAX {
                    fr.regs[dst as usize] = rv.unwrap_or(Val::U);
                }
                match &cins.normal {
                    Some(t) => Self::jump(m, fr, t),
                    None => fr.ip += 1,
                }
            }
            Ins::Unreachable => return Err(Stop::Violation("unreachable".into(), "control reached an unreachable point".into())),
            Ins::Unsupported(s) => return Err(Stop::Unsupported(s.clone())),
        }
        Ok(())
    }
    // one decision per distinct destination
    fn switch<'a>(&mut self, st: &mut State, e: E, w: u32, def: &'a Target, cases: &'a [(u64, Target)]) -> R<&'a Target> {
        // group cases by destination block
        let mut groups: Vec<(u32, Vec<u64>, usize)> = vec![];
        for (i, (k, t)) in cases.iter().enumerate() {
            let same = |j: usize| {
                let u: &Target = &cases[j].1;
                u.block == t.block && u.moves.len() == t.moves.len() && u.moves.iter().zip(t.moves.iter()).all(|(a, b)| a == b)
            };
            match groups.iter_mut().find(|g| g.0 == t.block && same(g.2)) {
                Some(g) => g.1.push(*k),
                None => groups.push((t.block, vec![*k], i)),
            }
        }
        for (_, ks, i) in &groups {
            let mut c = self.ar.cst(1, 0);
            for &k in ks {
                let kk = self.ar.cst(w, k as u128);
                let x = self.ar.eq(e, kk);
                c = self.ar.or(c, x);
            }
            if self.decide(st, c)? {
                return Ok(&cases[*i].1);
            }
        }
        Ok(def)
    }
    fn freeze(&mut self, ty: TyId, v: Val) -> Val {
        let m = self.m.clone();
        match v {
            Val::U => zero_val(&m, ty),
            Val::A(l) => {
                let tys: Vec<TyId> = match &m.tys[ty as usize] {
                    Ty::Vec(n, e) => vec![*e; *n as usize],
                    Ty::Array(n, e) => vec![*e; *n as usize],
                    Ty::Struct(f, _) => f.clone(),
                    _ => return Val::A(l),
                };
                let r: Vec<Val> = l.iter().zip(tys).map(|(x, t)| self.freeze(t, x.clone())).collect();
                Val::A(r.into())
            }
            v => v,
        }
    }
    pub fn minmax(&mut self, x: X, w: u32, a: &Val, b: &Val) -> Val {
        let p = match x {
            X::IUmin => Pred::Ult,
            X::IUmax => Pred::Ugt,
            X::ISmin => Pred::Slt,
            _ => Pred::Sgt,
        };
        match self.icmp1(p, w, a, b) {
            Val::C(k) => {
                if k != 0 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            Val::S(c) => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let e = self.ar.ite(c, x, y);
                self.mk(e)
            }
            _ => Val::U,
        }
    }

    fn enter(&mut self, st: &mut State, m: &Module, fi: u32, args: Vec<Val>, dst: u32) {
        let f = &m.funcs[fi as usize];
        self.seen_fn[fi as usize] = true;
        let mut regs = vec![Val::U; f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.nparams as usize {
                regs[i] = a;
            }
        }
        let sp = st.mem.stack_top(st.cur);
        st.frames.push(Rc::new(Frame { func: fi, block: 0, ip: 0, dst, sp, regs }));
    }
    fn call(&mut self, st: &mut State, m: &Module, c: &CallIns) -> R<()> {
        let mut x = self.ext[c.ext_id as usize];
        let mut target = None;
        match &c.callee {
            Callee::Func(f) => target = Some(*f),
            Callee::Ind(o) => {
                let a = match Self::get(m, st.frames.last().unwrap(), *o).clone() {
                    Val::C(a) => a,
                    Val::S(e) => self.concretize(st, e)? as u64,
                    _ => return Err(Stop::Violation("memory".into(), "call through an undefined pointer".into())),
                };
                let k = a.wrapping_sub(FN_BASE) / 16;
                if a < FN_BASE || k as usize >= m.funcs.len() {
                    return Err(Stop::Violation("memory".into(), format!("call through a bad pointer {:#x}", a)));
                }
                target = Some(k as u32);
            }
            _ => {}
        }
        let args: Vec<Val> = {
            let fr = st.frames.last().unwrap();
            c.args.iter().map(|&o| Self::get(m, fr, o).clone()).collect()
        };
        if let Some(f) = target {
            let s = self.fstub[f as usize];
            if s == X::None {
                if !m.funcs[f as usize].defined {
                    return Err(Stop::Unsupported(format!("external function {}", m.funcs[f as usize].name)));
                }
                if st.frames.len() > 2000 {
                    return Err(Stop::Violation("stack".into(), "recursion deeper than 2000 frames".into()));
                }
                self.enter(st, m, f, args, c.dst);
                return Ok(());
            }
            x = s;
            if s == X::SPanic {
                self.enter(st, m, f, args, c.dst);
                return Err(Stop::Panic(m.funcs[f as usize].name.clone()));
            }
        }
        if x == X::None {
            let n = match &c.callee {
                Callee::Asm(s) => {
                    if s.contains("cpuid") {
                        // a processor without optional extensions
                        let r = Val::A(vec![Val::C(0), Val::C(0), Val::C(0), Val::C(0)].into());
                        return self.ret(st, m, c, Some(r));
                    }
                    if s.split('|').next() == Some("") {
                        let r = args.get(0).cloned();
                        return self.ret(st, m, c, r);
                    }
                    format!("asm {}", s)
                }
                Callee::Ext(n) | Callee::Intr(n) => n.clone(),
                _ => "?".into(),
            };
            return Err(Stop::Unsupported(n));
        }
        if x == X::NdCoNew {
            let k = self.conc(st, &args[0])?.wrapping_sub(FN_BASE) / 16;
            if k as usize >= m.funcs.len() || !m.funcs[k as usize].defined {
                return Err(Stop::Unsupported("coroutine of an unknown function".into()));
            }
            let id = st.mem.add_thread();
            let f = &m.funcs[k as usize];
            self.seen_fn[k as usize] = true;
            let mut regs = vec![Val::U; f.nregs as usize];
            regs[0] = args[1].clone();
            st.parked.push(vec![Rc::new(Frame { func: k as u32, block: 0, ip: 0, dst: u32::MAX, sp: 0, regs })]);
            return self.ret(st, m, c, Some(Val::C(id as u64)));
        }
        if x == X::NdCoSwitch {
            let k = self.conc(st, &args[0])? as usize;
            self.ret(st, m, c, None)?;
            if k >= st.parked.len() {
                return Err(Stop::Unsupported("switch to an unknown coroutine".into()));
            }
            if k != st.cur {
                let next = std::mem::take(&mut st.parked[k]);
                let prev = std::mem::replace(&mut st.frames, next);
                st.parked[st.cur] = prev;
                st.cur = k;
            }
            return Ok(());
        }
        let r = self.external(st, m, c, x, &args)?;
        self.ret(st, m, c, r)
    }
    fn ret(&mut self, st: &mut State, m: &Module, c: &CallIns, r: Option<Val>) -> R<()> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if c.dst != u32::MAX {
            fr.regs[c.dst as usize] = r.unwrap_or(Val::U);
        }
        match &c.normal {
            Some(t) => Self::jump(m, fr, t),
            None => fr.ip += 1,
        }
        Ok(())
    }
    pub fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::S(e) => Ok(self.concretize(st, *e)? as u64),
            Val::U => Err(Stop::Unsupported("undefined argument".into())),
            _ => Err(Stop::Unsupported("wide argument".into())),
        }
    }
    // pointer argument for an access of n bytes (n = 0: anything goes)
    pub fn ptr(&mut self, st: &mut State, v: &Val, n: u64) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::S(_) if n > 0 => self.addr(st, v, n, "access"),
            Val::S(e) => Ok(self.concretize(st, *e)? as u64),
            _ => Err(Stop::Unsupported("undefined pointer argument".into())),
        }
    }
    pub fn byte(&mut self, st: &mut State, a: u64) -> R<E> {
        let v = self.loadw(st, a, 8)?;
        Ok(self.ex(&v, 8))
    }
    pub fn new_input(&mut self, st: &mut State, w: u32) -> E {
        let s = st.nsym;
        st.nsym += 1;
        let e = self.new_sym(st, s, w, 0);
        st.inputs.push(Input { e, w });
        e
    }
    pub fn x_load(&mut self, st: &mut State, a: u64, w: u32) -> R<Val> {
        self.loadw(st, a, w)
    }
    pub fn x_store(&mut self, st: &mut State, a: u64, w: u32, v: &Val) -> R<()> {
        self.storew(st, a, w, v)
    }
    pub fn x_bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        self.bin1(op, w, a, b)
    }
    pub fn x_icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        self.icmp1(p, w, a, b)
    }
    pub fn x_assume(&mut self, st: &mut State, c: E) -> R<()> {
        self.assume(st, c)
    }
    pub fn x_assert(&mut self, st: &mut State, c: E, msg: &str) -> R<()> {
        self.assert(st, c, msg)
    }
    pub fn set_model(&mut self, st: &mut State, e: E, v: u64) {
        let id = self.ar.node(e).a as usize;
        let m = Rc::make_mut(&mut st.model);
        if m.len() <= id {
            m.resize(id + 1, 0);
        }
        m[id] = v;
    }
    pub fn x_rel(&mut self, st: &mut State, v: &Val) -> R<u64> {
        self.conc(st, v)
    }

    // ---- one path ----
    pub fn explore_one(&mut self, mut st: State, deadline: std::time::Instant) {
        let mut r = self.run(&mut st, deadline);
        if !matches!(r, Ok(()) | Err(Stop::Infeasible)) {
            if let Err(e) = self.flush(&mut st) {
                r = Err(e);
            }
        }
        self.stats.max_steps = self.stats.max_steps.max(st.steps);
        match r {
            Ok(()) => {}
            Err(Stop::Done) => {
                self.stats.done += 1;
                self.stats.cover |= st.cover;
                self.maybe_sample(&st, false);
            }
            Err(Stop::Infeasible) => self.stats.infeasible += 1,
            Err(Stop::Violation(k, msg)) => self.report(&st, &k, &msg),
            Err(Stop::Panic(n)) => {
                if st.allow_panic {
                    self.stats.panics_allowed += 1;
                    self.stats.cover |= st.cover;
                    self.maybe_sample(&st, true);
                } else {
                    let _ = n;
                    self.report(&st, "panic", "panic");
                }
            }
            Err(Stop::Unsupported(s)) => {
                if self.log {
                    for f in st.frames.iter().rev() {
                        eprintln!("   in {}", self.m.funcs[f.func as usize].name);
                    }
                }
                *self.stats.unsupported.entry(s).or_default() += 1
            }
            Err(Stop::Unknown(s)) => *self.stats.unknown.entry(s).or_default() += 1,
        }
    }
    fn maybe_sample(&mut self, st: &State, panicked: bool) {
        let k = self.stats.done + self.stats.panics_allowed;
        let every = self.cfg.sample_every.max(1);
        if self.samples.len() < self.cfg.max_samples && (k % every == 1 || every == 1 || k < 4) {
            let inputs = self.inputs_of(st);
            let tr = st.trace.clone();
            let trace = tr.iter().map(|&e| self.eval(st, e) as u64).collect();
            let uninit = self.depends_uninit(st);
            self.samples.push(Sample { inputs, trace, uninit, panicked });
        }
    }
    // hand a queued state to another worker: decisions and the model, by creation order
    pub fn export(&self, st: &State) -> (Vec<Dec>, HashMap<(u32, u32, u8), u64>) {
        let mut d = st.decisions.clone();
        d.extend(st.replay.iter());
        let mut h: HashMap<(u32, u32, u8), u64> = (*st.hints).clone();
        for (i, s) in self.ar.syms.iter().enumerate() {
            if let Some(&v) = st.model.get(i) {
                h.insert((s.seq, s.w, s.kind), v);
            }
        }
        (d, h)
    }
}

fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::C(x), Val::C(y)) => x == y,
        (Val::S(x), Val::S(y)) => x == y,
        (Val::W(x), Val::W(y)) => x == y,
        _ => false,
    }
}
#[inline]
pub fn el(v: &Val, i: usize) -> Val {
    match v {
        Val::A(l) => l.get(i).cloned().unwrap_or(Val::U),
        _ => Val::U,
    }
}
pub fn zero_val(m: &Module, ty: TyId) -> Val {
    match &m.tys[ty as usize] {
        Ty::Vec(n, e) => Val::A(vec![zero_val(m, *e); *n as usize].into()),
        Ty::Array(n, e) => Val::A(vec![zero_val(m, *e); *n as usize].into()),
        Ty::Struct(f, _) => Val::A(f.iter().map(|&t| zero_val(m, t)).collect::<Vec<_>>().into()),
        _ => Exec::mkc(m.bits(ty) as u32, 0),
    }
}
fn ins_val(m: &Module, ty: TyId, a: &Val, v: &Val, path: &[u32]) -> Val {
    if path.is_empty() {
        return v.clone();
    }
    let tys: Vec<TyId> = match &m.tys[ty as usize] {
        Ty::Struct(f, _) => f.clone(),
        Ty::Array(n, e) => vec![*e; *n as usize],
        _ => return Val::U,
    };
    let mut l: Vec<Val> = (0..tys.len()).map(|i| el(a, i)).collect();
    let k = path[0] as usize;
    l[k] = ins_val(m, tys[k], &l[k], v, &path[1..]);
    Val::A(l.into())
}
