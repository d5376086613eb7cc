// Parser for textual LLVM IR (the subset rustc emits) into a compact form.
use std::collections::HashMap;
use std::sync::Arc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, TyId),
    Vec(u32, TyId),
    Struct(Vec<TyId>, bool),
    Other, // label, metadata, token, opaque
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(u32),
    W(Arc<u128>),
    A(Arc<[Val]>),
    U,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Opnd(pub u32); // top bit: constant pool index
impl Opnd {
    #[inline]
    pub fn cst(i: u32) -> Opnd {
        Opnd(i | 0x8000_0000)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
}

#[derive(Clone, Debug)]
pub struct Target {
    pub block: u32,
    pub moves: Box<[(u32, Opnd)]>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Intr(String),
    Ext(String),
    Ind(Opnd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub struct CallIns {
    pub dst: u32,
    pub rty: TyId,
    pub callee: Callee,
    pub args: Vec<Opnd>,
    pub atys: Vec<TyId>,
    pub normal: Option<Target>,
    pub ext_id: u32, // resolved by the executor
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: BinOp, dst: u32, w: u32, n: u32, a: Opnd, b: Opnd },
    Cast { op: CastOp, dst: u32, fw: u32, tw: u32, n: u32, a: Opnd },
    Mov { dst: u32, a: Opnd },
    Freeze { dst: u32, a: Opnd, ty: TyId },
    Bitcast { dst: u32, fty: TyId, tty: TyId, a: Opnd },
    Icmp { pred: Pred, dst: u32, w: u32, n: u32, a: Opnd, b: Opnd },
    Select { dst: u32, ty: TyId, n: u32, c: Opnd, a: Opnd, b: Opnd },
    Gep { dst: u32, base: Opnd, off: i64, terms: Box<[(Opnd, u32, i64)]> },
    Load { dst: u32, ty: TyId, p: Opnd },
    Store { ty: TyId, v: Opnd, p: Opnd },
    Alloca { dst: u32, size: u64, count: Option<Opnd> },
    Call(Box<CallIns>),
    ExtractValue { dst: u32, a: Opnd, path: Box<[u32]> },
    InsertValue { dst: u32, ty: TyId, a: Opnd, v: Opnd, path: Box<[u32]> },
    ExtractElement { dst: u32, a: Opnd, i: Opnd },
    InsertElement { dst: u32, n: u32, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { dst: u32, n: u32, a: Opnd, b: Opnd, mask: Box<[i32]> },
    AtomicRmw { op: u8, dst: u32, w: u32, p: Opnd, v: Opnd },
    CmpXchg { dst: u32, w: u32, p: Opnd, c: Opnd, v: Opnd },
    Nop,
    Br(Target),
    CondBr { c: Opnd, t: Target, f: Target },
    Switch { v: Opnd, w: u32, def: Target, cases: Vec<(u64, Target)> },
    Ret(Option<Opnd>),
    Unreachable,
    Unsupported(String),
}

pub struct Block {
    pub ins: Vec<Ins>,
}
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub nparams: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
}
pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: Option<CExpr>,
    pub constant: bool,
    pub tls: bool,
}

#[derive(Clone, Debug)]
pub enum CExpr {
    Int(u128),
    Zero,
    Undef,
    Agg(Vec<(TyId, CExpr)>),
    Bytes(Vec<u8>),
    Sym(String),
    Gep(TyId, Box<CExpr>, Vec<CExpr>),
    Bin(BinOp, u32, Box<CExpr>, Box<CExpr>),
    Cast(CastOp, u32, u32, Box<CExpr>),
    Same(Box<CExpr>),
}

pub struct Module {
    pub tys: Vec<Ty>,
    ty_map: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub aliases: HashMap<String, CExpr>,
    pub pool_src: Vec<(TyId, CExpr)>,
    pub pool: Vec<Val>,
}

pub const BASE: u64 = 0x1000_0000;
pub const FN_BASE: u64 = 0x4000_0000u64 << 32;
pub fn obj_addr(idx: u32) -> u64 {
    ((idx as u64) << 32) + BASE
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),  // bare word
    Loc(String), // %x
    Glo(String), // @x
    Num(String),
    Str(Vec<u8>),  // "..."
    CStr(Vec<u8>), // c"..."
    Meta,          // !...
    Attr,          // #n
    P(char),
    Dots,
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            v.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            v.push(b'\\');
            i += 2;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

fn lex(s: &[u8], out: &mut Vec<Tok>) {
    let mut i = 0;
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < s.len() {
        let c = s[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < s.len() && s[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name;
                if s[i] == b'"' {
                    let st = i + 1;
                    i += 1;
                    while s[i] != b'"' {
                        i += 1;
                    }
                    name = String::from_utf8_lossy(&unescape(&s[st..i])).into_owned();
                    i += 1;
                } else {
                    let st = i;
                    while i < s.len() && idc(s[i]) {
                        i += 1;
                    }
                    name = String::from_utf8_lossy(&s[st..i]).into_owned();
                }
                out.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glo(name) });
            }
            b'"' => {
                let st = i + 1;
                i += 1;
                while s[i] != b'"' {
                    i += 1;
                }
                out.push(Tok::Str(unescape(&s[st..i])));
                i += 1;
            }
            b'c' if i + 1 < s.len() && s[i + 1] == b'"' => {
                let st = i + 2;
                i += 2;
                while s[i] != b'"' {
                    i += 1;
                }
                out.push(Tok::CStr(unescape(&s[st..i])));
                i += 1;
            }
            b'!' => {
                i += 1;
                if i < s.len() && s[i] == b'{' {
                    // inline metadata tuple
                    let mut d = 0;
                    loop {
                        if s[i] == b'{' {
                            d += 1;
                        }
                        if s[i] == b'}' {
                            d -= 1;
                        }
                        i += 1;
                        if d == 0 {
                            break;
                        }
                    }
                } else if i < s.len() && s[i] == b'"' {
                    i += 1;
                    while s[i] != b'"' {
                        i += 1;
                    }
                    i += 1;
                } else {
                    while i < s.len() && idc(s[i]) {
                        i += 1;
                    }
                    if i < s.len() && s[i] == b'(' {
                        let mut d = 0;
                        loop {
                            if s[i] == b'(' {
                                d += 1;
                            }
                            if s[i] == b')' {
                                d -= 1;
                            }
                            i += 1;
                            if d == 0 {
                                break;
                            }
                        }
                    }
                }
                out.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < s.len() && idc(s[i]) {
                    i += 1;
                }
                out.push(Tok::Attr);
            }
            b'.' if s[i..].starts_with(b"...") => {
                i += 3;
                out.push(Tok::Dots);
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < s.len() && (idc(s[i]) || s[i] == b'+') {
                    i += 1;
                }
                out.push(Tok::Num(String::from_utf8_lossy(&s[st..i]).into_owned()));
            }
            _ if idc(c) => {
                let st = i;
                while i < s.len() && idc(s[i]) {
                    i += 1;
                }
                out.push(Tok::Id(String::from_utf8_lossy(&s[st..i]).into_owned()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
}

type R<T> = Result<T, String>;

struct Cur<'a> {
    t: &'a [Tok],
    i: usize,
}
impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<&'a Tok> {
        let t = self.t.get(self.i).ok_or("eol")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {} at {:?}", c, self.peek()))
        }
    }
    fn id(&mut self) -> R<&'a str> {
        match self.next()? {
            Tok::Id(s) => Ok(s),
            t => Err(format!("expected word, got {:?}", t)),
        }
    }
    fn skip_parens(&mut self) {
        if self.is_p('(') {
            let mut d = 0;
            while let Some(t) = self.peek() {
                if *t == Tok::P('(') {
                    d += 1;
                }
                if *t == Tok::P(')') {
                    d -= 1;
                }
                self.i += 1;
                if d == 0 {
                    break;
                }
            }
        }
    }
}

fn is_type_word(s: &str) -> bool {
    matches!(s, "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "opaque")
        || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    nregs: u32,
}
impl FnCtx {
    fn reg(&mut self, s: &str) -> u32 {
        if let Some(&r) = self.regs.get(s) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(s.to_string(), r);
        r
    }
}

impl Module {
    fn new() -> Self {
        Module {
            tys: vec![],
            ty_map: HashMap::new(),
            named: HashMap::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            aliases: HashMap::new(),
            pool_src: vec![],
            pool: vec![],
        }
    }
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.ty_map.get(&t) {
            return i;
        }
        let i = self.tys.len() as u32;
        self.tys.push(t.clone());
        self.ty_map.insert(t, i);
        i
    }
    pub fn align(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(_, e) => self.align(*e),
            Ty::Vec(n, e) => ((*n as u64) * self.bits(*e) / 8).next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|&x| self.align(x)).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => *w as u64,
            Ty::Ptr => 64,
            Ty::Float(w) => *w as u64,
            _ => self.size(t) * 8,
        }
    }
    // allocation size
    pub fn size(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align(t);
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => {
                if *w == 80 {
                    16
                } else {
                    (*w as u64) / 8
                }
            }
            Ty::Array(n, e) => n * self.size(*e),
            Ty::Vec(n, e) => ((*n as u64) * self.bits(*e) + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for &x in f {
                    if !packed {
                        let a = self.align(x);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size(x);
                }
                let a = self.align(t);
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn store_size(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(t),
        }
    }
    pub fn field_off(&self, f: &[TyId], packed: bool, i: usize) -> u64 {
        let mut o = 0u64;
        for (k, &x) in f.iter().enumerate() {
            if !packed {
                let a = self.align(x);
                o = (o + a - 1) / a * a;
            }
            if k == i {
                return o;
            }
            o += self.size(x);
        }
        o
    }

    fn parse_ty(&mut self, c: &mut Cur) -> R<TyId> {
        let t = match c.next()? {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if c.eat_id("addrspace") {
                        c.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" | "bfloat" => Ty::Float(16),
                "fp128" => Ty::Float(128),
                "x86_fp80" => Ty::Float(80),
                "label" | "metadata" | "token" | "opaque" => Ty::Other,
                s if s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(s[1..].parse().map_err(|_| "int ty")?),
                s => return Err(format!("type? {}", s)),
            },
            Tok::Loc(n) => {
                let n = n.clone();
                return self.named.get(&n).cloned().ok_or(format!("named type {}", n));
            }
            Tok::P('[') => {
                let n = self.num(c)? as u64;
                if !c.eat_id("x") {
                    return Err("x".into());
                }
                let e = self.parse_ty(c)?;
                c.want(']')?;
                Ty::Array(n, e)
            }
            Tok::P('<') => {
                if c.is_p('{') {
                    c.i += 1;
                    let f = self.fields(c)?;
                    c.want('>')?;
                    Ty::Struct(f, true)
                } else {
                    let n = self.num(c)? as u32;
                    if !c.eat_id("x") {
                        return Err("x".into());
                    }
                    let e = self.parse_ty(c)?;
                    c.want('>')?;
                    Ty::Vec(n, e)
                }
            }
            Tok::P('{') => Ty::Struct(self.fields(c)?, false),
            t => return Err(format!("type? {:?}", t)),
        };
        Ok(self.ty(t))
    }
    fn fields(&mut self, c: &mut Cur) -> R<Vec<TyId>> {
        let mut f = vec![];
        if c.eat_p('}') {
            return Ok(f);
        }
        loop {
            f.push(self.parse_ty(c)?);
            if c.eat_p('}') {
                return Ok(f);
            }
            c.want(',')?;
        }
    }
    fn num(&self, c: &mut Cur) -> R<i128> {
        match c.next()? {
            Tok::Num(s) => s.parse::<i128>().map_err(|_| format!("number {}", s)),
            t => Err(format!("number? {:?}", t)),
        }
    }
    // skip attributes in front of a type
    fn skip_to_type(&self, c: &mut Cur) {
        while let Some(t) = c.peek() {
            match t {
                Tok::Id(s) if is_type_word(s) => return,
                Tok::P('[') | Tok::P('<') | Tok::P('{') | Tok::Loc(_) => return,
                Tok::Id(s) if s == "align" => {
                    c.i += 1;
                    if c.is_p('(') {
                        c.skip_parens();
                    } else {
                        c.i += 1;
                    }
                }
                Tok::Id(_) => {
                    c.i += 1;
                    c.skip_parens();
                }
                Tok::Num(_) | Tok::Attr | Tok::Str(_) => c.i += 1,
                _ => return,
            }
        }
    }
    fn skip_to_value(&self, c: &mut Cur) {
        while let Some(t) = c.peek() {
            match t {
                Tok::Id(s) => match s.as_str() {
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "add" | "sub" | "mul" | "xor" | "shl" | "bitcast" | "asm" | "splat" | "dso_local_equivalent" | "ptrtoaddr" => return,
                    "align" => {
                        c.i += 1;
                        if c.is_p('(') {
                            c.skip_parens();
                        } else {
                            c.i += 1;
                        }
                    }
                    _ => {
                        c.i += 1;
                        c.skip_parens();
                    }
                },
                Tok::Str(_) => c.i += 1,
                _ => return,
            }
        }
    }
    fn tyval(&mut self, c: &mut Cur) -> R<(TyId, CExpr)> {
        let t = self.parse_ty(c)?;
        self.skip_to_value(c);
        let e = self.cexpr(c, t)?;
        Ok((t, e))
    }
    fn cexpr(&mut self, c: &mut Cur, ty: TyId) -> R<CExpr> {
        let w = match self.tys[ty as usize] {
            Ty::Int(w) => w,
            _ => 0,
        };
        Ok(match c.next()? {
            Tok::Num(s) => {
                if w > 0 {
                    let v: i128 = match s.parse::<i128>() {
                        Ok(v) => v,
                        Err(_) => match s.parse::<u128>() {
                            Ok(v) => v as i128,
                            Err(_) => return Err(format!("big literal {}", s)),
                        },
                    };
                    CExpr::Int((v as u128) & crate::expr::mask(w))
                } else {
                    // floating point literal: only the hexadecimal form keeps its bits
                    if let Some(h) = s.strip_prefix("0x") {
                        CExpr::Int(u64::from_str_radix(h, 16).unwrap_or(0) as u128)
                    } else {
                        CExpr::Int(s.parse::<f64>().map(|x| x.to_bits()).unwrap_or(0) as u128)
                    }
                }
            }
            Tok::Id(s) => match s.as_str() {
                "true" => CExpr::Int(1),
                "false" => CExpr::Int(0),
                "null" | "zeroinitializer" | "none" => CExpr::Zero,
                "undef" | "poison" => CExpr::Undef,
                "splat" => {
                    c.want('(')?;
                    let (et, e) = self.tyval(c)?;
                    c.want(')')?;
                    let n = match self.tys[ty as usize] {
                        Ty::Vec(n, _) => n as usize,
                        Ty::Array(n, _) => n as usize,
                        _ => return Err("splat".into()),
                    };
                    CExpr::Agg(vec![(et, e); n])
                }
                "dso_local_equivalent" => return self.cexpr(c, ty),
                "getelementptr" => {
                    while !c.is_p('(') {
                        c.i += 1;
                        if c.is_id("inrange") {
                            c.i += 1;
                            c.skip_parens();
                        }
                    }
                    c.want('(')?;
                    let st = self.parse_ty(c)?;
                    c.want(',')?;
                    let (_, b) = self.tyval(c)?;
                    let mut ix = vec![];
                    while c.eat_p(',') {
                        ix.push(self.tyval(c)?.1);
                    }
                    c.want(')')?;
                    CExpr::Gep(st, Box::new(b), ix)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    while !c.is_p('(') {
                        c.i += 1;
                    }
                    c.want('(')?;
                    let (ft, e) = self.tyval(c)?;
                    if !c.eat_id("to") {
                        return Err("to".into());
                    }
                    let tt = self.parse_ty(c)?;
                    c.want(')')?;
                    let (fw, tw) = (self.bits(ft) as u32, self.bits(tt) as u32);
                    if fw > tw {
                        CExpr::Cast(CastOp::Trunc, fw, tw, Box::new(e))
                    } else {
                        CExpr::Same(Box::new(e))
                    }
                }
                "add" | "sub" | "mul" | "xor" | "shl" => {
                    let op = match s.as_str() {
                        "add" => BinOp::Add,
                        "sub" => BinOp::Sub,
                        "mul" => BinOp::Mul,
                        "shl" => BinOp::Shl,
                        _ => BinOp::Xor,
                    };
                    while !c.is_p('(') {
                        c.i += 1;
                    }
                    c.want('(')?;
                    let (t, a) = self.tyval(c)?;
                    c.want(',')?;
                    let (_, b) = self.tyval(c)?;
                    c.want(')')?;
                    CExpr::Bin(op, self.bits(t) as u32, Box::new(a), Box::new(b))
                }
                s => return Err(format!("const {}", s)),
            },
            Tok::Glo(n) => CExpr::Sym(n.clone()),
            Tok::CStr(b) => CExpr::Bytes(b.clone()),
            Tok::P('+') => {
                let k = c.next()?.clone();
                match k {
                    Tok::Id(s) if s == "inf" => CExpr::Int(if self.bits(ty) == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 }),
                    Tok::Id(s) if s == "qnan" => CExpr::Int(if self.bits(ty) == 32 { 0x7fc0_0000 } else { 0x7ff8_0000_0000_0000 }),
                    _ => return Err("floating constant".into()),
                }
            }
            Tok::P('{') => CExpr::Agg(self.clist(c, '}')?),
            Tok::P('[') => CExpr::Agg(self.clist(c, ']')?),
            Tok::P('<') => {
                if c.eat_p('{') {
                    let l = self.clist(c, '}')?;
                    c.want('>')?;
                    CExpr::Agg(l)
                } else {
                    CExpr::Agg(self.clist(c, '>')?)
                }
            }
            t => return Err(format!("const {:?}", t)),
        })
    }
    fn clist(&mut self, c: &mut Cur, end: char) -> R<Vec<(TyId, CExpr)>> {
        let mut v = vec![];
        if c.eat_p(end) {
            return Ok(v);
        }
        loop {
            v.push(self.tyval(c)?);
            if c.eat_p(end) {
                return Ok(v);
            }
            c.want(',')?;
        }
    }
    fn opnd(&mut self, c: &mut Cur, f: &mut FnCtx, ty: TyId) -> R<Opnd> {
        match c.peek() {
            Some(Tok::Loc(n)) => {
                c.i += 1;
                Ok(Opnd(f.reg(n)))
            }
            Some(Tok::Meta) => {
                c.i += 1;
                let i = self.pool_src.len() as u32;
                self.pool_src.push((ty, CExpr::Zero));
                Ok(Opnd::cst(i))
            }
            _ => {
                let e = self.cexpr(c, ty)?;
                let i = self.pool_src.len() as u32;
                self.pool_src.push((ty, e));
                Ok(Opnd::cst(i))
            }
        }
    }
    fn tyopnd(&mut self, c: &mut Cur, f: &mut FnCtx) -> R<(TyId, Opnd)> {
        let t = self.parse_ty(c)?;
        self.skip_to_value(c);
        Ok((t, self.opnd(c, f, t)?))
    }
    fn label(&self, c: &mut Cur, f: &FnCtx) -> R<u32> {
        if !c.eat_id("label") {
            return Err("label".into());
        }
        match c.next()? {
            Tok::Loc(n) => f.labels.get(n).cloned().ok_or(format!("no label {}", n)),
            t => Err(format!("label? {:?}", t)),
        }
    }

    pub fn parse(text: &[u8]) -> R<Module> {
        let mut m = Module::new();
        let lines: Vec<&[u8]> = text.split(|&b| b == b'\n').collect();
        // pass 1: types, globals, function names
        let mut i = 0;
        let mut bodies: Vec<(u32, usize, usize, Vec<Tok>)> = vec![];
        let mut toks = vec![];
        let mut later: Vec<usize> = vec![];
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with(b"%") {
                toks.clear();
                lex(l, &mut toks);
                if let Tok::Loc(n) = &toks[0] {
                    let n = n.clone();
                    let mut c = Cur { t: &toks, i: 3 };
                    let t = m.parse_ty(&mut c).unwrap_or_else(|_| m.ty(Ty::Other));
                    m.named.insert(n, t);
                }
            } else if l.starts_with(b"@") {
                later.push(i);
            } else if l.starts_with(b"define") || l.starts_with(b"declare") {
                let def = l.starts_with(b"define");
                let mut t = vec![];
                lex(l, &mut t);
                let name = t.iter().find_map(|x| if let Tok::Glo(n) = x { Some(n.clone()) } else { None }).ok_or("fn name")?;
                let id = m.funcs.len() as u32;
                m.funcs.push(Func { name: name.clone(), nregs: 0, nparams: 0, blocks: vec![], defined: def });
                m.fmap.insert(name, id);
                if def {
                    let st = i + 1;
                    while !lines[i].starts_with(b"}") {
                        i += 1;
                    }
                    bodies.push((id, st, i, t));
                }
            }
            i += 1;
        }
        for i in later {
            toks.clear();
            lex(lines[i], &mut toks);
            m.parse_global(&toks).map_err(|e| format!("global at line {}: {}", i + 1, e))?;
        }
        for (id, st, en, t) in bodies {
            let name = m.funcs[id as usize].name.clone();
            if let Err(e) = m.parse_fn(id, &t, &lines[st..en]) {
                // only an error if it is ever called
                if std::env::var("NDX_LOG").is_ok() {
                    eprintln!("not parsed: {}: {}", name, e);
                }
                m.funcs[id as usize].defined = false;
                m.funcs[id as usize].blocks.clear();
            }
        }
        m.finish()?;
        Ok(m)
    }

    fn parse_global(&mut self, t: &[Tok]) -> R<()> {
        let name = match &t[0] {
            Tok::Glo(n) => n.clone(),
            _ => return Err("name".into()),
        };
        let mut c = Cur { t, i: 2 };
        let mut external = false;
        let mut tls = false;
        loop {
            match c.next()? {
                Tok::Id(s) => match s.as_str() {
                    "global" | "constant" => {
                        let constant = s == "constant";
                        let ty = self.parse_ty(&mut c)?;
                        let init = if external { None } else { Some(self.cexpr(&mut c, ty)?) };
                        let id = self.globals.len() as u32;
                        self.globals.push(Global { name: name.clone(), ty, init, constant, tls });
                        self.gmap.insert(name, id);
                        return Ok(());
                    }
                    "alias" | "ifunc" => {
                        self.parse_ty(&mut c)?;
                        c.want(',')?;
                        let (_, e) = self.tyval(&mut c)?;
                        self.aliases.insert(name, e);
                        return Ok(());
                    }
                    "external" | "extern_weak" => external = true,
                    "thread_local" => {
                        tls = true;
                        c.skip_parens();
                    }
                    _ => c.skip_parens(),
                },
                _ => {}
            }
        }
    }

    fn parse_fn(&mut self, id: u32, header: &[Tok], body: &[&[u8]]) -> R<()> {
        let mut f = FnCtx { regs: HashMap::new(), labels: HashMap::new(), nregs: 0 };
        // parameters
        let pos = header.iter().position(|x| matches!(x, Tok::Glo(_))).unwrap();
        let mut c = Cur { t: header, i: pos + 1 };
        c.want('(')?;
        let mut unnamed = 0;
        if !c.eat_p(')') {
            loop {
                if let Some(Tok::Dots) = c.peek() {
                    c.i += 1;
                } else {
                    self.parse_ty(&mut c)?;
                    // attributes
                    loop {
                        match c.peek() {
                            Some(Tok::Loc(n)) => {
                                f.reg(n);
                                if n.bytes().all(|b| b.is_ascii_digit()) {
                                    unnamed += 1;
                                }
                                c.i += 1;
                                break;
                            }
                            Some(Tok::P(',')) | Some(Tok::P(')')) => {
                                let n = format!("{}", unnamed);
                                unnamed += 1;
                                f.reg(&n);
                                break;
                            }
                            Some(Tok::Id(_)) => {
                                c.i += 1;
                                c.skip_parens();
                            }
                            Some(_) => c.i += 1,
                            None => return Err("params".into()),
                        }
                    }
                }
                if c.eat_p(')') {
                    break;
                }
                c.want(',')?;
            }
        }
        let nparams = f.nregs;
        // split into instructions
        let mut blocks: Vec<Vec<Vec<Tok>>> = vec![];
        for l in body {
            if l.is_empty() {
                continue;
            }
            if l[0] != b' ' {
                // label
                let end = l.iter().position(|&b| b == b';').unwrap_or(l.len());
                let s = String::from_utf8_lossy(&l[..end]);
                let s = s.trim().trim_end_matches(':');
                let s = s.trim_matches('"');
                f.labels.insert(s.to_string(), blocks.len() as u32);
                blocks.push(vec![]);
                continue;
            }
            if blocks.is_empty() {
                f.labels.insert(format!("{}", unnamed), 0);
                blocks.push(vec![]);
            }
            if l.starts_with(b"    #dbg") {
                continue;
            }
            let fresh = l.len() > 2 && l[2] != b' ' && l[2] != b']';
            if fresh {
                let mut t = vec![];
                lex(l, &mut t);
                blocks.last_mut().unwrap().push(t);
            } else {
                let t = blocks.last_mut().unwrap().last_mut().ok_or("continuation")?;
                lex(l, t);
            }
        }
        // phis first: per block list of (dst, [(pred, opnd)])
        let mut phis: Vec<Vec<(u32, Vec<(u32, Opnd)>)>> = vec![];
        let mut starts = vec![];
        for b in &blocks {
            let mut v = vec![];
            let mut k = 0;
            for t in b {
                if t.len() > 3 && t[1] == Tok::P('=') && t[2] == Tok::Id("phi".into()) {
                    let dst = match &t[0] {
                        Tok::Loc(n) => f.reg(n),
                        _ => return Err("phi".into()),
                    };
                    let mut c = Cur { t, i: 3 };
                    self.skip_to_type(&mut c);
                    let ty = self.parse_ty(&mut c)?;
                    let mut inc = vec![];
                    loop {
                        if !c.eat_p('[') {
                            break;
                        }
                        let o = self.opnd(&mut c, &mut f, ty)?;
                        c.want(',')?;
                        let l = match c.next()? {
                            Tok::Loc(n) => *f.labels.get(n).ok_or(format!("phi label {}", n))?,
                            _ => return Err("phi".into()),
                        };
                        c.want(']')?;
                        inc.push((l, o));
                        if !c.eat_p(',') {
                            break;
                        }
                    }
                    v.push((dst, inc));
                    k += 1;
                } else {
                    break;
                }
            }
            phis.push(v);
            starts.push(k);
        }
        let mut out = vec![];
        for (bi, b) in blocks.iter().enumerate() {
            let mut ins = vec![];
            for t in &b[starts[bi]..] {
                let r = self.parse_ins(t, &mut f, bi as u32, &phis);
                match r {
                    Ok(i) => ins.push(i),
                    Err(e) => ins.push(Ins::Unsupported(format!("{}: {:?}", e, &t[..t.len().min(12)]))),
                }
            }
            out.push(Block { ins });
        }
        let fu = &mut self.funcs[id as usize];
        fu.nregs = f.nregs;
        fu.nparams = nparams;
        fu.blocks = out;
        Ok(())
    }

    fn vec_of(&self, t: TyId) -> (u32, TyId) {
        match self.tys[t as usize] {
            Ty::Vec(n, e) => (n, e),
            _ => (0, t),
        }
    }
    fn int_w(&self, t: TyId) -> R<u32> {
        match self.tys[t as usize] {
            Ty::Int(w) => Ok(w),
            Ty::Ptr => Ok(64),
            _ => Err("not an integer".into()),
        }
    }

    fn parse_ins(&mut self, t: &[Tok], f: &mut FnCtx, bi: u32, phis: &[Vec<(u32, Vec<(u32, Opnd)>)>]) -> R<Ins> {
        let mut c = Cur { t, i: 0 };
        let mut dst = u32::MAX;
        if t.len() > 1 && t[1] == Tok::P('=') {
            if let Tok::Loc(n) = &t[0] {
                dst = f.reg(n);
            }
            c.i = 2;
        }
        let target = |b: u32| -> R<Target> {
            let mut moves = vec![];
            for (d, inc) in &phis[b as usize] {
                let o = inc.iter().find(|(p, _)| *p == bi).ok_or("phi without edge")?;
                moves.push((*d, o.1));
            }
            Ok(Target { block: b, moves: moves.into() })
        };
        let op = c.id()?.to_string();
        let bin = match op.as_str() {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            _ => None,
        };
        if let Some(op) = bin {
            self.skip_to_type(&mut c);
            let ty = self.parse_ty(&mut c)?;
            let a = self.opnd(&mut c, f, ty)?;
            c.want(',')?;
            let b = self.opnd(&mut c, f, ty)?;
            let (n, e) = self.vec_of(ty);
            let w = self.int_w(e)?;
            return Ok(Ins::Bin { op, dst, w, n, a, b });
        }
        match op.as_str() {
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                self.skip_to_type(&mut c);
                let (ft, a) = self.tyopnd(&mut c, f)?;
                if !c.eat_id("to") {
                    return Err("to".into());
                }
                let tt = self.parse_ty(&mut c)?;
                let (n, fe) = self.vec_of(ft);
                let (_, te) = self.vec_of(tt);
                let (fw, tw) = (self.int_w(fe)?, self.int_w(te)?);
                let k = match op.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    _ => {
                        if fw == tw {
                            return Ok(Ins::Mov { dst, a });
                        }
                        if fw > tw {
                            CastOp::Trunc
                        } else {
                            CastOp::ZExt
                        }
                    }
                };
                Ok(Ins::Cast { op: k, dst, fw, tw, n, a })
            }
            "bitcast" => {
                let (ft, a) = self.tyopnd(&mut c, f)?;
                if !c.eat_id("to") {
                    return Err("to".into());
                }
                let tt = self.parse_ty(&mut c)?;
                Ok(Ins::Bitcast { dst, fty: ft, tty: tt, a })
            }
            "freeze" => {
                let (ty, a) = self.tyopnd(&mut c, f)?;
                Ok(Ins::Freeze { dst, a, ty })
            }
            "icmp" => {
                while c.is_id("samesign") {
                    c.i += 1;
                }
                let p = match c.id()? {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => return Err(format!("pred {}", x)),
                };
                let ty = self.parse_ty(&mut c)?;
                let a = self.opnd(&mut c, f, ty)?;
                c.want(',')?;
                let b = self.opnd(&mut c, f, ty)?;
                let (n, e) = self.vec_of(ty);
                let w = self.int_w(e)?;
                Ok(Ins::Icmp { pred: p, dst, w, n, a, b })
            }
            "select" => {
                self.skip_to_type(&mut c);
                let (ct, cc) = self.tyopnd(&mut c, f)?;
                c.want(',')?;
                let (ty, a) = self.tyopnd(&mut c, f)?;
                c.want(',')?;
                let (_, b) = self.tyopnd(&mut c, f)?;
                let (n, _) = self.vec_of(ct);
                Ok(Ins::Select { dst, ty, n, c: cc, a, b })
            }
            "getelementptr" => {
                while let Some(Tok::Id(s)) = c.peek() {
                    if is_type_word(s) {
                        break;
                    }
                    c.i += 1;
                    c.skip_parens();
                }
                let st = self.parse_ty(&mut c)?;
                c.want(',')?;
                let (_, base) = self.tyopnd(&mut c, f)?;
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = st;
                let mut first = true;
                while c.eat_p(',') {
                    if let Some(Tok::Meta) = c.peek() {
                        break;
                    }
                    let it = self.parse_ty(&mut c)?;
                    let iw = self.int_w(it)?;
                    let o = self.opnd(&mut c, f, it)?;
                    let cv: Option<i64> = if o.0 & 0x8000_0000 != 0 {
                        match &self.pool_src[(o.0 & 0x7fff_ffff) as usize].1 {
                            CExpr::Int(v) => Some(crate::expr::sx(*v, iw) as i64),
                            CExpr::Zero => Some(0),
                            _ => None,
                        }
                    } else {
                        None
                    };
                    let scale;
                    if first {
                        scale = self.size(cur) as i64;
                        first = false;
                    } else {
                        match self.tys[cur as usize].clone() {
                            Ty::Array(_, e) | Ty::Vec(_, e) => {
                                scale = self.size(e) as i64;
                                cur = e;
                            }
                            Ty::Struct(fs, packed) => {
                                let k = cv.ok_or("gep struct")? as usize;
                                off += self.field_off(&fs, packed, k) as i64;
                                cur = fs[k];
                                continue;
                            }
                            _ => return Err("gep".into()),
                        }
                    }
                    match cv {
                        Some(v) => off = off.wrapping_add(v.wrapping_mul(scale)),
                        None => terms.push((o, iw, scale)),
                    }
                }
                Ok(Ins::Gep { dst, base, off, terms: terms.into() })
            }
            "load" => {
                while c.eat_id("volatile") || c.eat_id("atomic") {}
                let ty = self.parse_ty(&mut c)?;
                c.want(',')?;
                let (_, p) = self.tyopnd(&mut c, f)?;
                Ok(Ins::Load { dst, ty, p })
            }
            "store" => {
                while c.eat_id("volatile") || c.eat_id("atomic") {}
                let (ty, v) = self.tyopnd(&mut c, f)?;
                c.want(',')?;
                let (_, p) = self.tyopnd(&mut c, f)?;
                Ok(Ins::Store { ty, v, p })
            }
            "alloca" => {
                c.eat_id("inalloca");
                let ty = self.parse_ty(&mut c)?;
                let size = self.size(ty);
                let mut count = None;
                if c.eat_p(',') && !c.is_id("align") && !matches!(c.peek(), Some(Tok::Meta)) && !c.is_id("addrspace") {
                    count = Some(self.tyopnd(&mut c, f)?.1);
                }
                Ok(Ins::Alloca { dst, size, count })
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    c.id()?;
                }
                self.skip_to_type(&mut c);
                let mut rty = self.parse_ty(&mut c)?;
                // function type: RET (ARGS...)
                if c.is_p('(') {
                    c.skip_parens();
                }
                let _ = &mut rty;
                let callee = match c.next()? {
                    Tok::Glo(n) => {
                        if n.starts_with("llvm.") {
                            Callee::Intr(n.clone())
                        } else if let Some(&fi) = self.fmap.get(n) {
                            if self.funcs[fi as usize].defined {
                                Callee::Func(fi)
                            } else {
                                Callee::Ext(n.clone())
                            }
                        } else if let Some(CExpr::Sym(s)) = self.aliases.get(n) {
                            match self.fmap.get(s) {
                                Some(&fi) => Callee::Func(fi),
                                None => return Err(format!("alias callee {}", n)),
                            }
                        } else {
                            return Err(format!("callee {}", n));
                        }
                    }
                    Tok::Loc(n) => Callee::Ind(Opnd(f.reg(n))),
                    Tok::Id(s) if s == "asm" => {
                        let mut txt = String::new();
                        loop {
                            match c.next()? {
                                Tok::Str(s) => {
                                    txt = String::from_utf8_lossy(s).into_owned();
                                    c.want(',')?;
                                    if let Tok::Str(k) = c.next()? {
                                        txt.push('|');
                                        txt.push_str(&String::from_utf8_lossy(k));
                                    }
                                    break;
                                }
                                _ => {}
                            }
                        }
                        Callee::Asm(txt)
                    }
                    x => return Err(format!("callee {:?}", x)),
                };
                c.want('(')?;
                let mut args = vec![];
                let mut atys = vec![];
                if !c.eat_p(')') {
                    loop {
                        let (ty, o) = self.tyopnd(&mut c, f)?;
                        args.push(o);
                        atys.push(ty);
                        if c.eat_p(')') {
                            break;
                        }
                        c.want(',')?;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    while !c.is_id("to") {
                        c.next()?;
                    }
                    c.i += 1;
                    let l = self.label(&mut c, f)?;
                    normal = Some(target(l)?);
                }
                Ok(Ins::Call(Box::new(CallIns { dst, rty, callee, args, atys, normal, ext_id: u32::MAX })))
            }
            "extractvalue" => {
                let (_, a) = self.tyopnd(&mut c, f)?;
                let mut path = vec![];
                while c.eat_p(',') {
                    if let Some(Tok::Num(_)) = c.peek() {
                        path.push(self.num(&mut c)? as u32);
                    } else {
                        break;
                    }
                }
                Ok(Ins::ExtractValue { dst, a, path: path.into() })
            }
            "insertvalue" => {
                let (ty, a) = self.tyopnd(&mut c, f)?;
                c.want(',')?;
                let (_, v) = self.tyopnd(&mut c, f)?;
                let mut path = vec![];
                while c.eat_p(',') {
                    if let Some(Tok::Num(_)) = c.peek() {
                        path.push(self.num(&mut c)? as u32);
                    } else {
                        break;
                    }
                }
                Ok(Ins::InsertValue { dst, ty, a, v, path: path.into() })
            }
            "extractelement" => {
                let (_, a) = self.tyopnd(&mut c, f)?;
                c.want(',')?;
                let (_, i) = self.tyopnd(&mut c, f)?;
                Ok(Ins::ExtractElement { dst, a, i })
            }
            "insertelement" => {
                let (t, a) = self.tyopnd(&mut c, f)?;
                c.want(',')?;
                let (_, v) = self.tyopnd(&mut c, f)?;
                c.want(',')?;
                let (_, i) = self.tyopnd(&mut c, f)?;
                Ok(Ins::InsertElement { dst, n: self.vec_of(t).0, a, v, i })
            }
            "shufflevector" => {
                let (t, a) = self.tyopnd(&mut c, f)?;
                c.want(',')?;
                let (_, b) = self.tyopnd(&mut c, f)?;
                c.want(',')?;
                let (mt, e) = self.tyval(&mut c)?;
                let n = self.vec_of(mt).0 as usize;
                let mask: Vec<i32> = match e {
                    CExpr::Zero => vec![0; n],
                    CExpr::Undef => vec![-1; n],
                    CExpr::Agg(v) => v
                        .iter()
                        .map(|x| match &x.1 {
                            CExpr::Int(v) => *v as i32,
                            CExpr::Zero => 0,
                            _ => -1,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                Ok(Ins::Shuffle { dst, n: self.vec_of(t).0, a, b, mask: mask.into() })
            }
            "atomicrmw" => {
                c.eat_id("volatile");
                let o = c.id()?.to_string();
                let (_, p) = self.tyopnd(&mut c, f)?;
                c.want(',')?;
                let (ty, v) = self.tyopnd(&mut c, f)?;
                let k = match o.as_str() {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    "max" => 6,
                    "min" => 7,
                    "umax" => 8,
                    "umin" => 9,
                    "nand" => 10,
                    _ => return Err(format!("atomicrmw {}", o)),
                };
                Ok(Ins::AtomicRmw { op: k, dst, w: self.int_w(ty)?, p, v })
            }
            "cmpxchg" => {
                while c.eat_id("weak") || c.eat_id("volatile") {}
                let (_, p) = self.tyopnd(&mut c, f)?;
                c.want(',')?;
                let (ty, cc) = self.tyopnd(&mut c, f)?;
                c.want(',')?;
                let (_, v) = self.tyopnd(&mut c, f)?;
                Ok(Ins::CmpXchg { dst, w: self.int_w(ty)?, p, c: cc, v })
            }
            "fence" => Ok(Ins::Nop),
            "br" => {
                if c.is_id("label") {
                    let l = self.label(&mut c, f)?;
                    return Ok(Ins::Br(target(l)?));
                }
                let (_, cc) = self.tyopnd(&mut c, f)?;
                c.want(',')?;
                let a = self.label(&mut c, f)?;
                c.want(',')?;
                let b = self.label(&mut c, f)?;
                Ok(Ins::CondBr { c: cc, t: target(a)?, f: target(b)? })
            }
            "switch" => {
                let (ty, v) = self.tyopnd(&mut c, f)?;
                c.want(',')?;
                let d = self.label(&mut c, f)?;
                c.want('[')?;
                let mut cases = vec![];
                while !c.eat_p(']') {
                    let (_, e) = self.tyval(&mut c)?;
                    c.want(',')?;
                    let l = self.label(&mut c, f)?;
                    let k = match e {
                        CExpr::Int(v) => v as u64,
                        CExpr::Zero => 0,
                        _ => return Err("case".into()),
                    };
                    cases.push((k, target(l)?));
                }
                Ok(Ins::Switch { v, w: self.int_w(ty)?, def: target(d)?, cases })
            }
            "ret" => {
                let ty = self.parse_ty(&mut c)?;
                if self.tys[ty as usize] == Ty::Void {
                    return Ok(Ins::Ret(None));
                }
                Ok(Ins::Ret(Some(self.opnd(&mut c, f, ty)?)))
            }
            "unreachable" => Ok(Ins::Unreachable),
            "landingpad" | "resume" => Ok(Ins::Unsupported("unwinding".into())),
            _ => Err(format!("opcode {}", op)),
        }
    }

    pub fn sym_addr(&self, n: &str) -> R<u64> {
        if let Some(&g) = self.gmap.get(n) {
            return Ok(obj_addr(g + 1));
        }
        if let Some(&f) = self.fmap.get(n) {
            return Ok(FN_BASE + (f as u64) * 16);
        }
        if let Some(e) = self.aliases.get(n) {
            if let CExpr::Sym(s) = e {
                return self.sym_addr(s);
            }
        }
        Err(format!("symbol {}", n))
    }
    pub fn scalar(&self, e: &CExpr) -> R<Option<u128>> {
        Ok(Some(match e {
            CExpr::Int(v) => *v,
            CExpr::Zero => 0,
            CExpr::Undef => return Ok(None),
            CExpr::Sym(n) => self.sym_addr(n)? as u128,
            CExpr::Same(e) => return self.scalar(e),
            CExpr::Cast(_, _, tw, e) => match self.scalar(e)? {
                Some(v) => v & crate::expr::mask(*tw),
                None => return Ok(None),
            },
            CExpr::Bin(op, w, a, b) => {
                let (a, b) = match (self.scalar(a)?, self.scalar(b)?) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return Ok(None),
                };
                (match op {
                    BinOp::Add => a.wrapping_add(b),
                    BinOp::Sub => a.wrapping_sub(b),
                    BinOp::Mul => a.wrapping_mul(b),
                    BinOp::Xor => a ^ b,
                    BinOp::Shl => a << b,
                    _ => return Err("const op".into()),
                }) & crate::expr::mask(*w)
            }
            CExpr::Gep(st, b, ix) => {
                let mut a = self.scalar(b)?.unwrap_or(0) as u64;
                let mut cur = *st;
                for (k, i) in ix.iter().enumerate() {
                    let v = self.scalar(i)?.unwrap_or(0) as u64; // i64 or i32 index
                    if k == 0 {
                        a = a.wrapping_add(v.wrapping_mul(self.size(cur)));
                    } else {
                        match &self.tys[cur as usize] {
                            Ty::Array(_, e) | Ty::Vec(_, e) => {
                                a = a.wrapping_add(v.wrapping_mul(self.size(*e)));
                                cur = *e;
                            }
                            Ty::Struct(fs, p) => {
                                a += self.field_off(fs, *p, v as usize);
                                cur = fs[v as usize];
                            }
                            _ => return Err("gep".into()),
                        }
                    }
                }
                a as u128
            }
            _ => return Err("scalar const".into()),
        }))
    }
    pub fn mk_val(&self, w: u32, v: u128) -> Val {
        if w <= 64 {
            Val::C(v as u64)
        } else {
            Val::W(Arc::new(v))
        }
    }
    pub fn const_val(&self, ty: TyId, e: &CExpr) -> R<Val> {
        match &self.tys[ty as usize] {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => Ok(match self.scalar(e)? {
                Some(v) => self.mk_val(self.bits(ty) as u32, v),
                None => Val::U,
            }),
            Ty::Array(n, et) => self.const_list(e, &vec![*et; *n as usize]),
            Ty::Vec(n, et) => self.const_list(e, &vec![*et; *n as usize]),
            Ty::Struct(fs, _) => self.const_list(e, fs),
            _ => Ok(Val::U),
        }
    }
    fn const_list(&self, e: &CExpr, tys: &[TyId]) -> R<Val> {
        let v: R<Vec<Val>> = match e {
            CExpr::Zero => tys.iter().map(|&t| self.const_val(t, &CExpr::Zero)).collect(),
            CExpr::Undef => tys.iter().map(|&t| self.const_val(t, &CExpr::Undef)).collect(),
            CExpr::Bytes(b) => Ok(b.iter().map(|&x| Val::C(x as u64)).collect()),
            CExpr::Agg(l) => l.iter().map(|(t, e)| self.const_val(*t, e)).collect(),
            _ => Err("aggregate const".into()),
        };
        Ok(Val::A(v?.into()))
    }
    fn finish(&mut self) -> R<()> {
        let mut pool = Vec::with_capacity(self.pool_src.len());
        for (t, e) in &self.pool_src {
            pool.push(self.const_val(*t, e).unwrap_or(Val::U));
        }
        self.pool = pool;
        Ok(())
    }
    // bytes of a global's initialiser; None = uninitialised
    pub fn init_bytes(&self, ty: TyId, e: &CExpr, out: &mut Vec<Option<u8>>, at: usize) -> R<()> {
        match (&self.tys[ty as usize], e) {
            (_, CExpr::Zero) => {
                for i in 0..self.size(ty) as usize {
                    out[at + i] = Some(0);
                }
            }
            (_, CExpr::Undef) => {}
            (_, CExpr::Bytes(b)) => {
                for (i, &x) in b.iter().enumerate() {
                    out[at + i] = Some(x);
                }
            }
            (Ty::Array(_, et), CExpr::Agg(l)) | (Ty::Vec(_, et), CExpr::Agg(l)) => {
                let s = self.size(*et) as usize;
                for (i, (t, x)) in l.iter().enumerate() {
                    self.init_bytes(*t, x, out, at + i * s)?;
                }
            }
            (Ty::Struct(fs, p), CExpr::Agg(l)) => {
                for (i, (t, x)) in l.iter().enumerate() {
                    let o = self.field_off(fs, *p, i) as usize;
                    self.init_bytes(*t, x, out, at + o)?;
                }
            }
            _ => {
                if let Some(v) = self.scalar(e)? {
                    for i in 0..self.store_size(ty) as usize {
                        out[at + i] = Some((v >> (8 * i)) as u8);
                    }
                }
            }
        }
        Ok(())
    }
}
