// Persistent byte-granular memory: every object is its own address range (object index in the
// high half of the address), so any out-of-bounds or stale access leaves the object and is seen.
use crate::ir::BASE;
use std::rc::Rc;

pub const UNINIT: u32 = 1;
const CH: usize = 32;
pub const STACK0: u32 = 0x1000_0000;
pub const STACK_PER: u32 = 0x10_0000;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub conc: Vec<u8>,
    pub sym: Vec<u32>, // empty = all concrete; 0 concrete, 1 uninit, else 8-bit expression
    pub ro: bool,
}
impl Obj {
    pub fn uninit(size: u64) -> Obj {
        Obj { size, conc: vec![0; size as usize], sym: vec![UNINIT; size as usize], ro: false }
    }
    pub fn zero(size: u64) -> Obj {
        Obj { size, conc: vec![0; size as usize], sym: vec![], ro: false }
    }
    #[inline]
    pub fn get(&self, i: usize) -> (u8, u32) {
        (self.conc[i], if self.sym.is_empty() { 0 } else { self.sym[i] })
    }
    #[inline]
    pub fn set(&mut self, i: usize, b: u8, s: u32) {
        self.conc[i] = b;
        if s != 0 && self.sym.is_empty() {
            self.sym = vec![0; self.size as usize];
        }
        if !self.sym.is_empty() {
            self.sym[i] = s;
        }
    }
    #[inline]
    pub fn all_conc(&self, o: usize, n: usize) -> bool {
        self.sym.is_empty() || self.sym[o..o + n].iter().all(|&x| x == 0)
    }
    pub fn set_conc(&mut self, o: usize, b: &[u8]) {
        self.conc[o..o + b.len()].copy_from_slice(b);
        if !self.sym.is_empty() {
            self.sym[o..o + b.len()].iter_mut().for_each(|x| *x = 0);
        }
    }
    pub fn resize(&mut self, n: u64) {
        if !self.sym.is_empty() {
            self.sym.resize(n as usize, 0);
        }
        self.conc.resize(n as usize, 0);
        self.size = n;
    }
}

type Chunk = Vec<Option<Rc<Obj>>>;
#[derive(Clone, Default)]
pub struct Table(Vec<Rc<Chunk>>);
impl Table {
    #[inline]
    fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        self.0.get(i / CH)?.get(i % CH)?.as_ref()
    }
    fn get_mut(&mut self, i: usize) -> Option<&mut Rc<Obj>> {
        Rc::make_mut(self.0.get_mut(i / CH)?).get_mut(i % CH)?.as_mut()
    }
    fn set(&mut self, i: usize, o: Option<Rc<Obj>>) {
        while self.0.len() <= i / CH {
            self.0.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.0[i / CH])[i % CH] = o;
    }
}

#[derive(Clone)]
pub struct Mem {
    heap: Table,
    pub nheap: u32,
    stacks: Vec<(Table, u32)>,
    pub bytes: u64,
}

impl Mem {
    pub fn new() -> Self {
        Mem { heap: Default::default(), nheap: 1, stacks: vec![(Default::default(), 0)], bytes: 0 }
    }
    pub fn add_thread(&mut self) -> usize {
        self.stacks.push((Default::default(), 0));
        self.stacks.len() - 1
    }
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let i = self.nheap;
        self.nheap += 1;
        self.bytes += o.size;
        self.heap.set(i as usize, Some(Rc::new(o)));
        crate::ir::obj_addr(i)
    }
    pub fn free(&mut self, addr: u64) -> bool {
        let i = (addr >> 32) as u32;
        if i >= STACK0 || addr as u32 as u64 != BASE || self.heap.get(i as usize).is_none() {
            return false;
        }
        self.bytes -= self.heap.get(i as usize).unwrap().size;
        self.heap.set(i as usize, None);
        true
    }
    pub fn push_stack(&mut self, t: usize, size: u64) -> u64 {
        let (tb, sp) = &mut self.stacks[t];
        let i = *sp;
        *sp += 1;
        tb.set(i as usize, Some(Rc::new(Obj::uninit(size))));
        crate::ir::obj_addr(STACK0 + t as u32 * STACK_PER + i)
    }
    pub fn stack_top(&self, t: usize) -> u32 {
        self.stacks[t].1
    }
    pub fn pop_stack(&mut self, t: usize, to: u32) {
        let (tb, sp) = &mut self.stacks[t];
        while *sp > to {
            *sp -= 1;
            tb.set(*sp as usize, None);
        }
    }
    #[inline]
    pub fn obj(&self, idx: u32) -> Option<&Rc<Obj>> {
        if idx < STACK0 {
            self.heap.get(idx as usize)
        } else {
            let k = idx - STACK0;
            self.stacks.get((k / STACK_PER) as usize)?.0.get((k % STACK_PER) as usize)
        }
    }
    #[inline]
    pub fn obj_mut(&mut self, idx: u32) -> Option<&mut Obj> {
        let r = if idx < STACK0 {
            self.heap.get_mut(idx as usize)
        } else {
            let k = idx - STACK0;
            self.stacks.get_mut((k / STACK_PER) as usize)?.0.get_mut((k % STACK_PER) as usize)
        }?;
        Some(Rc::make_mut(r))
    }
    // object and offset for an access of n bytes
    #[inline]
    pub fn find(&self, addr: u64, n: u64) -> Option<(u32, usize)> {
        let idx = (addr >> 32) as u32;
        let off = (addr as u32 as u64).wrapping_sub(BASE);
        let o = self.obj(idx)?;
        if off <= o.size && n <= o.size - off {
            Some((idx, off as usize))
        } else {
            None
        }
    }
    pub fn bytes_at(&self, addr: u64, n: u64) -> Option<Vec<u8>> {
        let (i, o) = self.find(addr, n)?;
        let ob = self.obj(i)?;
        if !ob.all_conc(o, n as usize) {
            return None;
        }
        Some(ob.conc[o..o + n as usize].to_vec())
    }
    pub fn cstr(&self, addr: u64) -> Option<Vec<u8>> {
        let (i, o) = self.find(addr, 1)?;
        let ob = self.obj(i)?;
        let e = ob.conc[o..].iter().position(|&b| b == 0)?;
        if !ob.all_conc(o, e + 1) {
            return None;
        }
        Some(ob.conc[o..o + e].to_vec())
    }
}
