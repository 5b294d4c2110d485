//! Byte-level object memory, copy-on-write, one address stride per object (addresses are never reused).
use crate::exec::B;
use crate::ir::STRIDE;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Global(bool), Stack, Heap(u64) }

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub kind: Kind,
    pub data: Vec<u8>,
    pub tag: Vec<u8>, // 0 = uninitialised, 1 = concrete, 2 = symbolic
    pub sym: BTreeMap<u32, u32>,
}

#[derive(Clone)]
pub enum Slot { Empty, Live(Rc<Obj>), Freed(Kind) }
const CH: usize = 32;
#[derive(Clone)]
pub struct Mem { chunks: Vec<Rc<Vec<Slot>>>, pub next: u64, pub heap_live: u64 }

pub fn obj_base(id: u64, align: u64) -> u64 { ((id + 1) << STRIDE) + 0x1000 + align.max(1) }

impl Mem {
    pub fn new() -> Self { Mem { chunks: vec![], next: 0, heap_live: 0 } }
    fn slot(&self, id: u64) -> &Slot {
        const E: Slot = Slot::Empty;
        match self.chunks.get(id as usize / CH) { Some(c) => &c[id as usize % CH], None => { static_empty(); &E } }
    }
    fn slot_mut(&mut self, id: u64) -> &mut Slot {
        let c = id as usize / CH;
        while self.chunks.len() <= c { self.chunks.push(Rc::new(vec![Slot::Empty; CH])); }
        &mut Rc::make_mut(&mut self.chunks[c])[id as usize % CH]
    }
    pub fn alloc(&mut self, size: u64, align: u64, kind: Kind) -> u64 {
        let id = self.next;
        self.next += 1;
        let base = obj_base(id, align);
        if let Kind::Heap(_) = kind { self.heap_live += 1; }
        *self.slot_mut(id) = Slot::Live(Rc::new(Obj { base, size, kind, data: vec![0; size as usize], tag: vec![0; size as usize], sym: BTreeMap::new() }));
        base
    }
    fn id_of(addr: u64) -> Option<u64> { let k = addr >> STRIDE; if k == 0 { None } else { Some(k - 1) } }
    pub fn free_id(&mut self, base: u64) {
        if let Some(id) = Self::id_of(base) {
            let s = self.slot_mut(id);
            if let Slot::Live(o) = s {
                let k = o.kind;
                *s = Slot::Freed(k);
                if let Kind::Heap(_) = k { self.heap_live -= 1; }
            }
        }
    }
    /// object containing [addr, addr+n)
    pub fn find(&self, addr: u64, n: u64, what: &str) -> Result<(&Rc<Obj>, usize), String> {
        if addr < 0x1000 { return Err(format!("{} of {} bytes through near-null pointer {:#x}", what, n, addr)); }
        match Self::id_of(addr).map(|i| self.slot(i)) {
            Some(Slot::Live(o)) => {
                if addr < o.base || addr + n > o.base + o.size {
                    Err(format!("out-of-bounds {} of {} bytes at offset {} of a {:?} object of {} bytes", what, n, addr as i64 - o.base as i64, o.kind, o.size))
                } else { Ok((o, (addr - o.base) as usize)) }
            }
            Some(Slot::Freed(k)) => Err(format!("{} of {} bytes in a freed {:?} object (dangling pointer)", what, n, k)),
            _ => Err(format!("{} of {} bytes through wild pointer {:#x}", what, n, addr)),
        }
    }
    pub fn find_mut(&mut self, addr: u64, n: u64) -> Result<(&mut Obj, usize), String> {
        self.find(addr, n, "write")?;
        let id = Self::id_of(addr).unwrap();
        match self.slot_mut(id) {
            Slot::Live(o) => {
                if o.kind == Kind::Global(true) { return Err("write to constant memory".into()); }
                let o = Rc::make_mut(o);
                let off = (addr - o.base) as usize;
                Ok((o, off))
            }
            _ => unreachable!(),
        }
    }
    pub fn init_mut(&mut self, addr: u64) -> Option<(&mut Obj, usize)> {
        let id = Self::id_of(addr)?;
        match self.slot_mut(id) { Slot::Live(o) => { let o = Rc::make_mut(o); let off = (addr - o.base) as usize; Some((o, off)) } _ => None }
    }
    pub fn put_live(&mut self, id: u64, o: Obj) { *self.slot_mut(id) = Slot::Live(Rc::new(o)); if self.next <= id { self.next = id + 1; } }
    pub fn heap_leaks(&self) -> Vec<(u64, u64)> {
        let mut v = vec![];
        for c in &self.chunks { for s in c.iter() { if let Slot::Live(o) = s { if let Kind::Heap(_) = o.kind { v.push((o.base, o.size)); } } } }
        v
    }
    pub fn heap_obj(&self, addr: u64) -> Result<(u64, u64), String> {
        match Self::id_of(addr).map(|i| self.slot(i)) {
            Some(Slot::Live(o)) => match o.kind {
                Kind::Heap(a) if o.base == addr => Ok((o.size, a)),
                k => Err(format!("deallocation of a pointer that is not the start of a heap block ({:?})", k)),
            },
            Some(Slot::Freed(_)) => Err("double free".into()),
            _ => Err("deallocation of a wild pointer".into()),
        }
    }
}
fn static_empty() {}

impl Obj {
    pub fn get(&self, off: usize) -> B {
        match self.tag[off] { 0 => B::U, 1 => B::C(self.data[off]), _ => B::S(self.sym[&(off as u32)]) }
    }
    pub fn put(&mut self, off: usize, b: B) {
        if self.tag[off] == 2 { self.sym.remove(&(off as u32)); }
        match b {
            B::U => self.tag[off] = 0,
            B::C(v) => { self.tag[off] = 1; self.data[off] = v; }
            B::S(t) => { self.tag[off] = 2; self.sym.insert(off as u32, t); }
        }
    }
}
