// Copy-on-write object memory. Address = (object id << 24) | offset.
use crate::expr::E;
use std::rc::Rc;

pub const SH: u32 = 24;
const CH: usize = 64;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<u32>, // empty or per byte: 0 concrete, else expression id + 1
    pub ro: bool,
    pub heap: bool,
}
impl Obj {
    pub fn concrete(&self, off: usize, n: usize) -> bool {
        self.sym.is_empty() || self.sym[off..off + n].iter().all(|x| *x == 0)
    }
}

type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    pub next: u64,
    pub live_bytes: u64,
}

impl Mem {
    pub fn new(first: u64) -> Mem {
        Mem { chunks: vec![], next: first, live_bytes: 0 }
    }
    fn ensure(&mut self, id: u64) {
        let c = id as usize / CH;
        while self.chunks.len() <= c { self.chunks.push(Rc::new(std::array::from_fn(|_| None))); }
    }
    pub fn put(&mut self, id: u64, o: Obj) {
        self.ensure(id);
        Rc::make_mut(&mut self.chunks[id as usize / CH])[id as usize % CH] = Some(Rc::new(o));
    }
    pub fn alloc(&mut self, size: u64, heap: bool) -> u64 {
        let id = self.next;
        self.next += 1;
        self.live_bytes += size;
        self.put(id, Obj { data: vec![0; size as usize], sym: vec![], ro: false, heap });
        id << SH
    }
    pub fn free(&mut self, addr: u64) -> bool {
        let id = addr >> SH;
        if (id as usize / CH) >= self.chunks.len() { return false; }
        let c = Rc::make_mut(&mut self.chunks[id as usize / CH]);
        match c[id as usize % CH].take() {
            Some(o) => { self.live_bytes -= (o.data.len() as u64).min(self.live_bytes); true }
            None => false,
        }
    }
    #[inline]
    pub fn get(&self, addr: u64) -> Option<&Rc<Obj>> {
        let id = (addr >> SH) as usize;
        self.chunks.get(id / CH)?[id % CH].as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, addr: u64) -> Option<&mut Obj> {
        let id = (addr >> SH) as usize;
        let c = self.chunks.get_mut(id / CH)?;
        let c = Rc::make_mut(c);
        Some(Rc::make_mut(c[id % CH].as_mut()?))
    }
    #[allow(dead_code)]
    pub fn sym_byte(e: E) -> u32 { e + 1 }
}
