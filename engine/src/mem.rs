//! Copy-on-write memory of byte objects with per-byte symbolic overlay.
use crate::expr::E;
use std::rc::Rc;

pub const SHIFT: u32 = 24;
const CH: usize = 64;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>, // 0 = concrete
    pub ro: bool,
}
#[derive(Clone, Default)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    free: Rc<Vec<u32>>,
    next: u32,
}
impl Mem {
    pub fn alloc(&mut self, o: Rc<Obj>) -> u64 {
        let slot = if self.free.is_empty() { let s = self.next; self.next += 1; s } else { Rc::make_mut(&mut self.free).pop().unwrap() };
        let (c, i) = (slot as usize / CH, slot as usize % CH);
        while self.chunks.len() <= c { self.chunks.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut self.chunks[c])[i] = Some(o);
        (slot as u64 + 1) << SHIFT
    }
    pub fn alloc_new(&mut self, size: u64) -> u64 {
        self.alloc(Rc::new(Obj { data: vec![0; size as usize], sym: None, ro: false }))
    }
    pub fn dealloc(&mut self, addr: u64) -> bool {
        let slot = (addr >> SHIFT) as u32;
        if slot == 0 || addr & ((1 << SHIFT) - 1) != 0 { return false; }
        let slot = slot - 1;
        let (c, i) = (slot as usize / CH, slot as usize % CH);
        if c >= self.chunks.len() || self.chunks[c][i].is_none() { return false; }
        Rc::make_mut(&mut self.chunks[c])[i] = None;
        Rc::make_mut(&mut self.free).push(slot);
        true
    }
    pub fn get(&self, addr: u64) -> Option<(&Obj, usize)> {
        let slot = addr >> SHIFT;
        if slot == 0 { return None; }
        let slot = slot as usize - 1;
        let (c, i) = (slot / CH, slot % CH);
        let o = self.chunks.get(c)?[i].as_ref()?;
        Some((o, (addr & ((1 << SHIFT) - 1)) as usize))
    }
    pub fn get_mut(&mut self, addr: u64) -> Option<(&mut Obj, usize)> {
        let slot = addr >> SHIFT;
        if slot == 0 { return None; }
        let slot = slot as usize - 1;
        let (c, i) = (slot / CH, slot % CH);
        if self.chunks.get(c)?[i].is_none() { return None; }
        let ch = Rc::make_mut(self.chunks.get_mut(c)?);
        let o = Rc::make_mut(ch[i].as_mut().unwrap());
        Some((o, (addr & ((1 << SHIFT) - 1)) as usize))
    }
}
