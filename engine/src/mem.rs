//! Byte-granular memory: objects at fixed addresses, copy-on-write per state.
use crate::expr::E;
use std::rc::Rc;

pub const NOSYM: E = u32::MAX;

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    Global,
    Const,
    Stack,
    Heap,
    Extern,
}
#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Option<Vec<(E, u8)>>,
    pub kind: Kind,
}
impl Obj {
    pub fn new(size: u64, kind: Kind) -> Obj {
        Obj { size, data: vec![0; size as usize], sym: None, kind }
    }
    #[inline]
    pub fn has_sym(&self, o: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(s) => s[o..o + n].iter().any(|x| x.0 != NOSYM),
        }
    }
    pub fn set_sym(&mut self, o: usize, e: E, k: u8) {
        let n = self.size as usize;
        let s = self.sym.get_or_insert_with(|| vec![(NOSYM, 0); n]);
        s[o] = (e, k);
    }
    pub fn clear_sym(&mut self, o: usize, n: usize) {
        if let Some(s) = &mut self.sym {
            for x in &mut s[o..o + n] {
                x.0 = NOSYM;
            }
        }
    }
}

const CH: usize = 32;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone, Default)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    pub next: u64,
}
impl Mem {
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        let (c, i) = (id as usize / CH, id as usize % CH);
        self.chunks.get(c)?.get(i)?.as_ref()
    }
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let (c, i) = (id as usize / CH, id as usize % CH);
        let ch = Rc::make_mut(self.chunks.get_mut(c)?);
        let o = ch.get_mut(i)?.as_mut()?;
        Some(Rc::make_mut(o))
    }
    pub fn set(&mut self, id: u64, o: Option<Rc<Obj>>) {
        let (c, i) = (id as usize / CH, id as usize % CH);
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[c])[i] = o;
    }
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let id = self.next;
        self.next += 1;
        self.set(id, Some(Rc::new(o)));
        id
    }
}
