//! `V`: the node value used everywhere. It knows its identity, counts in-place modifications and
//! reports double drops, leaks and reads of dead or never-initialised values.
use std::cell::RefCell;

const MAGIC: u32 = 0x5AFE_1D00;
const DEAD: u32 = 0xDEAD_BEEF;

#[derive(Debug)]
pub struct V {
    magic: u32,
    pub id: u32,
    pub touched: u32,
    tok: u32,
}

#[derive(Default)]
struct Track {
    live: Vec<bool>,
    bad: Option<String>,
    calls: Vec<u32>,
}

thread_local! { static FUSE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
/// what a node's accessor panics with
pub struct Refused;
/// the n-th call to a user-implemented node's accessor from now on will panic (0: none)
pub fn arm(n: u32) {
    FUSE.with(|f| f.set(n));
}

thread_local! { static TR: RefCell<Track> = RefCell::new(Track::default()); }

fn alloc() -> u32 {
    TR.with(|t| {
        let mut t = t.borrow_mut();
        t.live.push(true);
        (t.live.len() - 1) as u32
    })
}

impl V {
    pub fn new(id: u32) -> V {
        V { magic: MAGIC, id, touched: 0, tok: alloc() }
    }
    fn check(&self) {
        if self.magic != MAGIC {
            panic!("a dead or uninitialised value was observed (magic {:#x})", self.magic);
        }
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        self.check();
        V { magic: MAGIC, id: self.id, touched: self.touched, tok: alloc() }
    }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        self.id == o.id && self.touched == o.touched
    }
}
impl Eq for V {}
impl Default for V {
    fn default() -> V {
        V::new(777)
    }
}
impl Drop for V {
    fn drop(&mut self) {
        let (m, tok, id) = (self.magic, self.tok, self.id);
        self.magic = DEAD;
        let _ = TR.try_with(|t| {
            if let Ok(mut t) = t.try_borrow_mut() {
                let ok = m == MAGIC && t.live.get(tok as usize).copied().unwrap_or(false);
                if ok {
                    t.live[tok as usize] = false;
                } else if t.bad.is_none() {
                    t.bad = Some(format!("value {id} was dropped twice or was never initialised"));
                }
            }
        });
    }
}

pub fn begin() {
    arm(0);
    TR.with(|t| {
        let mut t = t.borrow_mut();
        t.live.clear();
        t.bad = None;
        t.calls.clear();
    })
}
/// a user-implemented node was asked for its value and children
pub fn expanded(id: u32) {
    TR.with(|t| {
        let c = &mut t.borrow_mut().calls;
        if c.len() <= id as usize {
            c.resize(id as usize + 1, 0);
        }
        c[id as usize] += 1;
    });
    let left = FUSE.with(|f| f.replace(f.get().saturating_sub(1)));
    if left == 1 {
        std::panic::resume_unwind(Box::new(Refused));
    }
}
/// how often node `id` was asked for its value and children since `begin`
pub fn calls(id: u32) -> u32 {
    TR.with(|t| t.borrow().calls.get(id as usize).copied().unwrap_or(0))
}
/// first double drop seen since `begin`
pub fn bad() -> Option<String> {
    TR.with(|t| t.borrow().bad.clone())
}
/// number of values created since `begin` and not dropped yet
pub fn live() -> usize {
    TR.with(|t| t.borrow().live.iter().filter(|x| **x).count())
}
pub fn created() -> usize {
    TR.with(|t| t.borrow().live.len())
}

/// What a check may see of a yielded value, by value, by shared or by unique reference.
pub trait Obs {
    fn id(&self) -> u32;
    fn touched(&self) -> u32;
    /// modify in place where the ownership mode allows it; true if it did
    fn touch(&mut self) -> bool;
}
impl Obs for V {
    fn id(&self) -> u32 {
        self.check();
        self.id
    }
    fn touched(&self) -> u32 {
        self.touched
    }
    fn touch(&mut self) -> bool {
        self.check();
        self.touched += 1;
        true
    }
}
impl<'a> Obs for &'a V {
    fn id(&self) -> u32 {
        self.check();
        self.id
    }
    fn touched(&self) -> u32 {
        self.touched
    }
    fn touch(&mut self) -> bool {
        false
    }
}
impl<'a> Obs for &'a mut V {
    fn id(&self) -> u32 {
        self.check();
        self.id
    }
    fn touched(&self) -> u32 {
        self.touched
    }
    fn touch(&mut self) -> bool {
        self.check();
        self.touched += 1;
        true
    }
}
impl Obs for u32 {
    fn id(&self) -> u32 {
        *self
    }
    fn touched(&self) -> u32 {
        0
    }
    fn touch(&mut self) -> bool {
        false
    }
}
