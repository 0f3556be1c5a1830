//! Values whose drops are counted.
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Default)]
struct Reg {
    next: u64,
    /// number of times each value was dropped
    drops: BTreeMap<u64, u32>,
    /// values whose destructor panics
    bomb: Vec<u64>,
}
thread_local! { static REG: RefCell<Reg> = RefCell::new(Reg::default()); }

pub fn reset() {
    REG.with(|r| *r.borrow_mut() = Reg::default());
}

/// A value with an identity; `tag` says that the memory holds a live value.
#[derive(Debug)]
pub struct D {
    pub id: u64,
    tag: u64,
    pub val: u32,
    _heap: Box<u64>,
}
const TAG: u64 = 0x600D_F00D_600D_F00D;
impl D {
    pub fn new(val: u32) -> D {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.next += 1;
            let id = r.next;
            r.drops.insert(id, 0);
            D { id, tag: TAG, val, _heap: Box::new(id) }
        })
    }
    pub fn check(&self) {
        assert!(self.tag == TAG, "a value was read from memory that holds none");
        let n = REG.with(|r| r.borrow().drops.get(&self.id).copied());
        assert!(n == Some(0), "a value was used after it was dropped (or is none)");
    }
    pub fn bomb(&self) {
        REG.with(|r| r.borrow_mut().bomb.push(self.id));
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        self.check();
        D::new(self.val)
    }
}
impl Drop for D {
    fn drop(&mut self) {
        if self.tag != TAG {
            // not a value at all: the Box must not be freed
            eprintln!("drop of memory that holds no value");
            std::process::abort();
        }
        let b = REG.with(|r| {
            let mut r = r.borrow_mut();
            let id = self.id;
            let n = r.drops.entry(id).or_insert(100);
            *n += 1;
            if *n > 1 {
                eprintln!("a value was dropped twice");
                std::process::abort();
            }
            r.bomb.contains(&id)
        });
        self.tag = 0xdead;
        if b {
            crate::rt::expected_panic();
        }
    }
}
pub fn drops(id: u64) -> u32 {
    REG.with(|r| r.borrow().drops.get(&id).copied().unwrap_or(0))
}
/// number of values that still exist
pub fn live() -> usize {
    REG.with(|r| r.borrow().drops.values().filter(|&&n| n == 0).count())
}
/// every value must have been dropped
pub fn check_none_left() {
    REG.with(|r| {
        let l: Vec<u64> = r.borrow().drops.iter().filter(|(_, &n)| n == 0).map(|(&i, _)| i).collect();
        assert!(l.is_empty(), "values never dropped: {l:?}");
    });
}
