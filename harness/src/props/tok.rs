//! Values whose creation and destruction is recorded, per thread.

use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashMap},
};

#[derive(Default)]
struct Reg {
    next: u64,
    first: u64,
    live: HashMap<u64, u32>,
    errors: Vec<String>,
}

thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg { next: 1, first: 1, ..Reg::default() });
    static ZST_LIVE: Cell<i64> = const { Cell::new(0) };
    /// Counts down over drops; the one that reaches zero panics.
    static FUSE: Cell<u64> = const { Cell::new(0) };
    static DEFAULT: Cell<u32> = const { Cell::new(0) };
}

const MARK: u64 = 0x5bd1_e995_a076_1d64;

/// Starts a new case: whatever is left over from another one is of no interest.
pub fn reset() {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.live.clear();
        r.errors.clear();
        r.first = r.next;
    });
    ZST_LIVE.set(0);
    FUSE.set(0);
}

pub fn live_count() -> usize {
    REG.with(|r| r.borrow().live.len())
}

/// How many live tokens have each value.
pub fn live_vals() -> BTreeMap<u32, u32> {
    REG.with(|r| {
        let mut m = BTreeMap::new();
        for v in r.borrow().live.values() {
            *m.entry(*v).or_insert(0) += 1;
        }
        m
    })
}

pub fn zst_live() -> i64 {
    ZST_LIVE.get()
}

pub fn first_error() -> Option<String> {
    REG.with(|r| r.borrow().errors.first().cloned())
}

/// The `n`-th drop from now (counting from 1) panics; 0 for none.
pub fn set_fuse(n: u64) {
    FUSE.set(n);
}

pub fn set_default(v: u32) {
    DEFAULT.set(v);
}

fn burn() {
    let n = FUSE.get();
    if n > 0 {
        FUSE.set(n - 1);
        if n == 1 && !std::thread::panicking() {
            panic!("destructor told to panic");
        }
    }
}

#[derive(Debug)]
pub struct Tok {
    id: u64,
    val: u32,
    mark: u64,
}

impl Tok {
    pub fn new(val: u32) -> Tok {
        let id = REG.with(|r| {
            let mut r = r.borrow_mut();
            let id = r.next;
            r.next += 1;
            r.live.insert(id, val);
            id
        });
        Tok {
            id,
            val,
            mark: id ^ MARK,
        }
    }

    /// Its value, noting if it is not a live token.
    pub fn val(&self) -> u32 {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            if self.mark != self.id ^ MARK {
                r.errors.push("access to something that is no value".into());
            } else if self.id >= r.first && r.live.get(&self.id) != Some(&self.val) {
                let e = format!("access to value {} after it was dropped", self.val);
                r.errors.push(e);
            }
        });
        self.val
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok::new(self.val())
    }
}

impl Default for Tok {
    fn default() -> Tok {
        Tok::new(DEFAULT.get())
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let _ = REG.try_with(|r| {
            let mut r = r.borrow_mut();
            if self.mark != self.id ^ MARK {
                r.errors.push("drop of something that is no value".into());
            } else if self.id >= r.first && r.live.remove(&self.id).is_none() {
                let e = format!("value {} dropped a second time", self.val);
                r.errors.push(e);
            }
        });
        burn();
    }
}

/// A counted value without a size.
pub struct ZTok(());

impl ZTok {
    pub fn new() -> ZTok {
        ZST_LIVE.set(ZST_LIVE.get() + 1);
        ZTok(())
    }
}

impl Drop for ZTok {
    fn drop(&mut self) {
        ZST_LIVE.set(ZST_LIVE.get() - 1);
        burn();
    }
}
