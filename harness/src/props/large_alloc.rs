//! E01, E02, E04: many thousands of entities created, killed and recycled at a time.

use goggles::Entity;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::entity::{Judge, Target};
use crate::{
    engine::{Cx, Leg, R},
    ensure, ensure_eq,
};

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    /// How many, atomically.
    Create(u32, bool),
    /// By so many threads at once, so many each.
    Threads(u8, u32),
    /// The live ones from a place (in 65536ths of the indexes), at most so many, every so manieth.
    Kill {
        from: u16,
        len: u32,
        step: u16,
        deferred: bool,
        reverse: bool,
    },
    Merge,
    /// Kills every one, keeping every `keep`th index (0: none).
    Clear { keep: u16, deferred: bool },
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Bulk {
    world: bool,
    ops: Vec<Op>,
}

fn count() -> impl Strategy<Value = u32> {
    let edge = |b: std::ops::Range<u32>| (b, 0u32..5).prop_map(|(b, d)| (1u32 << b) + d - 2);
    prop_oneof![
        3 => 1u32..3000,
        3 => edge(10..17),
        2 => 3000u32..40_000,
        2 => 60_000u32..140_000,
    ]
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        4 => (count(), any::<bool>()).prop_map(|(n, a)| Op::Create(n, a)),
        1 => (2u8..6, count()).prop_map(|(t, n)| Op::Threads(t, n / t as u32 + 1)),
        4 => (
            prop_oneof![1 => Just(0u16), 1 => any::<u16>()],
            count(),
            prop_oneof![4 => Just(1u16), 2 => 2u16..5, 1 => 5u16..5000],
            any::<bool>(),
            any::<bool>(),
        )
            .prop_map(|(from, len, step, deferred, reverse)| Op::Kill {
                from,
                len,
                step,
                deferred,
                reverse,
            }),
        2 => Just(Op::Merge),
        1 => (prop_oneof![1 => Just(0u16), 1 => 2u16..300], any::<bool>())
            .prop_map(|(keep, deferred)| Op::Clear { keep, deferred }),
    ]
}

fn bulk() -> impl Strategy<Value = Bulk> {
    (any::<bool>(), count(), any::<bool>(), prop::collection::vec(op(), 1..9)).prop_map(
        |(world, n, atomic, mut ops)| {
            ops.insert(0, Op::Create(n, atomic));
            Bulk { world, ops }
        },
    )
}

struct Model {
    judge: Judge,
    t: Target,
    at: Vec<Option<Entity>>,
    pending: Vec<bool>,
    /// The generation each index was last handed out with.
    last: Vec<u32>,
    live: usize,
    made: Vec<Entity>,
    recycled: usize,
    most_killed: usize,
}

impl Model {
    fn is_live(&self, e: Entity) -> bool {
        self.at[e.index() as usize] == Some(e)
    }

    fn note(&mut self, e: Entity) -> R {
        let i = e.index() as usize;
        // A gap here would be a fresh index out of turn.
        ensure!(i <= self.at.len(), "{e:?} handed out when only {} indexes were used", self.at.len());
        if i == self.at.len() {
            if self.judge == Judge::Recycle {
                ensure!(
                    self.live == self.at.len(),
                    "{e:?} took a new index while {} indexes were free",
                    self.at.len() - self.live
                );
            }
            self.at.push(None);
            self.pending.push(false);
            self.last.push(0);
        } else {
            self.recycled += 1;
        }
        ensure!(self.at[i].is_none(), "{e:?} created at the index of a live entity");
        if self.judge == Judge::Unique {
            ensure!(
                e.generation() > self.last[i],
                "{e:?} handed out when the index was last given with generation {}",
                self.last[i]
            );
        }
        self.last[i] = e.generation();
        self.at[i] = Some(e);
        self.live += 1;
        self.made.push(e);
        Ok(())
    }

    fn gone(&mut self, e: Entity) {
        let i = e.index() as usize;
        self.at[i] = None;
        self.pending[i] = false;
        self.live -= 1;
    }

    fn kill_all(&mut self, who: Vec<Entity>, deferred: bool) -> R {
        self.most_killed = self.most_killed.max(who.len());
        for e in who {
            if deferred {
                ensure!(self.t.kill_atomic(e), "deferred kill of the live {e:?} failed");
                self.pending[e.index() as usize] = true;
            } else {
                ensure!(self.t.kill(e), "kill of the live {e:?} failed");
                self.gone(e);
            }
        }
        Ok(())
    }

    fn step(&mut self, op: Op, cx: &mut Cx) -> R {
        match op {
            Op::Create(n, atomic) => {
                for _ in 0..n {
                    let e = if atomic { self.t.create_atomic() } else { self.t.create() };
                    self.note(e)?;
                }
            }
            Op::Threads(threads, n) => {
                cx.label("created by threads");
                let t = &self.t;
                let all: Vec<Vec<Entity>> = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..threads)
                        .map(|_| s.spawn(move || (0..n).map(|_| t.create_atomic()).collect()))
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                let mut all: Vec<Entity> = all.into_iter().flatten().collect();
                // The order among threads is free; in index order the new ones still follow on,
                // and come only after every free index is used.
                all.sort_by_key(|e| e.index());
                for e in all {
                    self.note(e)?;
                }
            }
            Op::Kill {
                from,
                len,
                step,
                deferred,
                reverse,
            } => {
                let from = (from as usize * self.at.len()) >> 16;
                let mut who: Vec<Entity> = self.at[from..]
                    .iter()
                    .flatten()
                    .step_by(step as usize)
                    .take(len as usize)
                    .copied()
                    .collect();
                if reverse {
                    who.reverse();
                }
                self.kill_all(who, deferred)?;
            }
            Op::Clear { keep, deferred } => {
                let who = self
                    .at
                    .iter()
                    .flatten()
                    .filter(|e| keep == 0 || e.index() % keep as u32 != 0)
                    .copied()
                    .collect();
                self.kill_all(who, deferred)?;
            }
            Op::Merge => self.merge()?,
        }
        self.full()
    }

    fn merge(&mut self) -> R {
        let killed: Vec<Entity> = self
            .at
            .iter()
            .flatten()
            .filter(|e| self.pending[e.index() as usize])
            .copied()
            .collect();
        let report = self.t.merge(&[]);
        if let (Some(mut r), Judge::Live) = (report, self.judge) {
            r.sort_by_key(|e| e.index());
            ensure!(
                r == killed,
                "the merge reports {} killed entities, or others than the {} to be killed",
                r.len(),
                killed.len()
            );
        }
        for e in killed {
            self.gone(e);
        }
        Ok(())
    }

    fn full(&self) -> R {
        match self.judge {
            Judge::Unique => {
                for e in &self.made {
                    ensure!(
                        self.is_live(*e) || !self.t.is_alive(*e),
                        "killed {e:?} is alive again"
                    );
                }
            }
            Judge::Recycle => {
                ensure_eq!(self.t.max() as usize, self.at.len(), "max_entity_count");
            }
            Judge::Live => {
                for e in &self.made {
                    ensure_eq!(self.t.is_alive(*e), self.is_live(*e), "is_alive({e:?})");
                }
                for (i, e) in self.at.iter().enumerate() {
                    ensure_eq!(self.t.entity(i as u32), *e, "entity({i})");
                }
                let want: Vec<Entity> = self.at.iter().flatten().copied().collect();
                let first = |a: &[u32]| {
                    a.iter().zip(&want).position(|(a, b)| *a != b.index())
                };
                let bits = self.t.bits();
                ensure!(
                    bits.len() == want.len() && first(&bits).is_none(),
                    "live bitset has {} members, {} are alive, first difference at {:?}",
                    bits.len(),
                    want.len(),
                    first(&bits)
                );
                ensure!(self.t.join() == want, "join over entities differs from the living");
            }
        }
        Ok(())
    }
}

fn run(judge: Judge, b: &Bulk, cx: &mut Cx) -> R {
    let mut m = Model {
        judge,
        t: Target::new(b.world),
        at: vec![],
        pending: vec![],
        last: vec![],
        live: 0,
        made: vec![],
        recycled: 0,
        most_killed: 0,
    };
    for (i, o) in b.ops.iter().enumerate() {
        // Enough of them for one case.
        if m.made.len() > 400_000 && !matches!(o, Op::Kill { .. } | Op::Merge | Op::Clear { .. }) {
            continue;
        }
        m.step(*o, cx).map_err(|e| format!("after operation {i} ({o:?}): {e}"))?;
    }
    m.merge()?;
    m.full().map_err(|e| format!("after a last merge: {e}"))?;
    // Everything free is used again before anything new.
    let free = m.at.len() - m.live;
    for i in 0..free as u32 + 2 {
        let e = if i % 3 == 0 { m.t.create() } else { m.t.create_atomic() };
        m.note(e).map_err(|e| format!("using up the {free} free indexes: {e}"))?;
    }
    m.full().map_err(|e| format!("with every free index used: {e}"))?;
    cx.label_if(b.world, "through World");
    cx.label_if(m.most_killed > 4096, "over 4096 killed at once");
    cx.label_if(m.most_killed > 65536, "over 65536 killed at once");
    cx.nontrivial_if(m.recycled > 1000);
    Ok(())
}

pub fn leg(judge: Judge, quick: u64) -> Leg {
    Leg::new(
        "bulk",
        "tens of thousands of entities at a time created (one by one, atomically, by several threads), \
         killed in ranges (at once or deferred) and merged, every index compared after each step and the \
         free ones used up at the end; non-trivial: over 1000 indexes used again",
        (quick, quick * 50),
        bulk,
        move |b: &Bulk, cx: &mut Cx| run(judge, b, cx),
    )
}
