//! E01, E02, E04: histories of one allocator or world, judged against a model of who is alive.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use goggles::{
    entity::Allocator, hibitset::BitSetLike, Entities, Entity, IntoJoinExt, World,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
    engine::{catching, lax, Cx, Leg, Mode, Prop, R},
    ensure, ensure_eq,
};

/// Which entity an operation is aimed at, resolved against the history so far.
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub enum Pick {
    Live(u16),
    /// Alive with its deletion requested.
    Pending(u16),
    Dead(u16),
    /// A dead handle whose index has been handed out again.
    Stale(u16),
    /// The live entity with the highest, or lowest, index.
    Top,
    Bottom,
    /// Created since the last merge by an atomic creation.
    Fresh(u16),
    Any(u16),
    /// A handle made by another allocator: (index, generation).
    Foreign(u16, u8),
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    Create,
    CreateAtomic,
    CreateMany(u16),
    CreateAtomicMany(u16),
    Kill(Pick),
    KillAtomic(Pick),
    /// Over the live entities in index order: start (in 65536ths), length, step.
    KillRange(u16, u16, u8),
    KillAtomicRange(u16, u16, u8),
    /// Kill and create at once, so many times.
    Churn(u8, bool),
    Merge,
    /// Create atomically while iterating over the entities.
    JoinCreate(u8),
    Look(u32),
    Full,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Hist {
    pub world: bool,
    pub prefill: u32,
    pub prefill_atomic: bool,
    pub ops: Vec<Op>,
}

pub fn pick() -> impl Strategy<Value = Pick> {
    prop_oneof![
        6 => any::<u16>().prop_map(Pick::Live),
        3 => any::<u16>().prop_map(Pick::Pending),
        2 => any::<u16>().prop_map(Pick::Dead),
        3 => any::<u16>().prop_map(Pick::Stale),
        1 => Just(Pick::Top),
        1 => Just(Pick::Bottom),
        3 => any::<u16>().prop_map(Pick::Fresh),
        2 => any::<u16>().prop_map(Pick::Any),
        1 => (any::<u16>(), 0u8..6).prop_map(|(i, g)| Pick::Foreign(i, g)),
    ]
}

pub fn any_index() -> impl Strategy<Value = u32> {
    prop_oneof![
        4 => 0u32..300,
        1 => any::<u32>(),
        2 => (0u32..32, -2i64..3).prop_map(|(b, d)| ((1i64 << b) + d).clamp(0, u32::MAX as i64) as u32),
        1 => (0u32..10).prop_map(|d| u32::MAX - d),
    ]
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        8 => Just(Op::Create),
        8 => Just(Op::CreateAtomic),
        2 => (1u16..200).prop_map(Op::CreateMany),
        2 => (1u16..200).prop_map(Op::CreateAtomicMany),
        10 => pick().prop_map(Op::Kill),
        10 => pick().prop_map(Op::KillAtomic),
        2 => (any::<u16>(), 1u16..300, 1u8..8).prop_map(|(a, b, c)| Op::KillRange(a, b, c)),
        2 => (any::<u16>(), 1u16..300, 1u8..8).prop_map(|(a, b, c)| Op::KillAtomicRange(a, b, c)),
        1 => (1u8..20, any::<bool>()).prop_map(|(n, a)| Op::Churn(n, a)),
        5 => Just(Op::Merge),
        1 => (1u8..40).prop_map(Op::JoinCreate),
        2 => any_index().prop_map(Op::Look),
        1 => Just(Op::Full),
    ]
}

fn hist(max_ops: usize) -> impl Strategy<Value = Hist> {
    let prefill = prop_oneof![
        20 => Just(0u32),
        6 => 0u32..70,
        3 => 0u32..5000,
        1 => (4096u32 - 70)..(4096 + 70),
    ];
    (
        any::<bool>(),
        prefill,
        any::<bool>(),
        prop::collection::vec(op(), 1..max_ops),
    )
        .prop_map(|(world, prefill, prefill_atomic, ops)| Hist {
            world,
            prefill,
            prefill_atomic,
            ops,
        })
}

/// Few but large: past the third level of the bitsets.
fn big_hist() -> impl Strategy<Value = Hist> {
    let prefill = prop_oneof![
        2 => (262144u32 - 150)..(262144 + 150),
        1 => 5000u32..300_000,
    ];
    (
        any::<bool>(),
        prefill,
        any::<bool>(),
        prop::collection::vec(op(), 1..60),
    )
        .prop_map(|(world, prefill, prefill_atomic, ops)| Hist {
            world,
            prefill,
            prefill_atomic,
            ops,
        })
}

pub enum Target {
    Alloc(Allocator),
    World(World),
}

impl Target {
    pub fn new(world: bool) -> Target {
        if world {
            Target::World(World::new())
        } else {
            Target::Alloc(Allocator::new())
        }
    }
    pub fn create(&mut self) -> Entity {
        match self {
            Target::Alloc(a) => a.allocate(),
            Target::World(w) => w.create_entity(),
        }
    }
    pub fn create_atomic(&self) -> Entity {
        match self {
            Target::Alloc(a) => a.allocate_atomic(),
            Target::World(w) => w.entities().create(),
        }
    }
    pub fn kill(&mut self, e: Entity) -> bool {
        match self {
            Target::Alloc(a) => a.kill(e).is_ok(),
            Target::World(w) => w.delete_entity(e).is_ok(),
        }
    }
    pub fn kill_atomic(&self, e: Entity) -> bool {
        match self {
            Target::Alloc(a) => a.kill_atomic(e).is_ok(),
            Target::World(w) => w.entities().delete(e).is_ok(),
        }
    }
    /// Gives the merge's own report where there is one.
    pub fn merge(&mut self, junk: &[Entity]) -> Option<Vec<Entity>> {
        match self {
            Target::Alloc(a) => {
                let mut killed = junk.to_vec();
                a.merge_atomic(&mut killed);
                Some(killed)
            }
            Target::World(w) => {
                w.merge();
                None
            }
        }
    }
    pub fn is_alive(&self, e: Entity) -> bool {
        match self {
            Target::Alloc(a) => a.is_alive(e),
            Target::World(w) => w.entities().is_alive(e),
        }
    }
    pub fn entity(&self, i: u32) -> Option<Entity> {
        match self {
            Target::Alloc(a) => a.entity(i),
            Target::World(w) => w.entities().entity(i),
        }
    }
    pub fn max(&self) -> u32 {
        match self {
            Target::Alloc(a) => a.max_entity_count(),
            Target::World(w) => w.entities().max_entity_count(),
        }
    }
    pub fn bits(&self) -> Vec<u32> {
        match self {
            Target::Alloc(a) => a.live_bitset().iter().collect(),
            Target::World(w) => w.entities().live_bitset().iter().collect(),
        }
    }
    pub fn bit(&self, i: u32) -> bool {
        match self {
            Target::Alloc(a) => a.live_bitset().contains(i),
            Target::World(w) => w.entities().live_bitset().contains(i),
        }
    }
    pub fn join(&self) -> Vec<Entity> {
        match self {
            Target::Alloc(a) => a.join().collect(),
            Target::World(w) => {
                let es: Entities = w.fetch();
                let v = (&es).join().collect();
                v
            }
        }
    }
    /// Iterates while creating up to `n` more.
    fn join_create(&self, n: usize) -> (Vec<Entity>, Vec<(Entity, u32)>) {
        let (mut seen, mut made) = (vec![], vec![]);
        let mut go = |it: &mut dyn Iterator<Item = Entity>| {
            for e in it {
                seen.push(e);
                if made.len() < n {
                    let e = self.create_atomic();
                    made.push((e, self.max()));
                }
            }
        };
        match self {
            Target::Alloc(a) => go(&mut a.join()),
            Target::World(w) => go(&mut (&w.entities()).join()),
        }
        (seen, made)
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Judge {
    Unique,
    Live,
    Recycle,
}

struct Model {
    judge: Judge,
    t: Target,
    live: BTreeMap<u32, Entity>,
    pending: BTreeSet<u32>,
    fresh: Vec<Entity>,
    made: Vec<Entity>,
    dead: Vec<Entity>,
    seen: HashSet<Entity>,
    last_gen: HashMap<u32, u32>,
    /// One above the highest index handed out.
    high: u64,
    /// A foreign allocator's handles.
    foreign: Vec<Entity>,
    recycled: u64,
    full_gap: usize,
}

impl Model {
    fn new(judge: Judge, world: bool) -> Model {
        Model {
            judge,
            t: Target::new(world),
            live: BTreeMap::new(),
            pending: BTreeSet::new(),
            fresh: vec![],
            made: vec![],
            dead: vec![],
            seen: HashSet::new(),
            last_gen: HashMap::new(),
            high: 0,
            foreign: vec![],
            recycled: 0,
            full_gap: 0,
        }
    }

    fn note_new(&mut self, e: Entity, max: u32, atomic: bool) -> R {
        match self.judge {
            Judge::Unique => {
                ensure!(e.generation() != 0, "{e:?} has generation zero");
                ensure!(self.seen.insert(e), "{e:?} was handed out before");
                if let Some(g) = self.last_gen.insert(e.index(), e.generation()) {
                    ensure!(
                        e.generation() > g,
                        "index {} was handed out with generation {g}, then {}",
                        e.index(),
                        e.generation()
                    );
                }
                ensure!(self.t.is_alive(e), "{e:?} is not alive when handed out");
            }
            Judge::Live => {
                ensure!(
                    !self.live.contains_key(&e.index()),
                    "{e:?} created at the index of a live entity"
                );
                ensure!(self.t.is_alive(e), "{e:?} is not alive when handed out");
                ensure_eq!(self.t.entity(e.index()), Some(e), "entity({})", e.index());
                ensure!(self.t.bit(e.index()), "{e:?} is not in the live bitset");
            }
            Judge::Recycle => {
                ensure!(
                    !self.live.contains_key(&e.index()),
                    "{e:?} created at the index of a live entity"
                );
                if e.index() as u64 >= self.high {
                    ensure_eq!(e.index() as u64, self.high, "a new index is not the next one");
                    ensure!(
                        self.live.len() as u64 == self.high,
                        "{e:?} took a new index while index {:?} was free",
                        (0..self.high as u32).find(|i| !self.live.contains_key(i))
                    );
                }
                let high = self.high.max(e.index() as u64 + 1);
                ensure_eq!(max as u64, high, "max_entity_count");
            }
        }
        if (e.index() as u64) < self.high {
            self.recycled += 1;
        }
        self.high = self.high.max(e.index() as u64 + 1);
        self.live.insert(e.index(), e);
        self.made.push(e);
        if atomic {
            self.fresh.push(e);
        }
        Ok(())
    }

    fn create(&mut self, atomic: bool) -> R {
        let e = if atomic {
            self.t.create_atomic()
        } else {
            self.t.create()
        };
        let max = self.t.max();
        self.note_new(e, max, atomic)
    }

    fn is_live(&self, e: Entity) -> bool {
        self.live.get(&e.index()) == Some(&e)
    }

    fn gone(&mut self, e: Entity) {
        self.live.remove(&e.index());
        self.pending.remove(&e.index());
        self.dead.push(e);
    }

    fn pick(&mut self, p: Pick) -> Option<Entity> {
        let at = |v: &[Entity], i: u16| {
            if v.is_empty() {
                None
            } else {
                Some(v[(i as usize * v.len()) >> 16])
            }
        };
        let nth = |m: &BTreeMap<u32, Entity>, i: u16| {
            if m.is_empty() {
                return None;
            }
            let hi = *m.keys().next_back().unwrap() as u64 + 1;
            let from = ((i as u64 * hi) >> 16) as u32;
            m.range(from..).next().map(|(_, e)| *e)
        };
        match p {
            Pick::Live(i) => nth(&self.live, i),
            Pick::Pending(i) => {
                let v: Vec<Entity> = self.pending.iter().map(|i| self.live[i]).collect();
                at(&v, i)
            }
            Pick::Dead(i) => at(&self.dead, i),
            Pick::Stale(i) => {
                let v: Vec<Entity> = self
                    .dead
                    .iter()
                    .copied()
                    .filter(|e| self.live.contains_key(&e.index()))
                    .collect();
                at(&v, i)
            }
            Pick::Top => self.live.values().next_back().copied(),
            Pick::Bottom => self.live.values().next().copied(),
            Pick::Fresh(i) => {
                let v: Vec<Entity> = self
                    .fresh
                    .iter()
                    .copied()
                    .filter(|e| self.is_live(*e))
                    .collect();
                at(&v, i)
            }
            Pick::Any(i) => at(&self.made, i),
            Pick::Foreign(i, g) => {
                if self.foreign.is_empty() {
                    // Indexes 0..40, generations 1..=5.
                    let mut a = Allocator::new();
                    let mut es: Vec<Entity> = (0..40).map(|_| a.allocate()).collect();
                    for _ in 0..5 {
                        self.foreign.extend(es.iter().copied());
                        for e in es.drain(..) {
                            let _ = a.kill(e);
                        }
                        es = (0..40).map(|_| a.allocate()).collect();
                    }
                    // And one far beyond.
                    for _ in 0..10_000 {
                        es.push(a.allocate());
                    }
                    self.foreign.push(*es.last().unwrap());
                }
                let n = self.foreign.len();
                if g == 5 {
                    self.foreign.last().copied()
                } else {
                    let i = (g as usize * 40 + i as usize % 40) % n;
                    Some(self.foreign[i])
                }
            }
        }
    }

    fn kill(&mut self, e: Entity) -> R {
        let ok = self.t.kill(e);
        if self.judge == Judge::Live {
            ensure_eq!(ok, self.is_live(e), "kill({e:?}) succeeded");
        }
        let was = if self.judge == Judge::Live { self.is_live(e) } else { ok && self.is_live(e) };
        if was {
            self.gone(e);
            if self.judge != Judge::Recycle {
                ensure!(!self.t.is_alive(e), "{e:?} alive after kill");
            }
        }
        Ok(())
    }

    fn kill_atomic(&mut self, e: Entity) -> R {
        let ok = self.t.kill_atomic(e);
        if self.judge == Judge::Live {
            ensure_eq!(ok, self.is_live(e), "kill_atomic({e:?}) succeeded");
            ensure_eq!(self.t.is_alive(e), self.is_live(e), "is_alive({e:?}) after kill_atomic");
        }
        if ok && self.is_live(e) {
            self.pending.insert(e.index());
        }
        Ok(())
    }

    fn merge(&mut self) -> R {
        let junk: Vec<Entity> = self.made.iter().take(3).copied().collect();
        let report = self.t.merge(&junk);
        let killed: Vec<Entity> = self.pending.iter().map(|i| self.live[i]).collect();
        if let (Some(r), Judge::Live) = (&report, self.judge) {
            let mut r = r.clone();
            r.sort();
            let mut want = killed.clone();
            want.sort();
            ensure_eq!(r, want, "killed entities reported by the merge, sorted");
        }
        for e in killed {
            self.gone(e);
        }
        self.pending.clear();
        self.fresh.clear();
        Ok(())
    }

    fn range(&self, start: u16, len: u16, step: u8) -> Vec<Entity> {
        let Some(hi) = self.live.keys().next_back() else {
            return vec![];
        };
        let from = ((start as u64 * (*hi as u64 + 1)) >> 16) as u32;
        self.live
            .range(from..)
            .step_by(step.max(1) as usize)
            .take(len as usize)
            .map(|(_, e)| *e)
            .collect()
    }

    fn look(&self, i: u32) -> R {
        if self.judge == Judge::Live {
            let got = catching(|| self.t.entity(i))
                .map_err(|p| format!("entity({i}) panicked: {p}"))?;
            ensure_eq!(got, self.live.get(&i).copied(), "entity({i})");
        }
        Ok(())
    }

    fn step(&mut self, op: Op) -> R {
        match op {
            Op::Create => self.create(false)?,
            Op::CreateAtomic => self.create(true)?,
            Op::CreateMany(n) => {
                for _ in 0..n {
                    self.create(false)?;
                }
            }
            Op::CreateAtomicMany(n) => {
                for _ in 0..n {
                    self.create(true)?;
                }
            }
            Op::Kill(p) => {
                if let Some(e) = self.pick(p) {
                    self.kill(e)?;
                }
            }
            Op::KillAtomic(p) => {
                if let Some(e) = self.pick(p) {
                    self.kill_atomic(e)?;
                }
            }
            Op::KillRange(a, b, c) => {
                for e in self.range(a, b, c) {
                    self.kill(e)?;
                }
            }
            Op::KillAtomicRange(a, b, c) => {
                for e in self.range(a, b, c) {
                    self.kill_atomic(e)?;
                }
            }
            Op::Churn(n, atomic) => {
                for _ in 0..n {
                    if let Some(e) = self.pick(Pick::Live(0x4000)) {
                        self.kill(e)?;
                    }
                    self.create(atomic)?;
                }
            }
            Op::Merge => self.merge()?,
            Op::JoinCreate(n) => {
                let before = self.live.clone();
                let (seen, made) = self.t.join_create(n as usize);
                for (e, max) in &made {
                    self.note_new(*e, *max, true)?;
                }
                if self.judge == Judge::Live {
                    ensure!(
                        seen.windows(2).all(|w| w[0].index() < w[1].index()),
                        "join over entities out of order or with repeats"
                    );
                    ensure!(
                        seen.iter().all(|e| self.is_live(*e)),
                        "join over entities gave a dead one"
                    );
                    let s: HashSet<Entity> = seen.into_iter().collect();
                    ensure!(
                        before.values().all(|e| s.contains(e)),
                        "join over entities missed a live one while others were created"
                    );
                }
            }
            Op::Look(i) => self.look(i)?,
            Op::Full => self.full()?,
        }
        self.full_gap += 1;
        if self.full_gap * 60 > self.made.len() {
            self.full_gap = 0;
            self.full()?;
        }
        Ok(())
    }

    fn full(&self) -> R {
        match self.judge {
            Judge::Unique => {
                for e in &self.dead {
                    ensure!(!self.t.is_alive(*e), "killed {e:?} is alive again");
                }
            }
            Judge::Recycle => {
                ensure_eq!(self.t.max() as u64, self.high, "max_entity_count");
            }
            Judge::Live => {
                for e in &self.made {
                    ensure_eq!(self.t.is_alive(*e), self.is_live(*e), "is_alive({e:?})");
                }
                for i in 0..self.high as u32 + 3 {
                    self.look(i)?;
                }
                let want: Vec<u32> = self.live.keys().copied().collect();
                ensure_eq!(self.t.bits(), want, "live bitset");
                let want: Vec<Entity> = self.live.values().copied().collect();
                ensure_eq!(self.t.join(), want, "join over entities");
            }
        }
        Ok(())
    }
}

fn run(judge: Judge, h: &Hist, cx: &mut Cx) -> R {
    let mut m = Model::new(judge, h.world);
    let first = m.t.max();
    if judge == Judge::Recycle {
        ensure_eq!(first, 0, "max_entity_count of a fresh one");
    }
    for _ in 0..h.prefill {
        m.create(h.prefill_atomic)?;
    }
    let mut merges = 0;
    let mut kills = 0;
    for (i, o) in h.ops.iter().enumerate() {
        let dead = m.dead.len();
        m.step(*o).map_err(|e| format!("after operation {i} ({o:?}): {e}"))?;
        if matches!(o, Op::Merge) && m.dead.len() > dead {
            merges += 1;
        }
        kills += (m.dead.len() > dead) as u32;
    }
    m.full().map_err(|e| format!("at the end: {e}"))?;
    cx.label_if(h.world, "through World");
    cx.label_if(merges > 0, "merge that killed");
    cx.label_if(m.recycled > 0, "index reused");
    cx.label_if(m.high > 4096, "above 4096 entities");
    cx.label_if(m.high > 262144, "above 262144 entities");
    cx.nontrivial_if(m.recycled > 0 && kills > 0);
    // One last merge must settle everything.
    m.merge().and_then(|_| m.full()).map_err(|e| format!("after a last merge: {e}"))
}

const RULE: &str = "histories of immediate and atomic creations, immediate and deferred kills (of live, \
pending, dead, stale, fresh and foreign handles), ranges, churn, merges and iterations on an Allocator \
or World; non-trivial: something was killed and an index reused";

fn legs(judge: Judge, quick: u64) -> Vec<Leg> {
    vec![
        Leg::new(
            "history",
            RULE,
            (quick, quick * 40),
            || hist(60),
            move |h: &Hist, cx: &mut Cx| run(judge, h, cx),
        ),
        Leg::new(
            "long",
            RULE,
            (quick / 20, quick * 2),
            || hist(800),
            move |h: &Hist, cx: &mut Cx| run(judge, h, cx),
        ),
        Leg::new(
            "big",
            RULE,
            (24, 1000),
            big_hist,
            move |h: &Hist, cx: &mut Cx| run(judge, h, cx),
        ),
    ]
}

/// For the sanitizers and Miri.
pub fn memory_legs() -> Vec<Leg> {
    const RULE: &str = "the histories of E01, E02 and E04; non-trivial as there";
    let check = |h: &Hist, cx: &mut Cx| run(Judge::Live, h, cx);
    fn small() -> impl Strategy<Value = Hist> {
        hist(16).prop_map(|mut h| {
            h.prefill %= 8;
            for o in &mut h.ops {
                match o {
                    Op::CreateMany(n) | Op::CreateAtomicMany(n) => *n %= 8,
                    Op::KillRange(_, n, _) | Op::KillAtomicRange(_, n, _) => *n %= 8,
                    Op::JoinCreate(n) => *n %= 8,
                    _ => {}
                }
            }
            h
        })
    }
    vec![
        Leg::new("entities", RULE, (0, 0), || hist(60), lax(check)).also(Mode::Asan, 4_000, 200_000),
        Leg::new("entities small", RULE, (0, 0), small, lax(check)).also(Mode::Miri, 16, 1_000),
    ]
}

// Index capacity.

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Capacity {
    world: bool,
    /// How many of the last creations are atomic, by bit.
    atomic: u16,
    merge: bool,
    /// Attempts past the end.
    extra: Vec<bool>,
    /// Frees so many in between.
    free: u8,
}

fn capacity() -> impl Strategy<Value = Capacity> {
    (
        any::<bool>(),
        any::<u16>(),
        any::<bool>(),
        prop::collection::vec(any::<bool>(), 1..4),
        0u8..20,
    )
        .prop_map(|(world, atomic, merge, extra, free)| Capacity {
            world,
            atomic,
            merge,
            extra,
            free,
        })
}

const CAP: u32 = 1 << 24;

fn run_capacity(judge: Judge, c: &Capacity, cx: &mut Cx) -> R {
    let mut t = Target::new(c.world);
    // Indexes are handed out contiguously while nothing is freed, so that each index is new.
    let mut last = None;
    let mut n = 0u32;
    let mut refused = 0;
    let step = |t: &mut Target, atomic: bool| -> Result<Option<Entity>, String> {
        let got = if atomic {
            catching(|| t.create_atomic())
        } else {
            catching(|| t.create())
        };
        Ok(got.ok())
    };
    for i in 0..CAP - 16 {
        let e = t.create();
        if e.index() != i || e.generation() != 1 {
            return Err(format!("creation {i} gave {e:?}"));
        }
        last = Some(e);
        n += 1;
    }
    let mut tail = vec![];
    for b in 0..16 {
        match step(&mut t, c.atomic >> b & 1 == 1)? {
            Some(e) => {
                ensure!(e.index() == n, "creation {n} gave {e:?}");
                tail.push(e);
                n += 1;
            }
            None => {
                refused += 1;
                break;
            }
        }
    }
    if c.merge {
        t.merge(&[]);
    }
    let mut freed: Vec<Entity> = vec![];
    for i in 0..c.free {
        let i = 1 + i as u32 * 800_000;
        let e = t.entity(i).ok_or(format!("no entity at {i}"))?;
        ensure!(t.kill(e), "cannot kill {e:?}");
        freed.push(e);
    }
    let mut back: Vec<Entity> = vec![];
    for _ in 0..c.free {
        let e = step(&mut t, c.merge)?
            .ok_or("creation refused although indexes are free".to_string())?;
        ensure!(
            freed.iter().any(|f| f.index() == e.index() && f.generation() < e.generation()),
            "{e:?} is not at a freed index, with a later generation"
        );
        ensure!(!back.contains(&e), "{e:?} handed out twice");
        back.push(e);
    }
    // Past the end: loud, or a working new entity; never a repeat or a broken one.
    for atomic in &c.extra {
        let before = t.max();
        match step(&mut t, *atomic)? {
            None => {
                refused += 1;
                ensure_eq!(t.max(), before, "max_entity_count after a refused creation");
            }
            Some(e) => {
                ensure_eq!(e.index(), n, "index past the end");
                ensure!(t.is_alive(e), "{e:?} is not alive");
                tail.push(e);
                n += 1;
            }
        }
    }
    cx.label_if(refused > 0, "creation refused");
    cx.nontrivial_if(refused > 0);
    if judge == Judge::Recycle {
        ensure_eq!(t.max(), n, "max_entity_count");
        return Ok(());
    }
    for e in tail.iter().chain(&last).chain(&back) {
        ensure!(t.is_alive(*e), "{e:?} is not alive");
        ensure_eq!(t.entity(e.index()), Some(*e), "entity({})", e.index());
    }
    for e in &freed {
        ensure!(!t.is_alive(*e), "killed {e:?} is alive");
    }
    if judge == Judge::Live {
        let mut next = 0;
        for i in t.bits() {
            ensure!(i == next, "live bitset has {i} where {next} should be");
            next += 1;
        }
        ensure_eq!(next, n, "size of the live bitset");
        let mut next = 0;
        for e in t.join() {
            ensure!(e.index() == next, "join has {e:?} where {next} should be");
            next += 1;
        }
        ensure_eq!(next, n, "entities joined");
        // Killing the last few leaves the others.
        for e in &tail {
            ensure!(t.kill_atomic(*e), "cannot kill {e:?}");
        }
        t.merge(&[]);
        let left = t.bits().len() as u64;
        ensure_eq!(left, n as u64 - tail.len() as u64, "live after killing the last ones");
        ensure_eq!(t.join().len() as u64, left, "joined after killing the last ones");
    }
    Ok(())
}

fn capacity_leg(judge: Judge) -> Leg {
    Leg::new(
        "capacity",
        "an Allocator or World filled to its last index with immediate and atomic creations, then asked \
         for more, with and without freed indexes; non-trivial: some creation was refused",
        (3, 40),
        capacity,
        move |c: &Capacity, cx: &mut Cx| run_capacity(judge, c, cx),
    )
    .workers(3)
    .hang(120)
}

// One index through its generations.

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Churn {
    world: bool,
    keep: u8,
    cycles: u32,
    /// Kinds of cycle taken in turn.
    kinds: Vec<u8>,
}

fn churn(world: bool, cycles: std::ops::Range<u32>) -> impl Strategy<Value = Churn> {
    (
        Just(world),
        0u8..3,
        cycles,
        prop::collection::vec(0u8..4, 1..6),
    )
        .prop_map(|(world, keep, cycles, kinds)| Churn {
            world,
            keep,
            cycles,
            kinds,
        })
}

fn run_churn(c: &Churn, cx: &mut Cx) -> R {
    let mut t = Target::new(c.world);
    for _ in 0..c.keep {
        t.create();
    }
    let first = t.create();
    let (mut e, mut prev) = (first, first);
    for i in 0..c.cycles {
        let kind = c.kinds[i as usize % c.kinds.len()];
        let ok = if kind & 1 == 0 { t.kill(e) } else { t.kill_atomic(e) };
        ensure!(ok, "cycle {i}: cannot kill {e:?}");
        if kind & 1 == 1 {
            t.merge(&[]);
        }
        prev = e;
        e = if kind & 2 == 0 { t.create() } else { t.create_atomic() };
        ensure!(
            e.index() != prev.index() || e.generation() > prev.generation(),
            "cycle {i}: {prev:?} was followed by {e:?}"
        );
        ensure!(e.generation() != 0, "cycle {i}: {e:?}");
        ensure!(!t.is_alive(prev) && !t.is_alive(first), "cycle {i}: a killed entity is alive");
        ensure!(t.is_alive(e), "cycle {i}: {e:?} is not alive");
    }
    let _ = prev;
    cx.nontrivial_if(c.cycles > 100);
    Ok(())
}

/// Runs one index until its generations are used up.
fn run_exhaust(c: &Churn, cx: &mut Cx) -> R {
    let mut a = Allocator::new();
    for _ in 0..c.keep {
        a.allocate();
    }
    let first = a.allocate();
    let mut e = first;
    let end = catching(|| -> R {
        for i in 0..=u32::MAX as u64 {
            ensure!(a.kill(e).is_ok(), "cycle {i}: cannot kill {e:?}");
            let last = e.generation() == i32::MAX as u32;
            let next = if i & 0xfff == c.cycles as u64 || last && c.cycles % 2 == 0 {
                a.allocate_atomic()
            } else {
                a.allocate()
            };
            if next.index() != e.index() {
                // Moving on to another index is fine.
                return Ok(());
            }
            ensure!(next.generation() > e.generation(), "cycle {i}: {e:?}, then {next:?}");
            e = next;
        }
        Err("more identities than there can be".into())
    });
    if let Ok(r) = end {
        r?;
    }
    ensure!(e.generation() > 1_000_000, "used up at {e:?} already");
    cx.label(if c.cycles % 2 == 0 { "used up by an atomic creation" } else { "used up by a creation" });
    cx.nontrivial_if(true);
    // And nothing of the past comes back.
    ensure!(!a.is_alive(first) && !a.is_alive(e), "a killed entity is alive after the end");
    for _ in 0..3 {
        let more = catching(|| a.allocate());
        if let Ok(m) = more {
            ensure!(
                m.index() != e.index() || m.generation() > e.generation(),
                "{m:?} handed out after {e:?}"
            );
        }
        ensure!(!a.is_alive(first) && !a.is_alive(e), "a killed entity is alive after the end");
    }
    // Everybody agrees on who is left.
    let agree = |a: &Allocator| -> R {
        let bits: Vec<u32> = a.live_bitset().iter().collect();
        let joined = catching(|| a.join().collect::<Vec<Entity>>())
            .map_err(|p| format!("a join over the entities after the end panics: {p}"))?;
        ensure_eq!(
            joined.iter().map(|e| e.index()).collect::<Vec<_>>(),
            bits,
            "a join after the end, compared with the set of live entities"
        );
        for i in 0..a.max_entity_count() {
            ensure_eq!(
                a.entity(i).is_some(),
                bits.contains(&i),
                "whether an entity with index {i} is alive after the end, compared with the set of live ones"
            );
        }
        for e in joined {
            ensure!(a.is_alive(e), "{e:?} is in a join after the end, and not alive");
        }
        Ok(())
    };
    agree(&a)?;
    let merged = catching(|| a.merge_atomic(&mut vec![]));
    ensure!(merged.is_ok(), "a merge after the end panics");
    agree(&a)
}

pub fn e01() -> Prop {
    let mut l = legs(Judge::Unique, 40_000);
    l.push(capacity_leg(Judge::Unique));
    l.push(super::large_alloc::leg(Judge::Unique, 4_000));
    l.push(Leg::new(
        "churn",
        "one index killed and recreated over and over by a mix of immediate and deferred kills and \
         creations; non-trivial: over 100 times",
        (60, 600),
        || any::<bool>().prop_flat_map(|w| churn(w, 0..200_000)),
        run_churn,
    ));
    l.push(
        Leg::new(
            "exhaust",
            "one index killed and recreated until its generations are used up",
            (3, 6),
            || churn(false, 0..0x1000),
            run_exhaust,
        )
        .hang(600),
    );
    Prop::new("E01", l)
}

pub fn e02() -> Prop {
    let mut l = legs(Judge::Live, 30_000);
    l.push(capacity_leg(Judge::Live));
    l.push(super::large_alloc::leg(Judge::Live, 2_000));
    l.push(
        Leg::new(
            "exhaust",
            "one index killed and recreated until its generations are used up, and everything asked who is alive then",
            (3, 6),
            || churn(false, 0..0x1000),
            run_exhaust,
        )
        .hang(600),
    );
    Prop::new("E02", l)
}

pub fn e04() -> Prop {
    let mut l = legs(Judge::Recycle, 40_000);
    l.push(capacity_leg(Judge::Recycle));
    l.push(super::large_alloc::leg(Judge::Recycle, 4_000));
    Prop::new("E04", l)
}
