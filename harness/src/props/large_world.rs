//! Worlds of many thousand entities: for what depends on how many there are.

use goggles::{
    hibitset::BitSetLike, Component, DenseVecStorage, Entity, Flagged, HashMapStorage, IntoJoinExt,
    RawStorage, VecStorage, World,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
    engine::{Cx, Leg, R},
    ensure, ensure_eq,
};

#[derive(Clone, Copy, Debug, PartialEq)]
struct V<const K: usize>(u32);

impl Component for V<0> {
    type Storage = VecStorage<Self>;
}
impl Component for V<1> {
    type Storage = DenseVecStorage<Self>;
}
impl Component for V<2> {
    type Storage = HashMapStorage<Self>;
}
impl Component for V<3> {
    type Storage = Flagged<VecStorage<Self>>;
}
impl Component for V<4> {
    type Storage = Flagged<DenseVecStorage<Self>>;
}

const KINDS: usize = 5;

/// Every `step`-th of some entities, from `skip` 256ths of the way on, at most 2^bits.
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub struct Sel {
    skip: u8,
    step: u8,
    bits: u8,
    /// Backwards.
    back: bool,
}

impl Sel {
    fn of(self, from: &[usize]) -> Vec<usize> {
        let skip = from.len() * self.skip as usize / 256;
        let it = from.iter().copied();
        let it: Box<dyn Iterator<Item = usize>> = if self.back { Box::new(it.rev()) } else { Box::new(it) };
        it.skip(skip).step_by(self.step as usize).take(1 << self.bits).collect()
    }
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    /// 2^bits, give or take, at once or atomically.
    Create(u8, u8, bool),
    Insert(u8, Sel),
    Remove(u8, Sel),
    Write(u8, Sel),
    DeleteNow(Sel),
    DeleteLater(Sel),
    Merge,
    Track(u8, bool),
    Clear(u8),
    Register(u8),
    /// Changes through handles of dead entities.
    Stale(u8, Sel),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    tracking: u8,
    ops: Vec<Op>,
}

fn case() -> impl Strategy<Value = Case> {
    let bits = || prop_oneof![1 => 2u8..8, 4 => 8u8..15, 2 => Just(16u8)];
    let sel = || {
        (
            prop_oneof![2 => Just(0u8), 1 => any::<u8>()],
            prop_oneof![4 => Just(1u8), 1 => 2u8..70],
            prop_oneof![1 => 2u8..8, 4 => 8u8..15, 3 => Just(17u8)],
            any::<bool>(),
        )
            .prop_map(|(skip, step, bits, back)| Sel { skip, step, bits, back })
    };
    let k = || 0..KINDS as u8;
    let op = prop_oneof![
        3 => (bits(), any::<u8>(), any::<bool>()).prop_map(|(b, m, a)| Op::Create(b, m, a)),
        4 => (k(), sel()).prop_map(|(k, s)| Op::Insert(k, s)),
        1 => (k(), sel()).prop_map(|(k, s)| Op::Remove(k, s)),
        1 => (k(), sel()).prop_map(|(k, s)| Op::Write(k, s)),
        2 => sel().prop_map(Op::DeleteNow),
        3 => sel().prop_map(Op::DeleteLater),
        2 => Just(Op::Merge),
        1 => (k(), any::<bool>()).prop_map(|(k, f)| Op::Track(k, f)),
        1 => k().prop_map(Op::Clear),
        1 => k().prop_map(Op::Register),
        1 => (k(), sel()).prop_map(|(k, s)| Op::Stale(k, s)),
    ];
    let start = (bits(), prop::collection::vec((k(), sel()), 1..4));
    (any::<u8>(), start, prop::collection::vec(op, 3..14)).prop_map(|(tracking, (b, with), ops)| {
        let with = with.into_iter().map(|(k, s)| Op::Insert(k, s));
        let ops = std::iter::once(Op::Create(b, 0, b % 2 == 0)).chain(with).chain(ops).collect();
        Case { tracking, ops }
    })
}

trait Comp: Component + Copy + Send + Sync + 'static
where
    Self::Storage: RawStorage<Item = Self> + Default + Send + Sync + 'static,
{
    fn new(v: u32) -> Self;
    fn val(self) -> u32;
    fn slice(_: &World) -> Option<Vec<u32>> {
        None
    }
    fn track(_: &mut World, _: bool) {}
    fn clear(_: &mut World) {}
    fn modified(_: &World) -> Option<Vec<u32>> {
        None
    }
}

macro_rules! comp {
    ($k:literal, $($extra:tt)*) => {
        impl Comp for V<$k> {
            fn new(v: u32) -> Self {
                V(v)
            }
            fn val(self) -> u32 {
                self.0
            }
            $($extra)*
        }
    };
}
macro_rules! tracked {
    ($k:literal) => {
        comp!(
            $k,
            fn track(w: &mut World, f: bool) {
                w.get_component_mut::<Self>().set_track_modified(f)
            }
            fn clear(w: &mut World) {
                w.get_component_mut::<Self>().clear_modified()
            }
            fn modified(w: &World) -> Option<Vec<u32>> {
                Some(w.read_component::<Self>().modified_indexes().iter().collect())
            }
        );
    };
}
comp!(0,);
comp!(
    1,
    fn slice(w: &World) -> Option<Vec<u32>> {
        Some(w.read_component::<Self>().as_slice().iter().map(|v| v.0).collect())
    }
);
comp!(2,);
tracked!(3);
tracked!(4);

macro_rules! by_k {
    ($k:expr, $f:ident($($a:expr),*)) => {
        match $k {
            0 => $f::<V<0>>($($a),*),
            1 => $f::<V<1>>($($a),*),
            2 => $f::<V<2>>($($a),*),
            3 => $f::<V<3>>($($a),*),
            _ => $f::<V<4>>($($a),*),
        }
    };
}

#[derive(Default)]
struct Model {
    /// All there ever were.
    all: Vec<Entity>,
    alive: Vec<bool>,
    pending: Vec<bool>,
    /// Of each kind by number of the entity, 0 where there is none.
    comps: Vec<Vec<u32>>,
    /// By index.
    modified: Vec<Vec<bool>>,
    tracking: Vec<bool>,
    next: u32,
}

impl Model {
    fn living(&self) -> Vec<usize> {
        (0..self.all.len()).filter(|n| self.alive[*n]).collect()
    }

    fn dead(&self) -> Vec<usize> {
        (0..self.all.len()).filter(|n| !self.alive[*n]).collect()
    }

    fn change(&mut self, k: usize, n: usize) {
        if self.tracking[k] {
            let i = self.all[n].index() as usize;
            self.modified[k][i] = true;
        }
    }

    fn add(&mut self, e: Entity) {
        self.all.push(e);
        self.alive.push(true);
        self.pending.push(false);
        self.comps.iter_mut().for_each(|c| c.push(0));
        let i = e.index() as usize;
        for m in &mut self.modified {
            if m.len() <= i {
                m.resize(i + 1, false);
            }
        }
    }

    fn die(&mut self, n: usize) {
        self.alive[n] = false;
        self.pending[n] = false;
        for k in 0..KINDS {
            if std::mem::take(&mut self.comps[k][n]) != 0 {
                self.change(k, n);
            }
        }
    }
}

fn register<C: Comp>(w: &mut World)
where
    C::Storage: RawStorage<Item = C> + Default + Send + Sync + 'static,
{
    w.insert_component::<C>();
}

fn insert<C: Comp>(w: &World, m: &mut Model, k: usize, ns: &[usize]) -> R
where
    C::Storage: RawStorage<Item = C> + Default + Send + Sync + 'static,
{
    let mut c = w.write_component::<C>();
    for n in ns {
        m.next += 1;
        let old = c.insert(m.all[*n], C::new(m.next)).map(|o| o.map_or(0, C::val));
        ensure_eq!(old.ok(), Some(m.comps[k][*n]), "inserting for {:?} gave", m.all[*n]);
        m.comps[k][*n] = m.next;
        m.change(k, *n);
    }
    Ok(())
}

fn remove<C: Comp>(w: &World, m: &mut Model, k: usize, ns: &[usize]) -> R
where
    C::Storage: RawStorage<Item = C> + Default + Send + Sync + 'static,
{
    let mut c = w.write_component::<C>();
    for n in ns {
        let old = c.remove(m.all[*n]).map(|o| o.map_or(0, C::val));
        ensure_eq!(old.ok(), Some(m.comps[k][*n]), "removing from {:?} gave", m.all[*n]);
        if std::mem::take(&mut m.comps[k][*n]) != 0 {
            m.change(k, *n);
        }
    }
    Ok(())
}

fn write<C: Comp>(w: &mut World, m: &mut Model, k: usize, ns: &[usize]) -> R
where
    C::Storage: RawStorage<Item = C> + Default + Send + Sync + 'static,
{
    let mut c = w.get_component_mut::<C>();
    for n in ns {
        m.next += 1;
        let old = c.get_mut(m.all[*n]).map_or(0, |v| std::mem::replace(v, C::new(m.next)).val());
        ensure_eq!(old, m.comps[k][*n], "a component of {:?}", m.all[*n]);
        if old != 0 {
            m.comps[k][*n] = m.next;
            m.change(k, *n);
        }
    }
    Ok(())
}

fn stale<C: Comp>(w: &World, m: &Model, ns: &[usize]) -> R
where
    C::Storage: RawStorage<Item = C> + Default + Send + Sync + 'static,
{
    let mut c = w.write_component::<C>();
    for n in ns {
        let e = m.all[*n];
        let refused = match n % 5 {
            0 => c.insert(e, C::new(1)).is_err(),
            1 => c.remove(e).is_err(),
            2 => c.get_mut(e).is_none(),
            3 => c.get_or_insert_with(e, || C::new(1)).is_err(),
            _ => c.get_guard(e).is_none(),
        };
        ensure!(refused, "a change was made for {e:?}, which is dead");
    }
    Ok(())
}

fn compare<C: Comp>(w: &World, m: &Model, k: usize) -> R
where
    C::Storage: RawStorage<Item = C> + Default + Send + Sync + 'static,
{
    let c = w.read_component::<C>();
    let es = w.entities();
    let mut want: Vec<(Entity, u32)> = (0..m.all.len())
        .filter(|n| m.comps[k][*n] != 0)
        .map(|n| (m.all[n], m.comps[k][n]))
        .collect();
    want.sort_by_key(|(e, _)| e.index());
    let mut held = c.mask().iter();
    for (e, v) in &want {
        ensure_eq!(held.next(), Some(e.index()), "occupied indexes of kind {k}");
        ensure_eq!(c.get(*e).map(|c| c.val()), Some(*v), "component {k} of {e:?}");
    }
    ensure_eq!(held.next(), None, "occupied indexes of kind {k} after the last");
    let got = (&es, &c).join().map(|(e, c)| (e, c.val()));
    ensure!(got.eq(want.iter().copied()), "join of the entities with component {k}");
    for n in m.dead() {
        ensure!(
            c.get(m.all[n]).is_none() && !c.contains(m.all[n]),
            "{:?} is dead and has a component {k}",
            m.all[n]
        );
    }
    if let Some(mut s) = C::slice(w) {
        s.sort_unstable();
        let mut v: Vec<u32> = want.iter().map(|w| w.1).collect();
        v.sort_unstable();
        ensure!(s == v, "slice of component {k}");
    }
    if let Some(got) = C::modified(w) {
        let want: Vec<u32> =
            (0..m.modified[k].len() as u32).filter(|i| m.modified[k][*i as usize]).collect();
        ensure!(got == want, "modified indexes of component {k}: {} instead of {}", got.len(), want.len());
    }
    Ok(())
}

fn track<C: Comp>(w: &mut World, f: bool)
where
    C::Storage: RawStorage<Item = C> + Default + Send + Sync + 'static,
{
    C::track(w, f)
}

fn clear<C: Comp>(w: &mut World)
where
    C::Storage: RawStorage<Item = C> + Default + Send + Sync + 'static,
{
    C::clear(w)
}

fn check(c: &Case, cx: &mut Cx) -> R {
    let mut w = World::new();
    let mut m = Model {
        comps: vec![vec![]; KINDS],
        modified: vec![vec![]; KINDS],
        tracking: (0..KINDS).map(|k| k >= 3 && c.tracking >> k & 1 == 1).collect(),
        ..Model::default()
    };
    for k in 0..KINDS {
        by_k!(k, register(&mut w));
        by_k!(k, track(&mut w, c.tracking >> k & 1 == 1));
    }
    let (mut killed, mut stripped) = (0, 0);
    for (n, op) in c.ops.iter().enumerate() {
        let res = (|| -> R {
            match *op {
                Op::Create(bits, more, atomic) => {
                    for _ in 0..((1usize << bits) + more as usize).min(140_000usize.saturating_sub(m.all.len())) {
                        let e = if atomic { w.entities().create() } else { w.create_entity() };
                        m.add(e);
                    }
                }
                Op::Insert(k, s) => {
                    let ns = s.of(&m.living());
                    by_k!(k, insert(&w, &mut m, k as usize, &ns))?;
                }
                Op::Remove(k, s) => {
                    let ns = s.of(&m.living());
                    by_k!(k, remove(&w, &mut m, k as usize, &ns))?;
                }
                Op::Write(k, s) => {
                    let ns = s.of(&m.living());
                    by_k!(k, write(&mut w, &mut m, k as usize, &ns))?;
                }
                Op::DeleteNow(s) => {
                    for n in s.of(&m.living()) {
                        ensure!(w.delete_entity(m.all[n]).is_ok(), "{:?} could not be deleted", m.all[n]);
                        killed += 1;
                        stripped += m.comps.iter().any(|c| c[n] != 0) as usize;
                        m.die(n);
                    }
                }
                Op::DeleteLater(s) => {
                    for n in s.of(&m.living()) {
                        let es = w.entities();
                        ensure!(es.delete(m.all[n]).is_ok(), "{:?} could not be deleted", m.all[n]);
                        m.pending[n] = true;
                    }
                }
                Op::Merge => {
                    w.merge();
                    for n in 0..m.all.len() {
                        if m.pending[n] {
                            killed += 1;
                            stripped += m.comps.iter().any(|c| c[n] != 0) as usize;
                            m.die(n);
                        }
                    }
                }
                Op::Track(k, f) => {
                    by_k!(k, track(&mut w, f));
                    m.tracking[k as usize] = k >= 3 && f;
                }
                Op::Clear(k) => {
                    by_k!(k, clear(&mut w));
                    m.modified[k as usize].iter_mut().for_each(|b| *b = false);
                }
                Op::Register(k) => {
                    by_k!(k, register(&mut w));
                    let k = k as usize;
                    m.comps[k].iter_mut().for_each(|v| *v = 0);
                    m.modified[k].iter_mut().for_each(|b| *b = false);
                    m.tracking[k] = false;
                }
                Op::Stale(k, s) => {
                    let ns = s.of(&m.dead());
                    by_k!(k, stale(&w, &m, &ns))?;
                }
            }
            let es = w.entities();
            for (e, alive) in m.all.iter().zip(&m.alive) {
                ensure_eq!(es.is_alive(*e), *alive, "whether {e:?} is alive");
            }
            for k in 0..KINDS {
                by_k!(k, compare(&w, &m, k))?;
            }
            Ok(())
        })();
        res.map_err(|e| format!("operation {n} ({op:?}): {e}"))?;
    }
    cx.label_if(m.all.len() > 1 << 16, "more than 2^16 entities");
    cx.label_if(stripped > 4096, "more than 4096 entities deleted with components");
    cx.nontrivial_if(killed > 64 && stripped > 64);
    Ok(())
}

pub fn leg(quick: u64, thorough: u64) -> Leg {
    Leg::new(
        "large",
        "bulk operations on a world of up to 140000 entities with 5 types of components; everything is compared after each; non-trivial: more than 64 entities deleted with components",
        (quick, thorough),
        case,
        check,
    )
}
