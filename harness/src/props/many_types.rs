//! W01, W02, W03, S02, R01: worlds of dozens of component and resource types, for what depends on
//! how many there are.

use std::{
    collections::{BTreeMap, BTreeSet},
    marker::PhantomData,
};

use goggles::{
    AnyCloneComponentSet, AnyComponentSet, Component, DenseVecStorage, Entity, Flagged,
    HashMapStorage, IntoJoinExt, VecStorage, World,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::{
    own::Own,
    tok::{self, Tok},
    val::{Huge, Val, Zst},
};
use crate::engine::{Cx, Leg, R};

macro_rules! kind {
    ($name:ident, $storage:ty) => {
        #[derive(Clone)]
        struct $name<const K: usize>(Tok);
        impl<const K: usize> Component for $name<K> {
            type Storage = $storage;
        }
        impl<const K: usize> Comp for $name<K> {
            fn of(v: u32) -> Self {
                Self(Tok::new(v))
            }
            fn val(&self) -> u32 {
                self.0.val()
            }
        }
    };
}

kind!(Vc, VecStorage<Self>);
kind!(Dn, DenseVecStorage<Self>);
kind!(Hs, HashMapStorage<Self>);
kind!(Ow, Own<Self>);
kind!(Fl, Flagged<VecStorage<Self>>);

/// Values whose drops are of no interest, and may be seen to be.
macro_rules! plain {
    ($name:ident, $value:ty, $storage:ty) => {
        #[derive(Clone)]
        struct $name<const K: usize>($value);
        impl<const K: usize> Component for $name<K> {
            type Storage = $storage;
        }
        impl<const K: usize> Comp for $name<K> {
            const COUNTED: bool = false;
            fn of(v: u32) -> Self {
                Self(Val::make(v))
            }
            fn val(&self) -> u32 {
                self.0.num()
            }
            fn fits(v: u32) -> u32 {
                <$value as Val>::fits(v)
            }
        }
    };
}

plain!(Mark, Zst, VecStorage<Self>);
plain!(DenseMark, Zst, DenseVecStorage<Self>);
plain!(Byte, u8, DenseVecStorage<Self>);
plain!(Word, u64, Flagged<HashMapStorage<Self>>);
plain!(Block, Huge, VecStorage<Self>);

trait Comp: Component + Clone + Send + Sync + 'static {
    /// Whether its values are counted.
    const COUNTED: bool = true;
    fn of(v: u32) -> Self;
    fn val(&self) -> u32;
    fn fits(v: u32) -> u32 {
        v
    }
}

type Contents = BTreeMap<u32, u32>;

/// What can be done with one of the types.
trait Type: Sync {
    fn counted(&self) -> bool;
    fn fits(&self, v: u32) -> u32;
    fn register(&self, w: &mut World) -> Option<Contents>;
    fn unregister(&self, w: &mut World) -> Option<Contents>;
    fn registered(&self, w: &World) -> bool;
    fn contents(&self, w: &World) -> Contents;
    fn insert(&self, w: &mut World, e: Entity, v: u32, how: bool) -> Option<Option<u32>>;
    fn remove(&self, w: &mut World, e: Entity) -> Option<Option<u32>>;
    fn get(&self, w: &World, e: Entity) -> (bool, Option<u32>);
    fn put(&self, w: &mut World, v: u32) -> Option<u32>;
    fn take(&self, w: &mut World) -> Option<u32>;
    fn resource(&self, w: &World) -> Option<u32>;
    fn set_insert(&self, s: &mut AnyComponentSet, v: u32) -> Option<u32>;
    fn set_remove(&self, s: &mut AnyComponentSet) -> Option<u32>;
    fn set_get(&self, s: &AnyComponentSet) -> Option<u32>;
    fn clone_insert(&self, s: &mut AnyCloneComponentSet, v: u32) -> Option<u32>;
    fn clone_get(&self, s: &AnyCloneComponentSet) -> Option<u32>;
}

struct Of<T>(PhantomData<fn() -> T>);

fn list<T: Comp>(s: &goggles::MaskedStorage<T::Storage>) -> Contents {
    (s.mask(), s).join().map(|(i, c)| (i, c.val())).collect()
}

impl<T> Type for Of<T>
where
    T: Comp,
    T::Storage: Default + Send + Sync,
{
    fn counted(&self) -> bool {
        T::COUNTED
    }
    fn fits(&self, v: u32) -> u32 {
        T::fits(v)
    }
    fn register(&self, w: &mut World) -> Option<Contents> {
        w.insert_component::<T>().map(|s| list::<T>(&s))
    }
    fn unregister(&self, w: &mut World) -> Option<Contents> {
        w.remove_component::<T>().map(|s| list::<T>(&s))
    }
    fn registered(&self, w: &World) -> bool {
        w.contains_component::<T>()
    }
    fn contents(&self, w: &World) -> Contents {
        list::<T>(w.read_component::<T>().storage())
    }
    fn insert(&self, w: &mut World, e: Entity, v: u32, how: bool) -> Option<Option<u32>> {
        let r = if how {
            w.write_component::<T>().insert(e, T::of(v))
        } else {
            w.get_component_mut::<T>().insert(e, T::of(v))
        };
        r.ok().map(|c| c.map(|c| c.val()))
    }
    fn remove(&self, w: &mut World, e: Entity) -> Option<Option<u32>> {
        let r = w.write_component::<T>().remove(e);
        r.ok().map(|c| c.map(|c| c.val()))
    }
    fn get(&self, w: &World, e: Entity) -> (bool, Option<u32>) {
        let s = w.read_component::<T>();
        (s.contains(e), s.get(e).map(|c| c.val()))
    }
    fn put(&self, w: &mut World, v: u32) -> Option<u32> {
        w.insert_resource(T::of(v)).map(|r| r.val())
    }
    fn take(&self, w: &mut World) -> Option<u32> {
        w.remove_resource::<T>().map(|r| r.val())
    }
    fn resource(&self, w: &World) -> Option<u32> {
        w.contains_resource::<T>().then(|| w.read_resource::<T>().val())
    }
    fn set_insert(&self, s: &mut AnyComponentSet, v: u32) -> Option<u32> {
        s.insert(T::of(v)).map(|c| c.val())
    }
    fn set_remove(&self, s: &mut AnyComponentSet) -> Option<u32> {
        s.remove::<T>().map(|c| c.val())
    }
    fn set_get(&self, s: &AnyComponentSet) -> Option<u32> {
        let v = s.get::<T>().map(|c| c.val());
        (s.contains::<T>() == v.is_some()).then_some(v).unwrap_or(Some(u32::MAX))
    }
    fn clone_insert(&self, s: &mut AnyCloneComponentSet, v: u32) -> Option<u32> {
        s.insert(T::of(v)).map(|c| c.val())
    }
    fn clone_get(&self, s: &AnyCloneComponentSet) -> Option<u32> {
        s.get::<T>().map(|c| c.val())
    }
}

macro_rules! types {
    ($($k:literal)*) => {
        const TYPES: &[&'static dyn Type] = &[
            $(&Of::<Vc<$k>>(PhantomData), &Of::<Dn<$k>>(PhantomData),
              &Of::<Hs<$k>>(PhantomData), &Of::<Fl<$k>>(PhantomData),
              &Of::<Ow<$k>>(PhantomData), &Of::<Mark<$k>>(PhantomData),
              &Of::<DenseMark<$k>>(PhantomData), &Of::<Byte<$k>>(PhantomData),
              &Of::<Word<$k>>(PhantomData), &Of::<Block<$k>>(PhantomData),)*
        ];
    };
}

types! { 0 1 2 3 4 }

/// `len` types from `from` on, round the end, every `step`th.
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub struct Range {
    from: u8,
    len: u8,
    step: u8,
}

impl Range {
    fn of(self, n: usize) -> impl Iterator<Item = usize> {
        (0..self.len as usize).map(move |i| (self.from as usize + i * self.step as usize) % n)
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    Register(Range),
    Unregister(Range),
    Create(u8, bool),
    Insert(Range, u8, bool),
    Remove(Range, u8),
    Delete(u8),
    DeleteLater(u8),
    Merge,
    Put(Range),
    Take(Range),
    /// A set with these, without those, with others merged over it, applied to an entity; copied
    /// from a cloneable one, or such a one itself.
    Apply {
        with: Vec<Range>,
        without: Range,
        over: Range,
        to: u8,
        how: u8,
    },
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    types: u8,
    ops: Vec<Op>,
}

fn case() -> impl Strategy<Value = Case> {
    let range = || {
        (
            any::<u8>(),
            prop_oneof![2 => 1u8..3, 2 => 3u8..12, 1 => 12u8..64],
            prop_oneof![3 => Just(1u8), 1 => 2u8..9],
        )
            .prop_map(|(from, len, step)| Range { from, len, step })
    };
    let e = || any::<u8>();
    let op = prop_oneof![
        2 => range().prop_map(Op::Register),
        1 => range().prop_map(Op::Unregister),
        2 => (1u8..6, any::<bool>()).prop_map(|(n, a)| Op::Create(n, a)),
        5 => (range(), e(), any::<bool>()).prop_map(|(r, e, h)| Op::Insert(r, e, h)),
        2 => (range(), e()).prop_map(|(r, e)| Op::Remove(r, e)),
        2 => e().prop_map(Op::Delete),
        2 => e().prop_map(Op::DeleteLater),
        2 => Just(Op::Merge),
        2 => range().prop_map(Op::Put),
        1 => range().prop_map(Op::Take),
        3 => (prop::collection::vec(range(), 0..5), range(), range(), e(), 0u8..12).prop_map(
            |(with, without, over, to, how)| Op::Apply { with, without, over, to, how }
        ),
    ];
    (1..=TYPES.len() as u8, any::<u8>(), prop::collection::vec(op, 4..30)).prop_map(
        |(types, first, mut ops)| {
            ops.insert(0, Op::Create(3, first % 2 == 0));
            if first % 8 > 0 {
                // Mostly all registered.
                let all = Range { from: first, len: types, step: 1 };
                ops.insert(0, Op::Register(all));
            }
            Case { types, ops }
        },
    )
}

/// Whose business a difference is.
pub const W01: u8 = 1;
pub const W02: u8 = 2;
pub const W03: u8 = 4;
pub const S02: u8 = 8;
pub const R01: u8 = 16;

type Res = Result<(), (u8, String)>;

fn same<T: PartialEq + std::fmt::Debug>(whose: u8, got: T, want: T, what: impl FnOnce() -> String) -> Res {
    if got == want {
        Ok(())
    } else {
        Err((whose, format!("{}: got {got:?}, expected {want:?}", what())))
    }
}

struct Model {
    w: World,
    types: usize,
    stores: Vec<Option<Contents>>,
    resources: Vec<Option<u32>>,
    made: Vec<Entity>,
    live: BTreeMap<u32, Entity>,
    pending: BTreeSet<u32>,
    next: u32,
    most_deleted: usize,
    most_applied: usize,
}

impl Model {
    fn pick(&self, i: u8) -> Option<Entity> {
        // The later ones more often.
        let n = self.made.len().min(64);
        (n > 0).then(|| self.made[self.made.len() - 1 - (i as usize * n / 256)])
    }

    fn is_live(&self, e: Entity) -> bool {
        self.live.get(&e.index()) == Some(&e)
    }

    fn gone(&mut self, i: u32) {
        self.live.remove(&i);
        self.pending.remove(&i);
        let n = self.stores.iter_mut().flatten().filter_map(|s| s.remove(&i)).count();
        self.most_deleted = self.most_deleted.max(n);
    }

    fn val(&mut self, k: usize) -> u32 {
        self.next += 1;
        TYPES[k].fits(self.next)
    }

    fn step(&mut self, op: &Op) -> Res {
        let n = self.types;
        match op {
            Op::Register(r) => {
                for k in r.of(n) {
                    let got = TYPES[k].register(&mut self.w);
                    let want = self.stores[k].replace(Contents::new());
                    same(W02 | R01, got, want, || format!("what registering type {k} hands back"))?;
                }
            }
            Op::Unregister(r) => {
                for k in r.of(n) {
                    let got = TYPES[k].unregister(&mut self.w);
                    let want = self.stores[k].take();
                    same(W02 | R01, got, want, || format!("what unregistering type {k} hands back"))?;
                }
            }
            Op::Create(count, atomic) => {
                for _ in 0..*count {
                    let e = if *atomic {
                        self.w.entities().create()
                    } else {
                        self.w.create_entity()
                    };
                    self.made.push(e);
                    self.live.insert(e.index(), e);
                    for k in (0..n).filter(|k| self.stores[*k].is_some()) {
                        same(W01, TYPES[k].get(&self.w, e), (false, None), || {
                            format!("component of type {k} of the new {e:?}")
                        })?;
                    }
                }
            }
            Op::Insert(r, e, how) => {
                let Some(e) = self.pick(*e) else { return Ok(()) };
                for k in r.of(n) {
                    let v = self.val(k);
                    let live = self.is_live(e);
                    let Some(m) = &mut self.stores[k] else { continue };
                    let got = TYPES[k].insert(&mut self.w, e, v, *how);
                    let want = live.then(|| m.insert(e.index(), v));
                    same(W01, got, want, || format!("inserting type {k} at {e:?}"))?;
                }
            }
            Op::Remove(r, e) => {
                let Some(e) = self.pick(*e) else { return Ok(()) };
                for k in r.of(n) {
                    let live = self.is_live(e);
                    let Some(m) = &mut self.stores[k] else { continue };
                    let got = TYPES[k].remove(&mut self.w, e);
                    let want = live.then(|| m.remove(&e.index()));
                    same(W01, got, want, || format!("removing type {k} at {e:?}"))?;
                }
            }
            Op::Delete(e) => {
                let Some(e) = self.pick(*e) else { return Ok(()) };
                let live = self.is_live(e);
                same(0, self.w.delete_entity(e).is_ok(), live, || format!("deleting {e:?}"))?;
                if live {
                    self.gone(e.index());
                }
            }
            Op::DeleteLater(e) => {
                let Some(e) = self.pick(*e) else { return Ok(()) };
                let live = self.is_live(e);
                same(0, self.w.entities().delete(e).is_ok(), live, || format!("deleting {e:?}"))?;
                if live {
                    self.pending.insert(e.index());
                }
            }
            Op::Merge => {
                self.w.merge();
                for i in std::mem::take(&mut self.pending) {
                    self.gone(i);
                }
            }
            Op::Put(r) => {
                for k in r.of(n) {
                    let v = self.val(k);
                    let got = TYPES[k].put(&mut self.w, v);
                    let want = self.resources[k].replace(v);
                    same(R01, got, want, || format!("inserting a resource of type {k}"))?;
                }
            }
            Op::Take(r) => {
                for k in r.of(n) {
                    let got = TYPES[k].take(&mut self.w);
                    let want = self.resources[k].take();
                    same(R01, got, want, || format!("removing a resource of type {k}"))?;
                }
            }
            Op::Apply { with, without, over, to, how } => {
                let Some(e) = self.pick(*to) else { return Ok(()) };
                self.apply(with, *without, *over, e, *how)?;
            }
        }
        self.full()
    }

    fn apply(&mut self, with: &[Range], without: Range, over: Range, e: Entity, how: u8) -> Res {
        let n = self.types;
        let there = |s: &[Option<Contents>], k: &usize| s[*k].is_some();
        let mut m: BTreeMap<usize, u32> = BTreeMap::new();
        let mut set = AnyComponentSet::new();
        let mut from = AnyCloneComponentSet::new();
        let cloned = how % 3 > 0;
        for k in with.iter().flat_map(|r| r.of(n)).collect::<Vec<_>>() {
            if !there(&self.stores, &k) {
                continue;
            }
            let v = self.val(k);
            let got = if cloned {
                TYPES[k].clone_insert(&mut from, v)
            } else {
                TYPES[k].set_insert(&mut set, v)
            };
            same(W03, got, m.insert(k, v), || format!("inserting type {k} into a set"))?;
        }
        if how % 3 == 1 {
            // Over one that has some of them.
            let mut m2 = BTreeMap::new();
            let mut both = false;
            for k in over.of(n).filter(|k| there(&self.stores, k)).collect::<Vec<_>>() {
                let v = self.val(k);
                TYPES[k].set_insert(&mut set, v);
                m2.insert(k, v);
                both |= m.contains_key(&k);
            }
            same(W03, from.clone_into_set(&mut set), both, || "copying a set".into())?;
            for (k, v) in &m {
                same(W03, TYPES[*k].clone_get(&from), Some(*v), || {
                    format!("type {k} in the set copied from")
                })?;
            }
            m2.extend(m);
            m = m2;
        } else if how >= 6 {
            let mut m2 = BTreeMap::new();
            let (mut set2, mut from2) = (AnyComponentSet::new(), AnyCloneComponentSet::new());
            let mut both = false;
            for k in over.of(n).filter(|k| there(&self.stores, k)).collect::<Vec<_>>() {
                let v = self.val(k);
                if cloned {
                    TYPES[k].clone_insert(&mut from2, v);
                } else {
                    TYPES[k].set_insert(&mut set2, v);
                }
                m2.insert(k, v);
                both |= m.contains_key(&k);
            }
            let got = if cloned { from.merge(from2) } else { set.merge(set2) };
            same(W03, got, both, || "merging sets".into())?;
            m.extend(m2);
        }
        let by_clone = how % 3 == 2;
        if !by_clone {
            for k in without.of(n).take(3) {
                same(W03, TYPES[k].set_remove(&mut set), m.remove(&k), || {
                    format!("removing type {k} from a set")
                })?;
            }
            same(W03, set.len(), m.len(), || "size of a set".into())?;
        }
        for k in 0..n {
            let got = if by_clone { TYPES[k].clone_get(&from) } else { TYPES[k].set_get(&set) };
            same(W03, got, m.get(&k).copied(), || format!("type {k} in a set"))?;
        }
        let live = self.is_live(e);
        let mut want = Some(false);
        if live {
            self.most_applied = self.most_applied.max(m.len());
            for (k, v) in &m {
                let s = self.stores[*k].as_mut().unwrap();
                if s.insert(e.index(), *v).is_some() {
                    want = Some(true);
                }
            }
        } else if !m.is_empty() {
            want = None;
        }
        let got = if by_clone {
            let got = from.insert_into_world(&mut self.w, e).ok();
            for k in 0..n {
                same(W03, TYPES[k].clone_get(&from), m.get(&k).copied(), || {
                    format!("type {k} in a cloneable set that was applied")
                })?;
            }
            got
        } else {
            set.insert_into_world(&mut self.w, e).ok()
        };
        same(W03, got, want, || format!("applying a set of {} to {e:?}, live {live}", m.len()))?;
        for (k, s) in self.stores.iter().enumerate() {
            if let Some(s) = s {
                same(W03, &TYPES[k].contents(&self.w), s, || {
                    format!("storage of type {k} after applying a set to {e:?}")
                })?;
            }
        }
        Ok(())
    }

    fn full(&self) -> Res {
        for k in 0..self.types {
            same(W02 | R01, TYPES[k].registered(&self.w), self.stores[k].is_some(), || {
                format!("type {k} is registered")
            })?;
            same(R01, TYPES[k].resource(&self.w), self.resources[k], || {
                format!("resource of type {k}")
            })?;
            let Some(s) = &self.stores[k] else { continue };
            // What is left behind is the next entity's.
            same(W01 | W02, &TYPES[k].contents(&self.w), s, || format!("storage of type {k}"))?;
            for e in self.made.iter().rev().take(8) {
                let want = if self.is_live(*e) { s.get(&e.index()).copied() } else { None };
                same(W01, TYPES[k].get(&self.w, *e), (want.is_some(), want), || {
                    format!("component of type {k} of {e:?}")
                })?;
            }
        }
        let counted = |k: &usize| TYPES[*k].counted();
        let want = (0..self.types)
            .filter(counted)
            .map(|k| self.stores[k].as_ref().map_or(0, |s| s.len()) + self.resources[k].is_some() as usize)
            .sum::<usize>();
        same(S02, tok::live_count(), want, || "number of values that exist".into())?;
        same(S02, tok::first_error(), None, || "misuse of a value".into())
    }
}

fn run(whose: u8, c: &Case, cx: &mut Cx) -> R {
    tok::reset();
    let n = c.types as usize;
    let mut m = Model {
        w: World::new(),
        types: n,
        stores: vec![None; n],
        resources: vec![None; n],
        made: vec![],
        live: BTreeMap::new(),
        pending: BTreeSet::new(),
        next: 0,
        most_deleted: 0,
        most_applied: 0,
    };
    for (i, op) in c.ops.iter().enumerate() {
        match m.step(op) {
            Ok(()) => {}
            Err((w, e)) if w & whose != 0 => return Err(format!("operation {i} ({op:?}): {e}")),
            // Some other property's business; this one cannot be judged any further.
            Err(_) => {
                cx.label("stopped");
                return Ok(());
            }
        }
    }
    let registered = m.stores.iter().flatten().count();
    let resources = m.resources.iter().flatten().count();
    cx.label_if(registered > 16, "over 16 component types registered");
    cx.label_if(resources > 16, "over 16 resources");
    cx.label_if(m.most_deleted > 16, "an entity with over 16 components deleted");
    cx.label_if(m.most_applied > 8, "a set of over 8 applied");
    cx.nontrivial_if(registered > 8 && m.most_deleted + m.most_applied > 2);
    drop(m);
    if whose & S02 != 0 {
        if tok::live_count() > 0 {
            return Err(format!("{} values left after the world was dropped", tok::live_count()));
        }
        if let Some(e) = tok::first_error() {
            return Err(format!("dropping the world: {e}"));
        }
    }
    Ok(())
}

pub fn leg(whose: u8, quick: u64) -> Leg {
    Leg::new(
        "many types",
        "a world with up to 50 component types, each a resource type too: registered, filled, deleted \
         from, merged and given sets of components in runs of types, all compared after each step; \
         non-trivial: over 8 registered, and an entity with some components was deleted or a set applied",
        (quick, quick * 40),
        case,
        move |c: &Case, cx: &mut Cx| run(whose, c, cx),
    )
}
