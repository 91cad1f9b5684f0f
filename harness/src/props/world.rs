//! W01, W02, W03 and the world's side of S02, S04 and R01: histories of one world against a model.

use std::{
    collections::{BTreeMap, BTreeSet},
    ops::{Deref, DerefMut},
};

use goggles::{
    entity::Allocator,
    hibitset::BitSetLike,
    world::ComponentAccess,
    world_common::ComponentStorage,
    AnyCloneComponentSet, AnyComponentSet, Component, DenseVecStorage, Entities, Entity, Flagged,
    HashMapStorage, IntoJoinExt, RawStorage, ReadComponent, ReadResource, VecStorage, World,
    WriteComponent, WriteResource,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::tok::{self, Tok};
use crate::engine::{catching, lax, Cx, Leg, Mode, Prop, R};

/// Which property a case is run for. A discrepancy that is another property's ends the case.
pub type J = u8;
pub const W01: J = 1;
pub const W02: J = 2;
pub const W03: J = 4;
pub const S02: J = 8;
pub const S04: J = 16;
pub const R01: J = 32;
/// None of them, but with all their operations.
pub const MEM: J = 64;

enum Stop {
    Fail(String),
    Other,
}

type X = Result<(), Stop>;

macro_rules! chk {
    ($j:expr, $of:expr, $c:expr, $($fmt:tt)+) => {
        if !$c {
            return Err(if $j & ($of) != 0 { Stop::Fail(format!($($fmt)+)) } else { Stop::Other });
        }
    };
}

macro_rules! chk_eq {
    ($j:expr, $of:expr, $a:expr, $b:expr, $($fmt:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b {
            return Err(if $j & ($of) != 0 {
                Stop::Fail(format!("{}: got {:?}, expected {:?}", format!($($fmt)+), a, b))
            } else {
                Stop::Other
            });
        }
    }};
}

pub const K: usize = 6;
const TRACKED: [bool; K] = [false, false, false, true, true, true];

#[derive(Clone, Default, Debug)]
pub struct C<const N: usize>(pub Tok);

impl Component for C<0> {
    type Storage = VecStorage<Self>;
}
impl Component for C<1> {
    type Storage = DenseVecStorage<Self>;
}
impl Component for C<2> {
    type Storage = HashMapStorage<Self>;
}
impl Component for C<3> {
    type Storage = Flagged<VecStorage<Self>>;
}
impl Component for C<4> {
    type Storage = Flagged<DenseVecStorage<Self>>;
}
impl Component for C<5> {
    type Storage = Flagged<HashMapStorage<Self>>;
}

trait Comp: Component + Clone + Default + Send + Sync + 'static
where
    Self::Storage: RawStorage<Item = Self> + Default + Send + Sync + 'static,
{
    const N: usize;
    fn new(v: u32) -> Self;
    fn val(&self) -> u32;
    fn slice<R: Deref<Target = ComponentStorage<Self>>>(
        _: &ComponentAccess<Self, R>,
    ) -> Option<Vec<u32>> {
        None
    }
    /// Adds so much to every value, through the slice; whether there is one.
    fn slice_add<R: DerefMut<Target = ComponentStorage<Self>>>(
        _: &mut ComponentAccess<Self, R>,
        _: u32,
    ) -> bool {
        false
    }
    fn track<R: DerefMut<Target = ComponentStorage<Self>>>(_: &mut ComponentAccess<Self, R>, _: bool) {}
    fn clear<R: DerefMut<Target = ComponentStorage<Self>>>(_: &mut ComponentAccess<Self, R>) {}
    fn mark<R: Deref<Target = ComponentStorage<Self>>>(
        _: &ComponentAccess<Self, R>,
        _: Entity,
    ) -> Option<bool> {
        None
    }
    /// Tracking, the modified indexes, and the values of the join over them.
    fn modified<R: Deref<Target = ComponentStorage<Self>>>(
        _: &ComponentAccess<Self, R>,
    ) -> Option<(bool, Vec<u32>, Vec<Option<u32>>)> {
        None
    }
    fn guard_mark<R: DerefMut<Target = ComponentStorage<Self>>>(
        _: &mut ComponentAccess<Self, R>,
        _: Entity,
    ) -> Option<bool> {
        None
    }
    fn modified_write<R: DerefMut<Target = ComponentStorage<Self>>>(
        _: &mut ComponentAccess<Self, R>,
        _: u32,
    ) {
    }
}

macro_rules! comp {
    ($n:literal, $($extra:tt)*) => {
        impl Comp for C<$n> {
            const N: usize = $n;
            fn new(v: u32) -> Self {
                C(Tok::new(v))
            }
            fn val(&self) -> u32 {
                self.0.val()
            }
            $($extra)*
        }
    };
}

macro_rules! tracked {
    ($n:literal) => {
        comp!($n,
            fn track<R: DerefMut<Target = ComponentStorage<Self>>>(a: &mut ComponentAccess<Self, R>, f: bool) {
                a.set_track_modified(f)
            }
            fn clear<R: DerefMut<Target = ComponentStorage<Self>>>(a: &mut ComponentAccess<Self, R>) {
                a.clear_modified()
            }
            fn mark<R: Deref<Target = ComponentStorage<Self>>>(
                a: &ComponentAccess<Self, R>,
                e: Entity,
            ) -> Option<bool> {
                Some(a.mark_modified(e).is_ok())
            }
            fn modified<R: Deref<Target = ComponentStorage<Self>>>(
                a: &ComponentAccess<Self, R>,
            ) -> Option<(bool, Vec<u32>, Vec<Option<u32>>)> {
                Some((
                    a.tracking_modified(),
                    a.modified_indexes().iter().collect(),
                    a.modified().join().map(|v| v.map(|v| v.val())).collect(),
                ))
            }
            fn guard_mark<R: DerefMut<Target = ComponentStorage<Self>>>(
                a: &mut ComponentAccess<Self, R>,
                e: Entity,
            ) -> Option<bool> {
                Some(a.get_guard(e).map(|g| g.mark_modified()).is_some())
            }
            fn modified_write<R: DerefMut<Target = ComponentStorage<Self>>>(
                a: &mut ComponentAccess<Self, R>,
                v: u32,
            ) {
                for c in a.modified_mut().join().flatten() {
                    *c = Self::new(v);
                }
            }
        );
    };
}

comp!(0,);
comp!(1,
    fn slice<R: Deref<Target = ComponentStorage<Self>>>(
        a: &ComponentAccess<Self, R>,
    ) -> Option<Vec<u32>> {
        Some(a.as_slice().iter().map(|c| c.val()).collect())
    }
    fn slice_add<R: DerefMut<Target = ComponentStorage<Self>>>(
        a: &mut ComponentAccess<Self, R>,
        by: u32,
    ) -> bool {
        for c in a.as_mut_slice() {
            *c = Self::new(c.val().wrapping_add(by));
        }
        true
    }
);
comp!(2,);
tracked!(3);
tracked!(4);
tracked!(5);

macro_rules! by_k {
    ($k:expr, $f:ident ( $($a:expr),* $(,)? )) => {
        match $k as usize % K {
            0 => $f::<C<0>>($($a),*),
            1 => $f::<C<1>>($($a),*),
            2 => $f::<C<2>>($($a),*),
            3 => $f::<C<3>>($($a),*),
            4 => $f::<C<4>>($($a),*),
            _ => $f::<C<5>>($($a),*),
        }
    };
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub enum Pick {
    Live(u8),
    Pending(u8),
    Dead(u8),
    Stale(u8),
    Foreign(u8),
    Last,
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub enum Act {
    Contains,
    Get,
    Write,
    GuardRead,
    GuardWrite,
    GuardMark,
    /// Through the storage behind the access.
    StorageWrite,
    GetOrInsert,
    GetOrDefault,
    GetOrInsertPanic,
    Insert,
    Remove,
    Mark,
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    Create,
    CreateAtomic,
    Delete(Pick),
    Request(Pick),
    Merge,
    /// The same, with a component's destructor panicking.
    DeletePanic(Pick, u8),
    MergePanic(u8),
    Register(u8),
    Unregister(u8),
    DropHeld,
    /// Access mode, component, entity.
    Access(u8, u8, Pick, Act),
    JoinWrite(u8),
    /// By guards, writing to every n-th only.
    GuardJoinWrite(u8, u8),
    SliceWrite(u8),
    ModifiedWrite(u8),
    Track(u8, bool),
    ClearModified(u8),
    ResInsert(u8),
    ResRemove(u8),
    ResWrite(u8),
    SetInsert(u8, u8),
    SetRemove(u8, u8),
    SetWrite(u8, u8),
    SetMerge(u8),
    SetApply(u8, Pick),
    SetDrop(u8),
    CloneInsert(u8, u8),
    CloneWrite(u8, u8),
    CloneMerge(u8),
    CloneApply(u8, Pick),
    CloneInto(u8, u8),
    CloneDrop(u8),
    Full,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    /// Which component types are registered at first, by bit.
    registered: u8,
    entities: u8,
    ops: Vec<Op>,
}

fn pick() -> impl Strategy<Value = Pick> {
    prop_oneof![
        8 => any::<u8>().prop_map(Pick::Live),
        3 => any::<u8>().prop_map(Pick::Pending),
        1 => any::<u8>().prop_map(Pick::Dead),
        3 => any::<u8>().prop_map(Pick::Stale),
        1 => any::<u8>().prop_map(Pick::Foreign),
        3 => Just(Pick::Last),
    ]
}

fn act() -> impl Strategy<Value = Act> {
    prop_oneof![
        1 => Just(Act::Contains),
        2 => Just(Act::Get),
        2 => Just(Act::Write),
        1 => Just(Act::GuardRead),
        2 => Just(Act::GuardWrite),
        1 => Just(Act::GuardMark),
        1 => Just(Act::StorageWrite),
        3 => Just(Act::GetOrInsert),
        1 => Just(Act::GetOrDefault),
        1 => Just(Act::GetOrInsertPanic),
        10 => Just(Act::Insert),
        4 => Just(Act::Remove),
        2 => Just(Act::Mark),
    ]
}

/// How often each kind of operation comes up, by what is being judged.
fn op(j: J) -> impl Strategy<Value = Op> {
    let j = if j == MEM { MEM - 1 } else { j };
    let k = || 0u8..K as u8;
    let s = || 0u8..2;
    let sets = if j & W03 != 0 {
        6
    } else if j & S02 != 0 {
        2
    } else {
        0
    };
    let regs = if j & (W02 | R01 | S02) != 0 { 3 } else { 1 };
    let res = if j & R01 != 0 {
        8
    } else if j & (W02 | S02) != 0 {
        2
    } else {
        0
    };
    let track = if j & S04 != 0 { 8 } else { 1 };
    let panics = if j & (W02 | S02 | S04) != 0 { 1 } else { 0 };
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (6, Just(Op::Create).boxed()),
        (5, Just(Op::CreateAtomic).boxed()),
        (6, pick().prop_map(Op::Delete).boxed()),
        (6, pick().prop_map(Op::Request).boxed()),
        (5, Just(Op::Merge).boxed()),
        (regs, k().prop_map(Op::Register).boxed()),
        (regs, k().prop_map(Op::Unregister).boxed()),
        (1, Just(Op::DropHeld).boxed()),
        (panics, (pick(), 1u8..5).prop_map(|(p, n)| Op::DeletePanic(p, n)).boxed()),
        (panics, (1u8..8).prop_map(Op::MergePanic).boxed()),
        (
            40,
            (0u8..4, k(), pick(), act())
                .prop_map(|(m, k, p, a)| Op::Access(m, k, p, a))
                .boxed(),
        ),
        (3, k().prop_map(Op::JoinWrite).boxed()),
        (2, (k(), 1u8..4).prop_map(|(k, n)| Op::GuardJoinWrite(k, n)).boxed()),
        (1, k().prop_map(Op::SliceWrite).boxed()),
        (track, k().prop_map(Op::ModifiedWrite).boxed()),
        (
            track,
            (k(), prop::bool::weighted(0.7))
                .prop_map(|(k, f)| Op::Track(k, f))
                .boxed(),
        ),
        (track, k().prop_map(Op::ClearModified).boxed()),
        (2, Just(Op::Full).boxed()),
    ];
    if res > 0 {
        v.push((res, any::<u8>().prop_map(Op::ResInsert).boxed()));
        v.push((res, any::<u8>().prop_map(Op::ResRemove).boxed()));
        v.push((res, any::<u8>().prop_map(Op::ResWrite).boxed()));
    }
    if sets > 0 {
        v.push((2 * sets, (s(), k()).prop_map(|(s, k)| Op::SetInsert(s, k)).boxed()));
        v.push((sets, (s(), k()).prop_map(|(s, k)| Op::SetRemove(s, k)).boxed()));
        v.push((sets, (s(), k()).prop_map(|(s, k)| Op::SetWrite(s, k)).boxed()));
        v.push((sets, s().prop_map(Op::SetMerge).boxed()));
        v.push((2 * sets, (s(), pick()).prop_map(|(s, p)| Op::SetApply(s, p)).boxed()));
        v.push((1, s().prop_map(Op::SetDrop).boxed()));
        v.push((2 * sets, (s(), k()).prop_map(|(s, k)| Op::CloneInsert(s, k)).boxed()));
        v.push((sets, (s(), k()).prop_map(|(s, k)| Op::CloneWrite(s, k)).boxed()));
        v.push((sets, s().prop_map(Op::CloneMerge).boxed()));
        v.push((2 * sets, (s(), pick()).prop_map(|(s, p)| Op::CloneApply(s, p)).boxed()));
        v.push((sets, (s(), s()).prop_map(|(a, b)| Op::CloneInto(a, b)).boxed()));
        v.push((1, s().prop_map(Op::CloneDrop).boxed()));
    }
    v.retain(|(w, _)| *w > 0);
    prop::strategy::Union::new_weighted(v)
}

fn case(j: J, max: usize) -> impl Strategy<Value = Case> {
    (
        prop_oneof![3 => Just(0x3fu8), 2 => any::<u8>()],
        prop_oneof![3 => 0u8..6, 1 => 60u8..70],
        prop::collection::vec(op(j), 1..max),
    )
        .prop_map(|(registered, entities, ops)| Case {
            registered,
            entities,
            ops,
        })
}

struct Rs<const N: usize>(Tok);

/// Resource types: plain ones, a component type, a component storage, and wrappers.
macro_rules! by_res {
    ($k:expr, $f:ident ( $($a:expr),* $(,)? )) => {
        match $k as usize % RES {
            0 => $f::<Rs<0>>($($a),*),
            1 => $f::<Rs<1>>($($a),*),
            2 => $f::<C<0>>($($a),*),
            3 => $f::<Wrap<Rs<0>>>($($a),*),
            4 => $f::<Wrap<C<0>>>($($a),*),
            5 => $f::<Option<Rs<0>>>($($a),*),
            _ => $f::<ComponentStorage<C<1>>>($($a),*),
        }
    };
}
const RES: usize = 7;

struct Wrap<T>(T);

trait Res: Send + Sync + 'static {
    fn new(v: u32) -> Self;
    fn val(&self) -> u32;
}
impl<const N: usize> Res for Rs<N> {
    fn new(v: u32) -> Self {
        Rs(Tok::new(v))
    }
    fn val(&self) -> u32 {
        self.0.val()
    }
}
impl Res for C<0> {
    fn new(v: u32) -> Self {
        C(Tok::new(v))
    }
    fn val(&self) -> u32 {
        self.0.val()
    }
}
impl<T: Res> Res for Wrap<T> {
    fn new(v: u32) -> Self {
        Wrap(T::new(v))
    }
    fn val(&self) -> u32 {
        self.0.val()
    }
}
impl<T: Res> Res for Option<T> {
    fn new(v: u32) -> Self {
        Some(T::new(v))
    }
    fn val(&self) -> u32 {
        self.as_ref().unwrap().val()
    }
}
impl Res for ComponentStorage<C<1>> {
    fn new(v: u32) -> Self {
        let mut s = Self::default();
        s.insert(v % 50, C(Tok::new(v)));
        s
    }
    fn val(&self) -> u32 {
        self.as_slice()[0].0.val()
    }
}

/// A storage handed back by the world.
trait Held {
    fn contents(&self) -> Vec<(u32, u32)>;
}
struct HeldBox<T: Comp>(ComponentStorage<T>)
where
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static;
impl<T: Comp> Held for HeldBox<T>
where
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
{
    fn contents(&self) -> Vec<(u32, u32)> {
        let s = &self.0;
        (s.mask(), s).join().map(|(i, c)| (i, c.val())).collect()
    }
}

#[derive(Default)]
struct Model {
    j: J,
    live: BTreeMap<u32, Entity>,
    pending: BTreeSet<u32>,
    dead: Vec<Entity>,
    last: Option<Entity>,
    registered: [bool; K],
    comps: [BTreeMap<u32, u32>; K],
    tracking: [bool; K],
    modified: [BTreeSet<u32>; K],
    res: [Option<u32>; RES],
    held: Vec<Vec<(u32, u32)>>,
    sets: [BTreeMap<u8, u32>; 2],
    clones: [BTreeMap<u8, u32>; 2],
    next: u32,
    refused: u32,
    recycled_with: u32,
    stripped: u32,
    panicked: u32,
}

struct Exec {
    w: World,
    m: Model,
    held: Vec<Box<dyn Held>>,
    sets: [AnyComponentSet; 2],
    clones: [AnyCloneComponentSet; 2],
    foreign: Vec<Entity>,
}

impl Model {
    fn is_live(&self, e: Entity) -> bool {
        self.live.get(&e.index()) == Some(&e)
    }
    fn touch(&mut self, k: usize, i: u32) {
        if TRACKED[k] && self.tracking[k] {
            self.modified[k].insert(i);
        }
    }
    fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    /// What the death of the entity at `i` does.
    fn die(&mut self, i: u32) {
        let e = self.live.remove(&i).unwrap();
        self.pending.remove(&i);
        self.dead.push(e);
        for k in 0..K {
            if self.registered[k] && self.comps[k].remove(&i).is_some() {
                self.touch(k, i);
                self.stripped += 1;
            }
        }
    }
}

/// The queries that any kind of access has.
fn look<T, R>(a: &ComponentAccess<T, R>, m: &Model, e: Entity) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
    R: Deref<Target = ComponentStorage<T>>,
{
    let want = if m.is_live(e) {
        m.comps[T::N].get(&e.index()).copied()
    } else {
        None
    };
    chk_eq!(m.j, W01, a.contains(e), want.is_some(), "component {}, contains({e:?})", T::N);
    chk_eq!(m.j, W01, a.get(e).map(|c| c.val()), want, "component {}, get({e:?})", T::N);
    Ok(())
}

fn mark<T, R>(a: &ComponentAccess<T, R>, m: &mut Model, e: Entity) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
    R: Deref<Target = ComponentStorage<T>>,
{
    if let Some(ok) = T::mark(a, e) {
        chk_eq!(m.j, W01, ok, m.is_live(e), "component {}, mark_modified({e:?}) accepted", T::N);
        if ok {
            m.modified[T::N].insert(e.index());
        }
    }
    Ok(())
}

fn change<T, R>(a: &mut ComponentAccess<T, R>, m: &mut Model, e: Entity, act: Act) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
    R: DerefMut<Target = ComponentStorage<T>>,
{
    let (k, i, live) = (T::N, e.index(), m.is_live(e));
    let old = if live { m.comps[k].get(&i).copied() } else { None };
    let v = m.fresh();
    let j = m.j;
    m.refused += !live as u32;
    match act {
        Act::Contains | Act::Get => {}
        Act::Write => {
            let got = a.get_mut(e).map(|c| {
                let o = c.val();
                *c = T::new(v);
                o
            });
            chk_eq!(j, W01, got, old, "component {k}, get_mut({e:?})");
            if got.is_some() {
                m.comps[k].insert(i, v);
                m.touch(k, i);
            }
        }
        Act::GuardRead => {
            let got = a.get_guard(e).map(|g| g.get().val());
            chk_eq!(j, W01, got, old, "component {k}, get_guard({e:?})");
        }
        Act::GuardWrite => {
            let got = a.get_guard(e).map(|mut g| {
                let c = g.get_mut();
                let o = c.val();
                *c = T::new(v);
                o
            });
            chk_eq!(j, W01, got, old, "component {k}, get_guard({e:?})");
            if got.is_some() {
                m.comps[k].insert(i, v);
                m.touch(k, i);
            }
        }
        Act::GuardMark => {
            if let Some(marked) = T::guard_mark(a, e) {
                chk_eq!(j, W01, marked, old.is_some(), "component {k}, get_guard({e:?})");
                if marked {
                    m.modified[k].insert(i);
                }
            }
        }
        Act::StorageWrite => {
            let there = m.comps[k].get(&i).copied();
            let read = a.storage().get(i).map(|c| c.val());
            chk_eq!(j, W01, read, there, "component {k}, storage().get({i})");
            let got = a.storage_mut().get_mut(i).map(|c| {
                let o = c.val();
                *c = T::new(v);
                o
            });
            chk_eq!(j, W01, got, there, "component {k}, storage_mut().get_mut({i})");
            if got.is_some() {
                m.comps[k].insert(i, v);
                m.touch(k, i);
            }
        }
        Act::GetOrInsert | Act::GetOrDefault => {
            tok::set_default(v);
            let got = if matches!(act, Act::GetOrInsert) {
                a.get_or_insert_with(e, || T::new(v))
            } else {
                a.get_or_default(e)
            };
            let got = got.map(|c| c.val()).ok();
            let want = live.then(|| old.unwrap_or(v));
            chk_eq!(j, W01, got, want, "component {k}, {act:?} of {e:?}");
            if live {
                m.comps[k].entry(i).or_insert(v);
                m.touch(k, i);
            }
        }
        Act::GetOrInsertPanic => {
            let got = catching(|| {
                a.get_or_insert_with(e, || panic!("closure told to panic"))
                    .map(|c| c.val())
                    .ok()
            });
            match got {
                Ok(v) => {
                    chk_eq!(j, W01, v, old, "component {k}, get_or_insert_with {e:?}");
                    if live {
                        m.touch(k, i);
                    }
                }
                Err(_) => {
                    chk!(j, W01, live && old.is_none(), "component {k}, the closure ran for {e:?}");
                }
            }
        }
        Act::Insert => {
            let got = a.insert(e, T::new(v)).map(|o| o.map(|c| c.val()));
            chk_eq!(j, W01, got.is_ok(), live, "component {k}, insert for {e:?} accepted");
            if let Ok(o) = got {
                chk_eq!(j, W01, o, old, "component {k}, insert for {e:?} gave back");
                m.comps[k].insert(i, v);
                m.touch(k, i);
            }
        }
        Act::Remove => {
            let got = a.remove(e).map(|o| o.map(|c| c.val()));
            chk_eq!(j, W01, got.is_ok(), live, "component {k}, remove from {e:?} accepted");
            if let Ok(o) = got {
                chk_eq!(j, W01, o, old, "component {k}, remove from {e:?}");
                if m.comps[k].remove(&i).is_some() {
                    m.touch(k, i);
                }
            }
        }
        Act::Mark => mark(a, m, e)?,
    }
    look(a, m, e)
}

fn access<T>(x: &mut Exec, mode: u8, e: Entity, act: Act) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
{
    let m = &mut x.m;
    if !m.registered[T::N] {
        let w = &mut x.w;
        let r = catching(|| match mode {
            0 => w.read_component::<T>().mask().len_hint(),
            1 => w.write_component::<T>().mask().len_hint(),
            2 => w.get_component_mut::<T>().mask().len_hint(),
            _ => {
                let (_, _a): (Entities, ReadComponent<T>) = w.fetch();
                0
            }
        });
        chk!(m.j, R01, r.is_err(), "component {} found although it is not registered", T::N);
        return Ok(());
    }
    match mode {
        0 => {
            let a = x.w.read_component::<T>();
            if matches!(act, Act::Mark) {
                mark(&a, m, e)?;
            }
            look(&a, m, e)
        }
        1 => change(&mut x.w.write_component::<T>(), m, e, act),
        2 => change(&mut x.w.get_component_mut::<T>(), m, e, act),
        _ => {
            let (es, mut a): (Entities, WriteComponent<T>) = x.w.fetch();
            chk_eq!(m.j, W01, es.is_alive(e), m.is_live(e), "is_alive({e:?})");
            change(&mut a, m, e, act)
        }
    }
}

trait LenHint {
    fn len_hint(&self) -> usize;
}
impl LenHint for goggles::hibitset::BitSet {
    fn len_hint(&self) -> usize {
        self.iter().count()
    }
}

fn register<T>(x: &mut Exec) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
{
    let had = x.m.registered[T::N];
    let old = x.w.insert_component::<T>();
    took_back::<T>(x, old, had)?;
    x.m.registered[T::N] = true;
    Ok(())
}

fn unregister<T>(x: &mut Exec) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
{
    let had = x.m.registered[T::N];
    let old = x.w.remove_component::<T>();
    took_back::<T>(x, old, had)?;
    x.m.registered[T::N] = false;
    Ok(())
}

fn took_back<T>(x: &mut Exec, old: Option<ComponentStorage<T>>, had: bool) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
{
    let m = &mut x.m;
    chk_eq!(m.j, W02 | R01, old.is_some(), had, "component {}, old storage handed back", T::N);
    let was = std::mem::take(&mut m.comps[T::N]);
    if let Some(s) = old {
        let want: Vec<(u32, u32)> = was.into_iter().collect();
        let s = HeldBox::<T>(s);
        chk_eq!(m.j, W02 | R01, s.contents(), want, "component {}, old storage's contents", T::N);
        m.held.push(want);
        x.held.push(Box::new(s));
    }
    m.tracking[T::N] = false;
    m.modified[T::N].clear();
    Ok(())
}

/// The whole state of one component type.
fn full<T>(x: &Exec) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
{
    let (w, m) = (&x.w, &x.m);
    let k = T::N;
    chk_eq!(m.j, R01 | W02, w.contains_component::<T>(), m.registered[k], "contains_component {k}");
    if !m.registered[k] {
        return Ok(());
    }
    let a = w.read_component::<T>();
    let mask: Vec<u32> = a.mask().iter().collect();
    for i in &mask {
        chk!(m.j, W02, m.live.contains_key(i), "component {k} at {i}, which no live entity has");
    }
    let want: Vec<u32> = m.comps[k].keys().copied().collect();
    chk_eq!(m.j, W01 | W02 | W03, mask, want, "component {k}, occupied indexes");
    let es = w.entities();
    let got: Vec<(Entity, u32)> = (&es, &a).join().map(|(e, c)| (e, c.val())).collect();
    let want: Vec<(Entity, u32)> = m.comps[k].iter().map(|(i, v)| (m.live[i], *v)).collect();
    chk_eq!(m.j, W01 | W02 | W03 | R01, got, want, "component {k}, joined with the entities");
    if let Some(mut s) = T::slice(&a) {
        s.sort();
        let mut want: Vec<u32> = m.comps[k].values().copied().collect();
        want.sort();
        chk_eq!(m.j, W01 | W02, s, want, "component {k}, slice (sorted)");
    }
    tracking::<T>(x)
}

fn tracking<T>(x: &Exec) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
{
    let (w, m) = (&x.w, &x.m);
    let k = T::N;
    if !m.registered[k] {
        return Ok(());
    }
    if let Some((on, idx, vals)) = T::modified(&w.read_component::<T>()) {
        chk_eq!(m.j, S04, on, m.tracking[k], "component {k}, tracking");
        let want: Vec<u32> = m.modified[k].iter().copied().collect();
        chk_eq!(m.j, S04, idx, want, "component {k}, modified indexes");
        let want: Vec<Option<u32>> = m.modified[k]
            .iter()
            .map(|i| m.comps[k].get(i).copied())
            .collect();
        chk_eq!(m.j, S04, vals, want, "component {k}, join over modified");
    }
    Ok(())
}

/// What the indicated entity has, by looking only at it.
fn peek<T>(w: &World, m: &Model, e: Entity) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
{
    if m.registered[T::N] {
        look(&w.read_component::<T>(), m, e)?;
    }
    Ok(())
}

fn join_write<T>(x: &mut Exec) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
{
    let m = &mut x.m;
    if !m.registered[T::N] {
        return Ok(());
    }
    let (es, mut a): (Entities, WriteComponent<T>) = x.w.fetch();
    let mut got = vec![];
    let mut want = vec![];
    for (e, c) in (&es, &mut a).join() {
        got.push((e, c.val()));
        *c = T::new(m.next + 1 + e.index());
    }
    for i in m.comps[T::N].keys().copied().collect::<Vec<_>>() {
        let v = m.next + 1 + i;
        want.push((m.live[&i], m.comps[T::N].insert(i, v).unwrap()));
        m.touch(T::N, i);
    }
    m.next += 1000;
    chk_eq!(m.j, W01 | W02, got, want, "component {}, mutable join with the entities", T::N);
    Ok(())
}

fn guard_join_write<T>(x: &mut Exec, every: u8) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
{
    let m = &mut x.m;
    if !m.registered[T::N] {
        return Ok(());
    }
    let (es, mut a): (Entities, WriteComponent<T>) = x.w.fetch();
    let mut got = vec![];
    for (n, (e, mut g)) in (&es, a.guard()).join().enumerate() {
        got.push((e, g.get().val()));
        if n % every as usize == 0 {
            *g.get_mut() = T::new(m.next + 1 + e.index());
        }
    }
    let mut want = vec![];
    for (n, i) in m.comps[T::N].keys().copied().collect::<Vec<_>>().into_iter().enumerate() {
        want.push((m.live[&i], m.comps[T::N][&i]));
        if n % every as usize == 0 {
            m.comps[T::N].insert(i, m.next + 1 + i);
            m.touch(T::N, i);
        }
    }
    m.next += 1000;
    chk_eq!(m.j, W01 | W02, got, want, "component {}, guarded join with the entities", T::N);
    Ok(())
}

fn slice_write<T>(x: &mut Exec) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
{
    const BY: u32 = 10_000_000;
    let m = &mut x.m;
    if m.registered[T::N] && T::slice_add(&mut x.w.write_component::<T>(), BY) {
        for v in m.comps[T::N].values_mut() {
            *v = v.wrapping_add(BY);
        }
    }
    Ok(())
}

fn modified_write<T>(x: &mut Exec) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
{
    let m = &mut x.m;
    if !m.registered[T::N] || !TRACKED[T::N] {
        return Ok(());
    }
    let v = m.fresh();
    T::modified_write(&mut x.w.write_component::<T>(), v);
    for i in &m.modified[T::N] {
        if let Some(c) = m.comps[T::N].get_mut(i) {
            *c = v;
        }
    }
    Ok(())
}

fn set_tracking<T>(x: &mut Exec, to: Option<bool>) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
{
    if x.m.registered[T::N] && TRACKED[T::N] {
        match to {
            Some(f) => {
                T::track(&mut x.w.get_component_mut::<T>(), f);
                x.m.tracking[T::N] = f;
            }
            None => {
                T::clear(&mut x.w.write_component::<T>());
                x.m.modified[T::N].clear();
            }
        }
    }
    Ok(())
}

fn res_op<T: Res>(x: &mut Exec, k: usize, op: Op) -> X {
    let (w, m) = (&mut x.w, &mut x.m);
    let v = m.fresh();
    let j = m.j;
    match op {
        Op::ResInsert(_) => {
            let old = w.insert_resource(T::new(v)).map(|r| r.val());
            chk_eq!(j, R01, old, m.res[k], "resource {k}, insert gave back");
            m.res[k] = Some(v);
        }
        Op::ResRemove(_) => {
            let old = w.remove_resource::<T>().map(|r| r.val());
            chk_eq!(j, R01, old, m.res[k].take(), "resource {k}, remove");
        }
        _ => {
            let how = v % 3;
            let r = catching(|| match how {
                0 => *w.write_resource::<T>() = T::new(v),
                1 => *w.get_resource_mut::<T>() = T::new(v),
                _ => {
                    let (mut r,): (WriteResource<T>,) = w.fetch();
                    *r = T::new(v);
                }
            });
            chk_eq!(j, R01, r.is_ok(), m.res[k].is_some(), "resource {k}, write succeeded");
            if r.is_ok() {
                m.res[k] = Some(v);
            }
        }
    }
    res_full::<T>(x, k)
}

fn res_full<T: Res>(x: &mut Exec, k: usize) -> X {
    let (w, m) = (&mut x.w, &x.m);
    let of = R01 | W02;
    chk_eq!(m.j, of, w.contains_resource::<T>(), m.res[k].is_some(), "resource {k}, contains");
    let got = catching(|| w.read_resource::<T>().val()).ok();
    chk_eq!(m.j, of, got, m.res[k], "resource {k}, read");
    let got = catching(|| w.get_resource_mut::<T>().val()).ok();
    chk_eq!(m.j, of, got, m.res[k], "resource {k}, get_mut");
    let got = catching(|| {
        let (r,): (ReadResource<T>,) = w.fetch();
        r.val()
    })
    .ok();
    chk_eq!(m.j, of, got, m.res[k], "resource {k}, fetched");
    Ok(())
}

fn set_op<T>(x: &mut Exec, op: Op) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
{
    let m = &mut x.m;
    let v = m.fresh();
    let (j, k) = (m.j, T::N as u8);
    match op {
        Op::SetInsert(s, _) => {
            let s = s as usize;
            let old = x.sets[s].insert(T::new(v)).map(|c| c.val());
            chk_eq!(j, W03, old, m.sets[s].insert(k, v), "set {s}, insert of {k} gave back");
        }
        Op::SetRemove(s, _) => {
            let s = s as usize;
            let old = x.sets[s].remove::<T>().map(|c| c.val());
            chk_eq!(j, W03, old, m.sets[s].remove(&k), "set {s}, remove of {k}");
        }
        Op::SetWrite(s, _) => {
            let s = s as usize;
            let old = x.sets[s].get_mut::<T>().map(|c| {
                let o = c.val();
                *c = T::new(v);
                o
            });
            chk_eq!(j, W03, old, m.sets[s].get(&k).copied(), "set {s}, get_mut of {k}");
            if let Some(o) = m.sets[s].get_mut(&k) {
                *o = v;
            }
        }
        Op::CloneInsert(s, _) => {
            let s = s as usize;
            let old = x.clones[s].insert(T::new(v)).map(|c| c.val());
            chk_eq!(j, W03, old, m.clones[s].insert(k, v), "clone set {s}, insert of {k} gave back");
        }
        _ => {
            let Op::CloneWrite(s, _) = op else {
                return Ok(());
            };
            let s = s as usize;
            let old = x.clones[s].get_mut::<T>().map(|c| {
                let o = c.val();
                *c = T::new(v);
                o
            });
            chk_eq!(j, W03, old, m.clones[s].get(&k).copied(), "clone set {s}, get_mut of {k}");
            if let Some(o) = m.clones[s].get_mut(&k) {
                *o = v;
            }
        }
    }
    Ok(())
}

fn set_full<T>(x: &Exec) -> X
where
    T: Comp,
    T::Storage: RawStorage<Item = T> + Default + Send + Sync + 'static,
{
    let m = &x.m;
    let k = T::N as u8;
    for s in 0..2 {
        let want = m.sets[s].get(&k).copied();
        chk_eq!(m.j, W03, x.sets[s].contains::<T>(), want.is_some(), "set {s}, contains {k}");
        chk_eq!(m.j, W03, x.sets[s].get::<T>().map(|c| c.val()), want, "set {s}, get {k}");
        let want = m.clones[s].get(&k).copied();
        chk_eq!(m.j, W03, x.clones[s].contains::<T>(), want.is_some(), "clone set {s}, contains {k}");
        chk_eq!(m.j, W03, x.clones[s].get::<T>().map(|c| c.val()), want, "clone set {s}, get {k}");
    }
    Ok(())
}

impl Exec {
    fn pick(&mut self, p: Pick) -> Option<Entity> {
        let at = |v: &[Entity], i: u8| (!v.is_empty()).then(|| v[i as usize % v.len()]);
        let m = &self.m;
        match p {
            Pick::Live(i) => at(&m.live.values().copied().collect::<Vec<_>>(), i),
            Pick::Pending(i) => at(&m.pending.iter().map(|i| m.live[i]).collect::<Vec<_>>(), i),
            Pick::Dead(i) => at(&m.dead, i),
            Pick::Stale(i) => at(
                &m.dead
                    .iter()
                    .copied()
                    .filter(|e| m.live.contains_key(&e.index()))
                    .collect::<Vec<_>>(),
                i,
            ),
            Pick::Foreign(i) => {
                if self.foreign.is_empty() {
                    let mut a = Allocator::new();
                    for _ in 0..8 {
                        self.foreign.push(a.allocate());
                    }
                    for n in 0..8 {
                        let _ = a.kill(self.foreign[n]);
                    }
                    for _ in 0..8 {
                        self.foreign.push(a.allocate());
                    }
                    for _ in 0..5000 {
                        a.allocate();
                    }
                    self.foreign.push(a.allocate());
                }
                at(&self.foreign, i)
            }
            Pick::Last => m.last,
        }
    }

    fn born(&mut self, e: Entity) -> X {
        let m = &mut self.m;
        // That identities are unique is another property's business.
        chk!(m.j, 0, !m.live.contains_key(&e.index()), "");
        m.recycled_with += m.dead.iter().any(|d| d.index() == e.index()) as u32;
        m.live.insert(e.index(), e);
        m.last = Some(e);
        // It starts with no components at all.
        for k in 0..K {
            by_k!(k, peek(&self.w, &self.m, e))?;
        }
        Ok(())
    }

    fn members_registered(&self, s: &BTreeMap<u8, u32>) -> bool {
        s.keys().all(|k| self.m.registered[*k as usize])
    }

    /// The model's side of applying a set.
    fn applied(&mut self, e: Entity, set: &BTreeMap<u8, u32>) {
        for (k, v) in set {
            let k = *k as usize;
            self.m.comps[k].insert(e.index(), *v);
            self.m.touch(k, e.index());
        }
    }

    fn step(&mut self, op: Op) -> X {
        let j = self.m.j;
        match op {
            Op::Create => {
                let e = self.w.create_entity();
                self.born(e)?;
            }
            Op::CreateAtomic => {
                let e = self.w.entities().create();
                self.born(e)?;
            }
            Op::Delete(p) => {
                if let Some(e) = self.pick(p) {
                    let ok = self.w.delete_entity(e).is_ok();
                    chk_eq!(j, W02, ok, self.m.is_live(e), "delete_entity({e:?}) accepted");
                    if ok {
                        self.m.die(e.index());
                    }
                }
            }
            Op::Request(p) => {
                if let Some(e) = self.pick(p) {
                    let ok = self.w.entities().delete(e).is_ok();
                    chk_eq!(j, W02, ok, self.m.is_live(e), "Entities::delete({e:?}) accepted");
                    if ok {
                        self.m.pending.insert(e.index());
                    }
                }
            }
            Op::Merge => {
                self.w.merge();
                for i in self.m.pending.clone() {
                    self.m.die(i);
                }
            }
            Op::DeletePanic(p, n) => {
                if let Some(e) = self.pick(p) {
                    let live = self.m.is_live(e);
                    let drops = if live { self.dropped_with(&[e.index()]) } else { 0 };
                    tok::set_fuse(n as u64);
                    let r = catching(|| self.w.delete_entity(e).is_ok());
                    tok::set_fuse(0);
                    if n as usize > drops {
                        chk_eq!(j, W02, r.ok(), Some(live), "delete_entity({e:?}) accepted");
                    } else {
                        self.m.panicked += 1;
                    }
                    if live {
                        self.m.die(e.index());
                    }
                }
            }
            Op::MergePanic(n) => {
                let dying: Vec<u32> = self.m.pending.iter().copied().collect();
                let drops = self.dropped_with(&dying);
                tok::set_fuse(n as u64);
                let r = catching(|| self.w.merge());
                tok::set_fuse(0);
                if n as usize > drops {
                    chk!(j, W02, r.is_ok(), "merge panicked although no destructor did");
                } else {
                    self.m.panicked += 1;
                }
                for i in dying {
                    self.m.die(i);
                }
            }
            Op::Register(k) => by_k!(k, register(self))?,
            Op::Unregister(k) => by_k!(k, unregister(self))?,
            Op::DropHeld => {
                if let (Some(h), Some(want)) = (self.held.pop(), self.m.held.pop()) {
                    chk_eq!(j, W02 | R01, h.contents(), want, "contents of a storage handed back before");
                }
            }
            Op::Access(mode, k, p, act) => {
                if let Some(e) = self.pick(p) {
                    by_k!(k, access(self, mode, e, act))?;
                }
            }
            Op::JoinWrite(k) => by_k!(k, join_write(self))?,
            Op::GuardJoinWrite(k, n) => by_k!(k, guard_join_write(self, n))?,
            Op::SliceWrite(k) => by_k!(k, slice_write(self))?,
            Op::ModifiedWrite(k) => by_k!(k, modified_write(self))?,
            Op::Track(k, f) => by_k!(k, set_tracking(self, Some(f)))?,
            Op::ClearModified(k) => by_k!(k, set_tracking(self, None))?,
            Op::ResInsert(k) | Op::ResRemove(k) | Op::ResWrite(k) => {
                by_res!(k, res_op(self, k as usize % RES, op))?
            }
            Op::SetInsert(_, k)
            | Op::SetRemove(_, k)
            | Op::SetWrite(_, k)
            | Op::CloneInsert(_, k)
            | Op::CloneWrite(_, k) => by_k!(k, set_op(self, op))?,
            Op::SetMerge(s) => {
                let (a, b) = (s as usize, 1 - s as usize);
                let other = std::mem::take(&mut self.sets[b]);
                let over = self.sets[a].merge(other);
                let other = std::mem::take(&mut self.m.sets[b]);
                let want = other.keys().any(|k| self.m.sets[a].contains_key(k));
                self.m.sets[a].extend(other);
                chk_eq!(j, W03, over, want, "merge of sets reported overwriting");
            }
            Op::SetApply(s, p) => {
                let s = s as usize;
                if let Some(e) = self.pick(p) {
                    if self.members_registered(&self.m.sets[s]) {
                        let r = std::mem::take(&mut self.sets[s]).insert_into_world(&mut self.w, e);
                        let set = std::mem::take(&mut self.m.sets[s]);
                        self.apply_result(e, &set, r.ok())?;
                    }
                }
            }
            Op::CloneApply(s, p) => {
                let s = s as usize;
                if let Some(e) = self.pick(p) {
                    if self.members_registered(&self.m.clones[s]) {
                        let r = self.clones[s].insert_into_world(&mut self.w, e);
                        let set = self.m.clones[s].clone();
                        self.apply_result(e, &set, r.ok())?;
                    }
                }
            }
            Op::SetDrop(s) => {
                self.sets[s as usize] = AnyComponentSet::new();
                self.m.sets[s as usize].clear();
            }
            Op::CloneDrop(s) => {
                self.clones[s as usize] = AnyCloneComponentSet::new();
                self.m.clones[s as usize].clear();
            }
            Op::CloneMerge(s) => {
                let (a, b) = (s as usize, 1 - s as usize);
                let other = std::mem::take(&mut self.clones[b]);
                let over = self.clones[a].merge(other);
                let other = std::mem::take(&mut self.m.clones[b]);
                let want = other.keys().any(|k| self.m.clones[a].contains_key(k));
                self.m.clones[a].extend(other);
                chk_eq!(j, W03, over, want, "merge of clone sets reported overwriting");
            }
            Op::CloneInto(a, b) => {
                let (a, b) = (a as usize, b as usize);
                let over = self.clones[a].clone_into_set(&mut self.sets[b]);
                let from = self.m.clones[a].clone();
                let want = from.keys().any(|k| self.m.sets[b].contains_key(k));
                self.m.sets[b].extend(from);
                chk_eq!(j, W03, over, want, "clone_into_set reported overwriting");
            }
            Op::Full => self.full()?,
        }
        self.settle()
    }

    /// How many components the death of these entities drops.
    fn dropped_with(&self, dying: &[u32]) -> usize {
        (0..K)
            .filter(|k| self.m.registered[*k])
            .map(|k| dying.iter().filter(|i| self.m.comps[k].contains_key(i)).count())
            .sum()
    }

    fn apply_result(&mut self, e: Entity, set: &BTreeMap<u8, u32>, r: Option<bool>) -> X {
        let j = self.m.j;
        let live = self.m.is_live(e);
        let want = if live || set.is_empty() {
            Some(set.keys().any(|k| self.m.comps[*k as usize].contains_key(&e.index())))
        } else {
            None
        };
        // An empty set says nothing about the entity.
        chk!(
            j,
            W03,
            r == want || (set.is_empty() && !live),
            "applying a set with {:?} to {e:?} gave {r:?}, expected {want:?}",
            set.keys().collect::<Vec<_>>()
        );
        if live {
            self.applied(e, set);
        }
        if j & W03 != 0 {
            self.full()?;
        }
        Ok(())
    }

    /// Cheap things to look at after every operation.
    fn settle(&mut self) -> X {
        let m = &self.m;
        if m.j & S02 != 0 {
            if let Some(e) = tok::first_error() {
                return Err(Stop::Fail(e));
            }
            let mut want: BTreeMap<u32, u32> = BTreeMap::new();
            let mut n = 0;
            let all = m
                .comps
                .iter()
                .flat_map(|c| c.values())
                .chain(m.res.iter().flatten())
                .chain(m.held.iter().flatten().map(|(_, v)| v))
                .chain(m.sets.iter().flat_map(|s| s.values()))
                .chain(m.clones.iter().flat_map(|s| s.values()));
            for v in all {
                *want.entry(*v).or_insert(0) += 1;
                n += 1;
            }
            if tok::live_count() != n || tok::live_vals() != want {
                let live = tok::live_vals();
                return Err(Stop::Fail(format!(
                    "value counts off: {:?} leaked, {:?} dropped early",
                    live.iter()
                        .filter(|(k, v)| want.get(k).copied().unwrap_or(0) < **v)
                        .collect::<Vec<_>>(),
                    want.iter()
                        .filter(|(k, v)| live.get(k).copied().unwrap_or(0) < **v)
                        .collect::<Vec<_>>(),
                )));
            }
        }
        if m.j & S04 != 0 {
            for k in 3..K {
                by_k!(k, tracking(self))?;
            }
        }
        if m.j & W03 != 0 {
            for s in 0..2 {
                chk_eq!(m.j, W03, self.sets[s].len(), m.sets[s].len(), "size of set {s}");
            }
            for k in 0..K {
                by_k!(k, set_full(self))?;
            }
        }
        if m.j & W02 != 0 {
            for k in 0..K {
                by_k!(k, full(self))?;
            }
        }
        if m.j & W01 != 0 {
            // Some of the latest dead, and the newest.
            let mut es: Vec<Entity> = m.dead.iter().rev().take(3).copied().collect();
            es.extend(m.last);
            for e in es {
                for k in 0..K {
                    by_k!(k, peek(&self.w, &self.m, e))?;
                }
            }
        }
        Ok(())
    }

    fn full(&mut self) -> X {
        for k in 0..K {
            by_k!(k, full(self))?;
        }
        if self.m.j & (R01 | W02) != 0 {
            for k in 0..RES {
                by_res!(k, res_full(self, k))?;
            }
        }
        let m = &self.m;
        if m.j & W01 != 0 {
            for e in m.dead.iter().chain(m.live.values()).chain(&self.foreign) {
                for k in 0..K {
                    by_k!(k, peek(&self.w, m, *e))?;
                }
            }
        }
        for (h, want) in self.held.iter().zip(&m.held) {
            chk_eq!(m.j, W02 | R01, &h.contents(), want, "contents of a storage handed back before");
        }
        Ok(())
    }
}

fn run(j: J, c: &Case, cx: &mut Cx) -> R {
    tok::reset();
    let mut x = Exec {
        w: World::new(),
        m: Model {
            j,
            ..Model::default()
        },
        held: vec![],
        sets: Default::default(),
        clones: Default::default(),
        foreign: vec![],
    };
    let done = (|| -> Result<(), (String, Stop)> {
        let at = |s: &str| {
            let s = s.to_string();
            move |e| (s, e)
        };
        for k in 0..K {
            if c.registered >> k & 1 == 1 {
                by_k!(k, register(&mut x)).map_err(at("registering"))?;
            }
        }
        for _ in 0..c.entities {
            x.step(Op::Create).map_err(at("creating"))?;
        }
        for (n, op) in c.ops.iter().enumerate() {
            x.step(*op)
                .map_err(|e| (format!("operation {n} ({op:?})"), e))?;
        }
        x.full().map_err(at("at the end"))
    })();
    let (refused, recycled, stripped) = (x.m.refused, x.m.recycled_with, x.m.stripped);
    cx.label_if(refused > 0, "change with a dead or foreign handle");
    cx.label_if(recycled > 0, "index reused");
    cx.label_if(x.m.panicked > 0, "a destructor panicked in a deletion");
    cx.label_if(stripped > 0, "component removed with its entity");
    cx.nontrivial_if(match j {
        W01 => refused > 0 && recycled > 0,
        W02 | S02 | MEM => stripped > 0 && recycled > 0,
        S04 => stripped > 0,
        W03 => c
            .ops
            .iter()
            .any(|o| matches!(o, Op::SetApply(..) | Op::CloneApply(..))),
        _ => x.m.res.iter().flatten().count() > 1,
    });
    match done {
        Err((_, Stop::Other)) => {
            cx.label("ended by a discrepancy that is another property's");
            return Ok(());
        }
        Err((at, Stop::Fail(e))) => return Err(format!("{at}: {e}")),
        Ok(()) => {}
    }
    if j & S02 != 0 {
        // Everything goes, in one of several orders.
        let Exec { w, held, sets, clones, .. } = x;
        if c.entities & 1 == 0 {
            drop(w);
            drop((held, sets, clones));
        } else {
            drop((held, sets, clones));
            drop(w);
        }
        if let Some(e) = tok::first_error() {
            return Err(format!("dropping everything: {e}"));
        }
        if tok::live_count() != 0 {
            return Err(format!("leaked after dropping everything: {:?}", tok::live_vals()));
        }
    }
    Ok(())
}

fn rule(j: J) -> &'static str {
    match j {
        W01 => "world histories (creations, deletions, merges, registrations, accesses in 4 modes with live, pending, dead, stale and foreign handles); non-trivial: a change was tried with a dead handle and an index was reused",
        W02 => "world histories; all storages compared with the model after each operation; non-trivial: deletion removed components and an index was reused",
        S02 => "world histories with component sets and resources; the live values compared after each operation; non-trivial: deletion removed components and an index was reused",
        S04 => "world histories with change tracking; non-trivial: deletion removed components",
        W03 => "world histories with two plain and two cloneable component sets; non-trivial: a set was applied",
        _ => "world histories with 7 resource types, some also components, and registrations; non-trivial: several resources at the end",
    }
}

pub fn leg(j: J, name: &'static str, quick: u64, max: usize) -> Leg {
    Leg::new(
        name,
        rule(j),
        (quick, quick * 40),
        move || case(j, max),
        move |c: &Case, cx: &mut Cx| run(j, c, cx),
    )
}

/// For the sanitizers and Miri.
pub fn memory_legs() -> Vec<Leg> {
    const RULE: &str = "world histories with everything in them; non-trivial: something was deleted with its components, and an index reused";
    let check = |c: &Case, cx: &mut Cx| run(MEM, c, cx);
    fn small() -> impl Strategy<Value = Case> {
        case(MEM, 40).prop_map(|mut c| {
            c.entities %= 6;
            c
        })
    }
    vec![
        Leg::new("world", RULE, (0, 0), || case(MEM, 80), lax(check)).also(Mode::Asan, 10_000, 500_000).also(Mode::Msan, 0, 200_000),
        Leg::new("world small", RULE, (0, 0), small, lax(check)).also(Mode::Miri, 12, 2_000),
    ]
}

pub fn w01() -> Prop {
    Prop::new("W01", vec![leg(W01, "world", 200_000, 80), leg(W01, "world-long", 8_000, 500), super::large_world::leg(1_500, 60_000), super::many_types::leg(super::many_types::W01, 40_000)])
}

pub fn w02() -> Prop {
    Prop::new("W02", vec![leg(W02, "world", 200_000, 80), leg(W02, "world-long", 8_000, 500), super::large_world::leg(1_500, 60_000), super::many_types::leg(super::many_types::W02, 40_000)])
}

pub fn w03() -> Prop {
    Prop::new("W03", vec![leg(W03, "world", 200_000, 80), leg(W03, "world-long", 8_000, 500), super::many_types::leg(super::many_types::W03, 40_000)])
}

pub fn s02() -> Prop {
    let mut l = super::drops::legs();
    l.push(leg(S02, "world", 150_000, 80));
    l.push(leg(S02, "world-long", 5_000, 500));
    l.push(super::many_types::leg(super::many_types::S02, 40_000));
    Prop::new("S02", l)
}
