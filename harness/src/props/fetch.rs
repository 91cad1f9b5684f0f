//! Fetchable types whose parts are chosen at run time, and R02 and R03 with them.
//!
//! A goggles tuple of `Dyn<_, P>` is a real tuple as far as goggles is concerned. What part P of the
//! current tuple declares and fetches is looked up in a stack of frames that belongs to the thread, so
//! that neither the order in which a tuple asks its parts nor how often matters.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    hash::Hash as StdHash,
    sync::{
        atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering},
        mpsc,
    },
};

use goggles::{
    resource_set::ResourceId, Component, DenseVecStorage, Entities, Entity, FetchNone, FetchResources,
    Flagged, HashMapStorage, Read, ReadComponent, ReadResource, ResourceConflict, ResourceSet,
    RwResources, VecStorage, World, WorldResourceId, Write, WriteComponent, WriteResource,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
    engine::{catching, lax, Cx, Leg, Prop, R},
    ensure, ensure_eq,
};

/// What the harness can lock: an index into the source's types.
pub type Key = u8;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Mode {
    Read,
    Write,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum Tree {
    Leaf(Key, Mode),
    /// Worlds only: the entities.
    Ent,
    None,
    Tuple(Vec<Tree>),
}

pub enum Acc<'b> {
    Shared(u32),
    Excl(&'b mut u32),
}

/// Something fetched.
pub trait Hold {
    fn visit(&mut self, f: &mut dyn FnMut(Key, Acc));
}

pub trait Source: Sized + Sync + 'static {
    type Id: Clone + Eq + StdHash + Ord + std::fmt::Debug + Send;
    const KEYS: u8;
    const HAS_ENTITIES: bool;
    fn id(k: Key) -> Self::Id;
    fn entities_id() -> Option<Self::Id>;
    /// Which other locks declaring this one brings along.
    fn leaf_check(t: &Tree) -> Result<RwResources<Self::Id>, ResourceConflict>;
    fn leaf_fetch<'a>(&'a self, t: &Tree) -> Box<dyn Hold + 'a>;
    /// A borrow without a fetch.
    fn direct<'a>(&'a self, k: Key, m: Mode) -> Box<dyn Hold + 'a>;
    fn has(&self, k: Key) -> bool;
    fn fresh() -> Self;
    /// Puts in or takes out a value.
    fn set(&mut self, k: Key, v: Option<u32>);
    fn exclusive(&mut self, k: Key) -> u32;
}

thread_local! {
    static FRAMES: RefCell<Vec<Vec<Tree>>> = const { RefCell::new(vec![]) };
}

struct Frame;
impl Frame {
    fn push(t: Vec<Tree>) -> Frame {
        FRAMES.with(|f| f.borrow_mut().push(t));
        Frame
    }
}
impl Drop for Frame {
    fn drop(&mut self) {
        FRAMES.with(|f| f.borrow_mut().pop());
    }
}

pub struct Dyn<'a, S, const P: usize>(Box<dyn Hold + 'a>, std::marker::PhantomData<S>);

fn part(p: usize) -> Tree {
    FRAMES.with(|f| f.borrow().last().expect("no frame")[p].clone())
}

impl<'a, S: Source, const P: usize> FetchResources<'a, S> for Dyn<'a, S, P> {
    type Resources = RwResources<S::Id>;
    fn check_resources() -> Result<RwResources<S::Id>, ResourceConflict> {
        check::<S>(&part(P))
    }
    fn fetch(s: &'a S) -> Self {
        Dyn(fetch(s, &part(P)), std::marker::PhantomData)
    }
}

impl<'a, S, const P: usize> Hold for Dyn<'a, S, P> {
    fn visit(&mut self, f: &mut dyn FnMut(Key, Acc)) {
        self.0.visit(f)
    }
}

macro_rules! tuples {
    ($($n:literal: [$($p:tt)*];)*) => {
        $(
            impl<'a, S> Hold for ($(tuples!(@ty $p 'a S),)*) {
                fn visit(&mut self, f: &mut dyn FnMut(Key, Acc)) {
                    $(self.$p.visit(f);)*
                }
            }
        )*
        fn tuple_check<S: Source>(parts: &[Tree]) -> Result<RwResources<S::Id>, ResourceConflict> {
            let _f = Frame::push(parts.to_vec());
            match parts.len() {
                $($n => <($(tuples!(@ty $p '_ S),)*) as FetchResources<S>>::check_resources(),)*
                n => panic!("no tuple of {n}"),
            }
        }
        fn tuple_fetch<'a, S: Source>(s: &'a S, parts: &[Tree]) -> Box<dyn Hold + 'a> {
            let _f = Frame::push(parts.to_vec());
            match parts.len() {
                $($n => Box::new(<($(tuples!(@ty $p 'a S),)*) as FetchResources<'a, S>>::fetch(s)),)*
                n => panic!("no tuple of {n}"),
            }
        }
    };
    (@ty $p:tt $l:lifetime $s:ident) => { Dyn<$l, $s, $p> };
}

tuples! {
    1: [0];
    2: [0 1];
    3: [0 1 2];
    4: [0 1 2 3];
    5: [0 1 2 3 4];
    6: [0 1 2 3 4 5];
    7: [0 1 2 3 4 5 6];
    8: [0 1 2 3 4 5 6 7];
    9: [0 1 2 3 4 5 6 7 8];
    10: [0 1 2 3 4 5 6 7 8 9];
    11: [0 1 2 3 4 5 6 7 8 9 10];
    12: [0 1 2 3 4 5 6 7 8 9 10 11];
    13: [0 1 2 3 4 5 6 7 8 9 10 11 12];
    14: [0 1 2 3 4 5 6 7 8 9 10 11 12 13];
    15: [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14];
    16: [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15];
    17: [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16];
    18: [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17];
    19: [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18];
    20: [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19];
    21: [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20];
    22: [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21];
    23: [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22];
    24: [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23];
    25: [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24];
    26: [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25];
}

/// What goggles says the tree uses.
pub fn check<S: Source>(t: &Tree) -> Result<RwResources<S::Id>, ResourceConflict> {
    match t {
        Tree::Tuple(parts) => tuple_check::<S>(parts),
        t => S::leaf_check(t),
    }
}

pub fn fetch<'a, S: Source>(s: &'a S, t: &Tree) -> Box<dyn Hold + 'a> {
    match t {
        Tree::Tuple(parts) => tuple_fetch(s, parts),
        t => s.leaf_fetch(t),
    }
}

impl Tree {
    fn leaves(&self, out: &mut Vec<(Key, Mode)>) {
        match self {
            Tree::Leaf(k, m) => out.push((*k, *m)),
            Tree::Tuple(p) => p.iter().for_each(|t| t.leaves(out)),
            Tree::Ent | Tree::None => {}
        }
    }
    pub fn locks(&self) -> Vec<(Key, Mode)> {
        let mut v = vec![];
        self.leaves(&mut v);
        v
    }
    fn uses_entities<S: Source>(&self) -> bool {
        match self {
            Tree::Leaf(k, _) => S::HAS_ENTITIES && *k >= FIRST_COMPONENT,
            Tree::Ent => true,
            Tree::None => false,
            Tree::Tuple(p) => p.iter().any(|t| t.uses_entities::<S>()),
        }
    }
    /// The strongest access to each, or `None` if they cannot be had together.
    pub fn wanted(&self) -> Option<BTreeMap<Key, Mode>> {
        let mut m = BTreeMap::new();
        for (k, mode) in self.locks() {
            match (m.get(&k), mode) {
                (None, _) => {
                    m.insert(k, mode);
                }
                (Some(Mode::Read), Mode::Read) => {}
                _ => return None,
            }
        }
        Some(m)
    }
    pub fn depth(&self) -> usize {
        match self {
            Tree::Tuple(p) => 1 + p.iter().map(|t| t.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
}

impl<'a, S: 'static> Hold for FetchNone<S, RwResources<ResourceId>> where S: Sized {
    fn visit(&mut self, _: &mut dyn FnMut(Key, Acc)) {}
}

struct Nothing;
impl Hold for Nothing {
    fn visit(&mut self, _: &mut dyn FnMut(Key, Acc)) {}
}

/// A guard of some type, with its key.
struct Sh<G>(Key, G);
struct Ex<G>(Key, G);

pub struct T<const N: usize>(pub u32);

impl<const N: usize, G: std::ops::Deref<Target = T<N>>> Hold for Sh<G> {
    fn visit(&mut self, f: &mut dyn FnMut(Key, Acc)) {
        f(self.0, Acc::Shared(self.1 .0))
    }
}
impl<const N: usize, G: std::ops::DerefMut<Target = T<N>>> Hold for Ex<G> {
    fn visit(&mut self, f: &mut dyn FnMut(Key, Acc)) {
        f(self.0, Acc::Excl(&mut self.1 .0))
    }
}

// Resource sets.

macro_rules! by_n {
    ($k:expr, $n:ident => $e:expr) => {
        match $k {
            0 => {
                const $n: usize = 0;
                $e
            }
            1 => {
                const $n: usize = 1;
                $e
            }
            2 => {
                const $n: usize = 2;
                $e
            }
            3 => {
                const $n: usize = 3;
                $e
            }
            k => panic!("no key {k}"),
        }
    };
}

impl Source for ResourceSet {
    type Id = ResourceId;
    const KEYS: u8 = 4;
    const HAS_ENTITIES: bool = false;
    fn id(k: Key) -> ResourceId {
        by_n!(k, N => ResourceId::of::<T<N>>())
    }
    fn entities_id() -> Option<ResourceId> {
        None
    }
    fn leaf_check(t: &Tree) -> Result<RwResources<ResourceId>, ResourceConflict> {
        match t {
            Tree::Leaf(k, Mode::Read) => by_n!(*k, N => <Read<T<N>>>::check_resources()),
            Tree::Leaf(k, Mode::Write) => by_n!(*k, N => <Write<T<N>>>::check_resources()),
            _ => <FetchNone<ResourceSet, RwResources<ResourceId>> as FetchResources<ResourceSet>>::check_resources(),
        }
    }
    fn leaf_fetch<'a>(&'a self, t: &Tree) -> Box<dyn Hold + 'a> {
        match t {
            Tree::Leaf(k, Mode::Read) => by_n!(*k, N => Box::new(Sh(*k, self.fetch::<Read<T<N>>>()))),
            Tree::Leaf(k, Mode::Write) => by_n!(*k, N => Box::new(Ex(*k, self.fetch::<Write<T<N>>>()))),
            _ => {
                self.fetch::<FetchNone<ResourceSet, RwResources<ResourceId>>>();
                Box::new(Nothing)
            }
        }
    }
    fn direct<'a>(&'a self, k: Key, m: Mode) -> Box<dyn Hold + 'a> {
        match m {
            Mode::Read => by_n!(k, N => Box::new(Sh(k, self.borrow::<T<N>>()))),
            Mode::Write => by_n!(k, N => Box::new(Ex(k, self.borrow_mut::<T<N>>()))),
        }
    }
    fn has(&self, k: Key) -> bool {
        by_n!(k, N => self.contains::<T<N>>())
    }
    fn fresh() -> Self {
        ResourceSet::new()
    }
    fn set(&mut self, k: Key, v: Option<u32>) {
        by_n!(k, N => match v {
            Some(v) => drop(self.insert(T::<N>(v))),
            None => drop(self.remove::<T<N>>()),
        })
    }
    fn exclusive(&mut self, k: Key) -> u32 {
        by_n!(k, N => self.get_mut::<T<N>>().0)
    }
}

// Worlds: keys 0 to 3 are resources, 4 to 7 components of which the first are the same types.

const FIRST_COMPONENT: u8 = 4;

impl Component for T<0> {
    type Storage = VecStorage<Self>;
}
impl Component for T<1> {
    type Storage = DenseVecStorage<Self>;
}
impl Component for T<2> {
    type Storage = Flagged<HashMapStorage<Self>>;
}
/// A component whose type is also a component's storage would be odd, but allowed.
impl Component for T<3> {
    type Storage = Flagged<VecStorage<Self>>;
}

struct ShC<'a, const N: usize>(Key, ReadComponent<'a, T<N>>, Entity)
where
    T<N>: Component;
struct ExC<'a, const N: usize>(Key, WriteComponent<'a, T<N>>, Entity)
where
    T<N>: Component;

impl<'a, const N: usize> Hold for ShC<'a, N>
where
    T<N>: Component,
{
    fn visit(&mut self, f: &mut dyn FnMut(Key, Acc)) {
        f(self.0, Acc::Shared(self.1.get(self.2).map_or(u32::MAX, |t| t.0)))
    }
}
impl<'a, const N: usize> Hold for ExC<'a, N>
where
    T<N>: Component,
{
    fn visit(&mut self, f: &mut dyn FnMut(Key, Acc)) {
        match self.1.get_mut(self.2) {
            Some(t) => f(self.0, Acc::Excl(&mut t.0)),
            None => f(self.0, Acc::Shared(u32::MAX)),
        }
    }
}

fn the_entity(w: &World) -> Entity {
    w.entities().entity(0).expect("the world's entity")
}

impl Source for World {
    type Id = WorldResourceId;
    const KEYS: u8 = 8;
    const HAS_ENTITIES: bool = true;
    fn id(k: Key) -> WorldResourceId {
        if k < FIRST_COMPONENT {
            by_n!(k, N => WorldResourceId::resource::<T<N>>())
        } else {
            by_n!(k - FIRST_COMPONENT, N => WorldResourceId::component::<T<N>>())
        }
    }
    fn entities_id() -> Option<WorldResourceId> {
        Some(WorldResourceId::Entities)
    }
    fn leaf_check(t: &Tree) -> Result<RwResources<WorldResourceId>, ResourceConflict> {
        match t {
            Tree::Leaf(k, m) if *k < FIRST_COMPONENT => by_n!(*k, N => match m {
                Mode::Read => <ReadResource<T<N>>>::check_resources(),
                Mode::Write => <WriteResource<T<N>>>::check_resources(),
            }),
            Tree::Leaf(k, m) => by_n!(*k - FIRST_COMPONENT, N => match m {
                Mode::Read => <ReadComponent<T<N>>>::check_resources(),
                Mode::Write => <WriteComponent<T<N>>>::check_resources(),
            }),
            Tree::Ent => <Entities as FetchResources<World>>::check_resources(),
            _ => <FetchNone<World, RwResources<WorldResourceId>> as FetchResources<World>>::check_resources(),
        }
    }
    fn leaf_fetch<'a>(&'a self, t: &Tree) -> Box<dyn Hold + 'a> {
        match t {
            Tree::Leaf(k, m) if *k < FIRST_COMPONENT => by_n!(*k, N => match m {
                Mode::Read => Box::new(Sh(*k, self.fetch::<ReadResource<T<N>>>())),
                Mode::Write => Box::new(Ex(*k, self.fetch::<WriteResource<T<N>>>())),
            }),
            Tree::Leaf(k, m) => by_n!(*k - FIRST_COMPONENT, N => match m {
                Mode::Read => Box::new(ShC::<N>(*k, self.fetch(), the_entity(self))),
                Mode::Write => Box::new(ExC::<N>(*k, self.fetch(), the_entity(self))),
            }),
            Tree::Ent => {
                let e: Entities = self.fetch();
                assert!(e.is_alive(the_entity(self)));
                Box::new(Nothing)
            }
            _ => {
                self.fetch::<FetchNone<World, RwResources<WorldResourceId>>>();
                Box::new(Nothing)
            }
        }
    }
    fn direct<'a>(&'a self, k: Key, m: Mode) -> Box<dyn Hold + 'a> {
        if k < FIRST_COMPONENT {
            by_n!(k, N => match m {
                Mode::Read => Box::new(Sh(k, self.read_resource::<T<N>>())),
                Mode::Write => Box::new(Ex(k, self.write_resource::<T<N>>())),
            })
        } else {
            by_n!(k - FIRST_COMPONENT, N => match m {
                Mode::Read => Box::new(ShC::<N>(k, self.read_component(), the_entity(self))),
                Mode::Write => Box::new(ExC::<N>(k, self.write_component(), the_entity(self))),
            })
        }
    }
    fn has(&self, k: Key) -> bool {
        if k < FIRST_COMPONENT {
            by_n!(k, N => self.contains_resource::<T<N>>())
        } else {
            by_n!(k - FIRST_COMPONENT, N => self.contains_component::<T<N>>())
        }
    }
    fn fresh() -> Self {
        let mut w = World::new();
        w.create_entity();
        w
    }
    fn set(&mut self, k: Key, v: Option<u32>) {
        if k < FIRST_COMPONENT {
            by_n!(k, N => match v {
                Some(v) => drop(self.insert_resource(T::<N>(v))),
                None => drop(self.remove_resource::<T<N>>()),
            })
        } else {
            let e = the_entity(self);
            by_n!(k - FIRST_COMPONENT, N => match v {
                Some(v) => {
                    self.insert_component::<T<N>>();
                    self.get_component_mut::<T<N>>().insert(e, T(v)).ok().unwrap();
                }
                None => drop(self.remove_component::<T<N>>()),
            })
        }
    }
    fn exclusive(&mut self, k: Key) -> u32 {
        let e = the_entity(self);
        if k < FIRST_COMPONENT {
            by_n!(k, N => self.get_resource_mut::<T<N>>().0)
        } else {
            by_n!(k - FIRST_COMPONENT, N => self.get_component_mut::<T<N>>().get(e).map_or(u32::MAX, |t| t.0))
        }
    }
}

// Generators.

fn leaf(keys: u8, ent: bool, reads: u32) -> impl Strategy<Value = Tree> {
    let e = if ent { 1 } else { 0 };
    prop_oneof![
        reads => (0..keys).prop_map(|k| Tree::Leaf(k, Mode::Read)),
        4 => (0..keys).prop_map(|k| Tree::Leaf(k, Mode::Write)),
        1 => Just(if e == 1 { Tree::Ent } else { Tree::None }),
        1 => Just(Tree::None),
    ]
}

/// A leaf or a tuple, of up to 26 parts.
pub fn tree(keys: u8, ent: bool, max: usize) -> BoxedStrategy<Tree> {
    let small = leaf(keys, ent, 4);
    let t = leaf(keys, ent, 8).prop_recursive(3, 24, 6, |inner| {
        prop::collection::vec(inner, 1..6).prop_map(Tree::Tuple)
    });
    prop_oneof![
        2 => small,
        6 => prop::collection::vec(leaf(keys, ent, 5), 1..4).prop_map(Tree::Tuple),
        3 => t,
        // Wide ones, mostly reading, with few writes.
        2 => (prop::collection::vec(leaf(keys, ent, 60), 4..=max)).prop_map(Tree::Tuple),
    ]
    .boxed()
}

// R03

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DeclCase {
    tree: Tree,
    /// The types missing from the source in a second try, by bit.
    missing: u8,
}

fn kind_of<S: Source>(s: &S, k: Key) -> Result<Option<Mode>, String> {
    let read = catching(|| drop(s.direct(k, Mode::Read))).is_ok();
    let write = catching(|| drop(s.direct(k, Mode::Write))).is_ok();
    match (read, write) {
        (true, true) => Ok(None),
        (true, false) => Ok(Some(Mode::Read)),
        (false, false) => Ok(Some(Mode::Write)),
        (false, true) => Err(format!("type {k} can be written but not read")),
    }
}

fn decl_check<S: Source>(c: &DeclCase, cx: &mut Cx) -> R {
    let t = &c.tree;
    let mut s = S::fresh();
    for k in 0..S::KEYS {
        s.set(k, Some(100 + k as u32));
    }
    let declared = check::<S>(t);
    let want = t.wanted();
    ensure_eq!(declared.is_ok(), want.is_some(), "the static check accepts");
    cx.label_if(want.is_none(), "conflicting parts");
    cx.label_if(t.depth() > 1, "nested");
    cx.label_if(matches!(t, Tree::Tuple(p) if p.len() > 5), "wide");
    let locks = t.locks();
    cx.nontrivial_if(locks.len() > 1 && locks.iter().any(|l| l.1 == Mode::Write));
    let mut made: BTreeMap<Key, Mode> = BTreeMap::new();
    let worked = if let Ok(mut held) = catching(|| fetch(&s, t)) {
        for k in 0..S::KEYS {
            if let Some(m) = kind_of(&s, k)? {
                made.insert(k, m);
            }
        }
        let mut bad = None;
        let mut seen = vec![];
        held.visit(&mut |k, a| {
            let (v, m) = match a {
                Acc::Shared(v) => (v, Mode::Read),
                Acc::Excl(v) => (*v, Mode::Write),
            };
            if v != 100 + k as u32 {
                bad = Some(format!("fetched type {k} reads {v}"));
            }
            seen.push((k, m));
        });
        ensure!(bad.is_none(), "{}", bad.unwrap());
        ensure_eq!(seen, locks, "the values fetched");
        true
    } else {
        false
    };
    ensure_eq!(worked, want.is_some(), "the fetch worked");
    if let (Ok(d), Some(w)) = (declared, want) {
        let name = |id: &S::Id| -> Result<Option<Key>, String> {
            if Some(id) == S::entities_id().as_ref() {
                return Ok(None);
            }
            (0..S::KEYS)
                .find(|k| S::id(*k) == *id)
                .map(Some)
                .ok_or(format!("declares {id:?}, which is nothing known"))
        };
        let mut says = BTreeMap::new();
        let mut entities = None;
        for (ids, mode) in [
            (d.reads().collect::<Vec<_>>(), Mode::Read),
            (d.writes().collect::<Vec<_>>(), Mode::Write),
        ] {
            for id in ids {
                match name(id)? {
                    Some(k) => {
                        ensure!(says.insert(k, mode).is_none(), "type {k} declared twice");
                    }
                    None => entities = Some(mode),
                }
            }
        }
        ensure_eq!(says, made, "declared accesses, compared with those made");
        ensure_eq!(says, w, "declared accesses");
        ensure_eq!(
            entities,
            t.uses_entities::<S>().then_some(Mode::Read),
            "declared access to the entities"
        );
    }
    // All is free again.
    for k in 0..S::KEYS {
        ensure_eq!(kind_of(&s, k)?, None, "after release, type {k}");
    }
    // Without some types.
    let needs_missing = locks.iter().any(|l| c.missing >> l.0 & 1 == 1);
    for k in 0..S::KEYS {
        if c.missing >> k & 1 == 1 {
            s.set(k, None);
        }
    }
    let ok = catching(|| drop(fetch(&s, t))).is_ok();
    ensure_eq!(
        ok,
        t.wanted().is_some() && !needs_missing,
        "the fetch from a source without some types worked"
    );
    cx.label_if(needs_missing, "needs a missing type");
    for k in 0..S::KEYS {
        if c.missing >> k & 1 == 0 {
            ensure_eq!(kind_of(&s, k)?, None, "after the second fetch, type {k}");
            ensure_eq!(s.exclusive(k), 100 + k as u32, "value of type {k} at the end");
        }
    }
    Ok(())
}

fn decl_leg<S: Source>(name: &'static str, n: u64) -> Leg {
    Leg::new(
        name,
        "a fetchable type as a random tree of goggles' tuples (1 to 26 parts, nested) and leaves, on a source with all types and one with some missing; non-trivial: several locks, one exclusive",
        (n, n * 40),
        || {
            (tree(S::KEYS, S::HAS_ENTITIES, 26), prop_oneof![Just(0u8), any::<u8>()])
                .prop_map(|(tree, missing)| DeclCase { tree, missing })
        },
        decl_check::<S>,
    )
}

/// Fetchable types written out, so that no part of the harness stands between them and goggles.
mod written {
    use super::*;

    type Sets<I> = (BTreeSet<I>, BTreeSet<I>);

    pub struct Entry<S: Source> {
        pub name: &'static str,
        pub declared: fn() -> Option<Sets<S::Id>>,
        /// Holds it while looking at what is locked.
        pub made: fn(&S, &dyn Fn()) -> bool,
    }

    fn sets<I: Ord + Clone + Eq + StdHash>(r: RwResources<I>) -> Sets<I> {
        (r.reads().cloned().collect(), r.writes().cloned().collect())
    }

    macro_rules! table {
        ($s:ty; $($t:ty),* $(,)?) => {
            vec![$(Entry {
                name: stringify!($t),
                declared: || <$t as FetchResources<$s>>::check_resources().ok().map(sets),
                made: |s, f| catching(|| {
                    let held: $t = s.fetch();
                    f();
                    drop(held);
                }).is_ok(),
            }),*]
        };
    }

    type RR<'a, const N: usize> = ReadResource<'a, T<N>>;
    type WR<'a, const N: usize> = WriteResource<'a, T<N>>;
    type RC<'a, const N: usize> = ReadComponent<'a, T<N>>;
    type WC<'a, const N: usize> = WriteComponent<'a, T<N>>;
    type No<S> = FetchNone<S, RwResources<<S as Source>::Id>>;
    type Rd<'a, const N: usize> = Read<'a, T<N>>;
    type Wr<'a, const N: usize> = Write<'a, T<N>>;

    pub fn world() -> Vec<Entry<World>> {
        table!(World;
            RR<0>, WR<0>, RR<3>, WR<3>, RC<0>, WC<0>, RC<1>, WC<1>, RC<2>, WC<2>, RC<3>, WC<3>,
            Entities, No<World>,
            (RR<0>,), (WR<0>,), (RC<0>,), (WC<0>,), (Entities,), (No<World>,),
            (RR<0>, RR<0>), (RR<0>, WR<0>), (WR<0>, RR<0>), (WR<0>, WR<0>), (WR<0>, WR<1>),
            (RC<0>, RC<0>), (RC<0>, WC<0>), (WC<0>, RC<0>), (WC<0>, WC<0>), (WC<0>, WC<1>),
            (RR<0>, WC<0>), (WR<0>, RC<0>), (WR<0>, WC<0>), (RC<0>, WR<0>), (RR<1>, RC<1>),
            (Entities, Entities), (Entities, WC<0>), (WC<0>, Entities), (Entities, RC<1>, WC<2>),
            (No<World>, WR<0>), (WR<0>, No<World>),
            (Entities, WC<0>, RC<1>, RR<0>, WR<1>),
            ((WC<0>, RC<1>), (WR<0>, RR<1>)), ((WC<0>, RC<1>), (RC<0>, RR<1>)),
            ((RC<0>, RC<1>), (RC<0>, RR<1>)), (((WC<0>,),), WC<1>), (((WC<0>,),), RC<0>),
            (RR<0>, (RR<1>, (RR<2>, (RR<3>, WC<0>)))), (RR<0>, (RR<1>, (RR<2>, (WR<0>, WC<0>)))),
            (WR<0>, WR<1>, WR<2>, WR<3>, WC<0>, WC<1>, WC<2>, WC<3>, Entities),
            (WR<0>, WR<1>, WR<2>, WR<3>, WC<0>, WC<1>, WC<2>, WC<3>, RC<3>),
            (RR<0>, RR<0>, RR<0>, RR<0>, RR<0>, RR<0>, RR<0>, RR<0>, RR<0>, RR<0>, WR<0>),
        )
    }

    pub fn set() -> Vec<Entry<ResourceSet>> {
        table!(ResourceSet;
            Rd<0>, Wr<0>, Rd<3>, Wr<3>, No<ResourceSet>,
            (Rd<0>,), (Wr<0>,), (No<ResourceSet>,),
            (Rd<0>, Rd<0>), (Rd<0>, Wr<0>), (Wr<0>, Rd<0>), (Wr<0>, Wr<0>), (Wr<0>, Wr<1>),
            (Rd<0>, Rd<1>, Wr<2>), (Rd<0>, Wr<1>, Rd<2>, Wr<3>), (Wr<1>, Rd<0>, Rd<0>, Wr<3>, Rd<3>),
            ((Rd<0>, Rd<1>), (Wr<2>, Rd<0>)), ((Rd<0>, Rd<1>), (Wr<0>, Rd<2>)), ((Wr<0>, Rd<0>), Rd<1>),
            (((Wr<0>,),), Rd<0>), (((Wr<0>,),), Rd<1>), (No<ResourceSet>, Wr<0>, No<ResourceSet>),
        )
    }

    /// Reads the expectation off the type's text.
    pub fn wanted<S: Source>(name: &str) -> (Tree, BTreeSet<S::Id>, BTreeSet<S::Id>) {
        let mut parts = vec![];
        let (mut reads, mut writes) = (BTreeSet::new(), BTreeSet::new());
        let text: String = name.chars().filter(|c| !c.is_whitespace()).collect();
        for word in text.split(|c: char| "(),".contains(c)) {
            let n = || word[3..4].parse::<u8>().unwrap();
            let (k, m) = match word.get(..2) {
                Some("RR" | "Rd") => (n(), Mode::Read),
                Some("WR" | "Wr") => (n(), Mode::Write),
                Some("RC") => (n() + FIRST_COMPONENT, Mode::Read),
                Some("WC") => (n() + FIRST_COMPONENT, Mode::Write),
                Some("En") => {
                    parts.push(Tree::Ent);
                    continue;
                }
                _ => continue,
            };
            parts.push(Tree::Leaf(k, m));
            match m {
                Mode::Read => reads.insert(S::id(k)),
                Mode::Write => writes.insert(S::id(k)),
            };
        }
        let t = Tree::Tuple(parts);
        if t.uses_entities::<S>() {
            reads.extend(S::entities_id());
        }
        (t, reads, writes)
    }
}

fn written_check<S: Source>(table: &[written::Entry<S>], n: usize, values: u8, cx: &mut Cx) -> R {
    let e = &table[n % table.len()];
    let (t, reads, writes) = written::wanted::<S>(e.name);
    let ok = t.wanted().is_some();
    cx.nontrivial_if(t.locks().len() > 1);
    let mut s = S::fresh();
    for k in 0..S::KEYS {
        s.set(k, Some(values as u32 + k as u32));
    }
    let d = (e.declared)();
    ensure_eq!(d, ok.then_some((reads, writes)), "{} declares", e.name);
    let seen: RefCell<R> = RefCell::new(Ok(()));
    let made = (e.made)(&s, &|| {
        let want = t.wanted().unwrap_or_default();
        *seen.borrow_mut() = (|| {
            for k in 0..S::KEYS {
                ensure_eq!(kind_of(&s, k)?, want.get(&k).copied(), "{} holds type {k}", e.name);
            }
            Ok(())
        })();
    });
    ensure_eq!(made, ok, "{} fetched", e.name);
    seen.into_inner()?;
    for k in 0..S::KEYS {
        ensure_eq!(kind_of(&s, k)?, None, "after {}, type {k}", e.name);
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct WrittenCase {
    world: bool,
    entry: u8,
    values: u8,
}

pub fn r03() -> Prop {
    Prop::new(
        "R03",
        vec![
            decl_leg::<ResourceSet>("set", 120_000),
            decl_leg::<World>("world", 120_000),
            Leg::new(
                "written",
                "one of 74 fetchable types written out in the harness, its accesses read off its text; non-trivial: several locks",
                (600, 4_000),
                || {
                    (any::<bool>(), any::<u8>(), any::<u8>())
                        .prop_map(|(world, entry, values)| WrittenCase { world, entry, values })
                },
                |c: &WrittenCase, cx: &mut Cx| {
                    if c.world {
                        written_check(&written::world(), c.entry as usize, c.values, cx)
                    } else {
                        written_check(&written::set(), c.entry as usize, c.values, cx)
                    }
                },
            ),
        ],
    )
}

// R02

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum BOp {
    Direct(Key, Mode),
    Fetch(Tree),
    Release(u8),
    /// The thread's latest guards (so many) are dropped by a panic.
    PanicOut(u8),
    /// Write through every exclusive guard of the thread.
    Store,
    /// The entities of a world can always be used.
    Entities,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct BCase {
    threads: u8,
    rounds: Vec<Round>,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Round {
    /// The types that are there, by bit.
    present: u8,
    ops: Vec<(u8, BOp)>,
}

fn bcase(keys: u8, ent: bool) -> impl Strategy<Value = BCase> {
    let op = prop_oneof![
        6 => (0..keys, prop_oneof![Just(Mode::Read), Just(Mode::Write)]).prop_map(|(k, m)| BOp::Direct(k, m)),
        6 => tree(keys, ent, 8).prop_map(BOp::Fetch),
        6 => any::<u8>().prop_map(BOp::Release),
        2 => (1u8..4).prop_map(BOp::PanicOut),
        3 => Just(BOp::Store),
        1 => Just(BOp::Entities),
    ];
    let round = (
        prop_oneof![3 => Just(0xffu8), 2 => any::<u8>(), 1 => any::<u8>().prop_map(|b| b | 0x77)],
        prop::collection::vec((0u8..4, op), 1..40),
    )
        .prop_map(|(present, ops)| Round { present, ops });
    (1u8..4, prop::collection::vec(round, 1..3)).prop_map(|(threads, rounds)| BCase { threads, rounds })
}

/// What the executing thread is told to do, and what it says.
enum Do {
    Acquire(BOp),
    Release(usize),
    PanicOut(usize),
    Store(u32),
    Look,
    Probe(Key, Mode),
    Entities,
}

#[derive(Debug, PartialEq, Clone)]
enum Said {
    Ok,
    Panicked,
    /// Per guard: key, whether exclusive, and the value seen.
    Saw(Vec<Vec<(Key, Mode, u32)>>),
}

fn obey<'a, S: Source>(s: &'a S, held: &mut Vec<Box<dyn Hold + 'a>>, d: Do) -> Said {
    match d {
        Do::Acquire(op) => {
            let r = catching(|| match &op {
                BOp::Direct(k, m) => s.direct(*k, *m),
                BOp::Fetch(t) => fetch(s, t),
                _ => unreachable!(),
            });
            match r {
                Ok(g) => {
                    held.push(g);
                    Said::Ok
                }
                Err(_) => Said::Panicked,
            }
        }
        Do::Release(n) => {
            drop(held.remove(n));
            Said::Ok
        }
        Do::PanicOut(n) => {
            let at = held.len() - n;
            let gone = held.split_off(at);
            let _ = catching(|| {
                let _gone = gone;
                panic!("while holding borrows")
            });
            Said::Ok
        }
        Do::Store(v) => {
            for g in held.iter_mut() {
                g.visit(&mut |_, a| {
                    if let Acc::Excl(r) = a {
                        *r = v;
                    }
                });
            }
            Said::Ok
        }
        Do::Look => Said::Saw(
            held.iter_mut()
                .map(|g| {
                    let mut v = vec![];
                    g.visit(&mut |k, a| {
                        v.push(match a {
                            Acc::Shared(x) => (k, Mode::Read, x),
                            Acc::Excl(x) => (k, Mode::Write, *x),
                        })
                    });
                    v
                })
                .collect(),
        ),
        Do::Probe(k, m) => match catching(|| drop(s.direct(k, m))) {
            Ok(()) => Said::Ok,
            Err(_) => Said::Panicked,
        },
        Do::Entities => match catching(|| drop(fetch(s, &Tree::Ent))) {
            Ok(()) => Said::Ok,
            Err(_) => Said::Panicked,
        },
    }
}

#[derive(Clone, Copy, Default, Debug, PartialEq)]
struct Lock {
    readers: u32,
    writer: bool,
}

impl Lock {
    fn try_take(&mut self, m: Mode) -> bool {
        match m {
            Mode::Read if !self.writer => {
                self.readers += 1;
                true
            }
            Mode::Write if !self.writer && self.readers == 0 => {
                self.writer = true;
                true
            }
            _ => false,
        }
    }
    fn give(&mut self, m: Mode) {
        match m {
            Mode::Read => self.readers -= 1,
            Mode::Write => self.writer = false,
        }
    }
}

fn borrow_check<S: Source>(c: &BCase, cx: &mut Cx) -> R {
    let mut s = S::fresh();
    let mut values: BTreeMap<Key, u32> = BTreeMap::new();
    let mut fresh = 0u32;
    let mut partial = false;
    let (mut refused, mut shared_over_threads) = (false, false);
    for (rn, round) in c.rounds.iter().enumerate() {
        for k in 0..S::KEYS {
            let here = round.present >> k & 1 == 1;
            ensure_eq!(s.has(k), values.contains_key(&k), "round {rn}: type {k} present");
            if here && !values.contains_key(&k) {
                fresh += 1;
                values.insert(k, fresh);
                s.set(k, Some(fresh));
            } else if !here && values.remove(&k).is_some() {
                s.set(k, None);
            }
        }
        let src = &s;
        let mut locks: BTreeMap<Key, Lock> = (0..S::KEYS).map(|k| (k, Lock::default())).collect();
        let threads = c.threads as usize;
        // Per thread, the locks of each guard in order of visiting.
        let mut held: Vec<Vec<Vec<(Key, Mode)>>> = vec![vec![]; threads];
        let r: R = std::thread::scope(|scope| {
            // Thread 0 is this one.
            let mut mine: Vec<Box<dyn Hold + '_>> = vec![];
            let others: Vec<_> = (1..threads)
                .map(|_| {
                    let (to, orders) = mpsc::channel::<Do>();
                    let (say, from) = mpsc::channel::<Said>();
                    scope.spawn(move || {
                        let mut held = vec![];
                        while let Ok(d) = orders.recv() {
                            if say.send(obey(src, &mut held, d)).is_err() {
                                break;
                            }
                        }
                    });
                    (to, from)
                })
                .collect();
            let mut tell = |t: usize, d: Do| -> Said {
                if t == 0 {
                    obey(src, &mut mine, d)
                } else {
                    others[t - 1].0.send(d).unwrap();
                    others[t - 1].1.recv().unwrap()
                }
            };
            let mut ops = round.ops.clone();
            // In the end everything is released, one by one.
            for n in 0..60 {
                ops.push((n, BOp::Release(n)));
            }
            for (n, (t, op)) in ops.iter().enumerate() {
                let t = *t as usize % threads;
                let at = || format!("round {rn}, operation {n} ({op:?}) on thread {t}");
                if n >= round.ops.len() && held.iter().all(|h| h.is_empty()) {
                    break;
                }
                match op {
                    BOp::Direct(..) | BOp::Fetch(_) => {
                        let wants = match op {
                            BOp::Direct(k, m) => vec![(*k, *m)],
                            BOp::Fetch(t) => t.locks(),
                            _ => unreachable!(),
                        };
                        let mut after = locks.clone();
                        let mut done = 0;
                        let ok = wants.iter().all(|(k, m)| {
                            let ok = values.contains_key(k) && after.get_mut(k).unwrap().try_take(*m);
                            done += ok as u32;
                            ok
                        });
                        let said = tell(t, Do::Acquire(op.clone()));
                        let want = if ok { Said::Ok } else { Said::Panicked };
                        ensure_eq!(said, want, "{}, with {:?} held", at(), held);
                        if ok {
                            locks = after;
                            held[t].push(wants);
                        } else {
                            refused = true;
                            partial |= done > 0;
                        }
                    }
                    BOp::Release(i) => {
                        if !held[t].is_empty() {
                            let i = *i as usize % held[t].len();
                            for (k, m) in held[t].remove(i) {
                                locks.get_mut(&k).unwrap().give(m);
                            }
                            tell(t, Do::Release(i));
                        }
                    }
                    BOp::PanicOut(i) => {
                        let i = (*i as usize).min(held[t].len());
                        let at = held[t].len() - i;
                        for (k, m) in held[t].split_off(at).into_iter().flatten() {
                            locks.get_mut(&k).unwrap().give(m);
                        }
                        tell(t, Do::PanicOut(i));
                    }
                    BOp::Store => {
                        fresh += 1;
                        tell(t, Do::Store(fresh));
                        for (k, m) in held[t].iter().flatten() {
                            if *m == Mode::Write {
                                values.insert(*k, fresh);
                            }
                        }
                    }
                    BOp::Entities => {
                        ensure_eq!(tell(t, Do::Entities), Said::Ok, "{}", at());
                    }
                }
                // Everyone sees the current values through what they hold.
                for u in 0..threads {
                    let want: Vec<Vec<(Key, Mode, u32)>> = held[u]
                        .iter()
                        .map(|g| g.iter().map(|(k, m)| (*k, *m, values[k])).collect())
                        .collect();
                    ensure_eq!(tell(u, Do::Look), Said::Saw(want), "{}: seen by thread {u}", at());
                }
                for (k, l) in &locks {
                    shared_over_threads |= l.readers > 1 && threads > 1;
                    let there = values.contains_key(k);
                    // Looked at from one thread or another.
                    let u = (n + *k as usize) % threads;
                    let want = |ok: bool| if ok { Said::Ok } else { Said::Panicked };
                    ensure_eq!(
                        tell(u, Do::Probe(*k, Mode::Read)),
                        want(there && !l.writer),
                        "{}: then a shared borrow of type {k} on thread {u}, with {:?} held",
                        at(),
                        held
                    );
                    ensure_eq!(
                        tell(u, Do::Probe(*k, Mode::Write)),
                        want(there && !l.writer && l.readers == 0),
                        "{}: then an exclusive borrow of type {k} on thread {u}, with {:?} held",
                        at(),
                        held
                    );
                }
            }
            Ok(())
        });
        r?;
    }
    for (k, v) in &values {
        ensure_eq!(s.exclusive(*k), *v, "value of type {k} at the end");
    }
    cx.label_if(refused, "a borrow was refused");
    cx.label_if(partial, "a fetch failed part-way");
    cx.label_if(shared_over_threads, "several readers");
    cx.label_if(c.threads > 1, "several threads");
    cx.nontrivial_if(refused && partial);
    Ok(())
}

fn borrow_leg<S: Source>(name: &'static str, n: u64) -> Leg {
    Leg::new(
        name,
        "histories of direct borrows, tuple fetches, releases and panics by 1 to 3 threads taking turns; each type's lock probed after each; non-trivial: a borrow was refused and a fetch failed part-way",
        (n, n * 40),
        || bcase(S::KEYS, S::HAS_ENTITIES),
        borrow_check::<S>,
    )
}

// Threads at the same time.

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct StressCase {
    /// Per thread, the borrows it tries one after the other, and for how long it holds each.
    threads: Vec<Vec<(Tree, u8)>>,
}

struct Span {
    start: u64,
    end: u64,
    locks: Vec<(Key, Mode)>,
    ok: bool,
    thread: usize,
}

fn stress_check<S: Source>(c: &StressCase, cx: &mut Cx) -> R {
    let mut s = S::fresh();
    for k in 0..S::KEYS {
        s.set(k, Some(0));
    }
    let s = &s;
    let clock = AtomicU64::new(0);
    let clock = &clock;
    let going = AtomicBool::new(false);
    let going = &going;
    let ready = AtomicI32::new(0);
    let ready = &ready;
    let n = c.threads.len() as i32;
    // Positive: readers; negative: a writer.
    let state: Vec<AtomicI32> = (0..S::KEYS).map(|_| AtomicI32::new(0)).collect();
    let state = &state;
    let results: Vec<Result<Vec<Span>, String>> = std::thread::scope(|scope| {
        let handles: Vec<_> = c
            .threads
            .iter()
            .enumerate()
            .map(|(t, plan)| {
                scope.spawn(move || -> Result<Vec<Span>, String> {
                    let mut spans = vec![];
                    let mut bad: R = Ok(());
                    ready.fetch_add(1, Ordering::SeqCst);
                    while ready.load(Ordering::SeqCst) < n && !going.load(Ordering::Relaxed) {
                        std::hint::spin_loop();
                    }
                    for (tree, hold) in plan {
                        let start = clock.fetch_add(1, Ordering::SeqCst);
                        let r = catching(|| fetch(s, tree));
                        let ok = r.is_ok();
                        if let Ok(mut g) = r {
                            g.visit(&mut |k, a| match a {
                                Acc::Shared(_) => {
                                    if state[k as usize].fetch_add(1, Ordering::SeqCst) < 0 {
                                        bad = Err(format!("type {k} shared while borrowed exclusively"));
                                    }
                                }
                                Acc::Excl(v) => {
                                    *v += 1;
                                    if state[k as usize].fetch_sub(1000, Ordering::SeqCst) != 0 {
                                        bad = Err(format!("type {k} borrowed exclusively while borrowed"));
                                    }
                                }
                            });
                            for _ in 0..*hold as u32 * 8 {
                                std::hint::spin_loop();
                            }
                            g.visit(&mut |k, a| match a {
                                Acc::Shared(_) => {
                                    state[k as usize].fetch_sub(1, Ordering::SeqCst);
                                }
                                Acc::Excl(_) => {
                                    state[k as usize].fetch_add(1000, Ordering::SeqCst);
                                }
                            });
                        }
                        let end = clock.fetch_add(1, Ordering::SeqCst);
                        spans.push(Span {
                            start,
                            end,
                            locks: tree.locks(),
                            ok,
                            thread: t,
                        });
                    }
                    bad.map(|_| spans)
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut spans = vec![];
    for r in results {
        spans.extend(r?);
    }
    let mut overlapped = false;
    for a in &spans {
        if a.ok {
            continue;
        }
        // A failing fetch holds its first parts for a while, so that it can get in others' way, too.
        let why = spans.iter().any(|b| {
            b.thread != a.thread
                && b.start < a.end
                && a.start < b.end
                && b.locks.iter().any(|(k, m)| {
                    a.locks
                        .iter()
                        .any(|(k2, m2)| k == k2 && (*m == Mode::Write || *m2 == Mode::Write))
                })
        });
        overlapped |= why;
        let selfish = {
            let mut l: BTreeMap<Key, Lock> = BTreeMap::new();
            !a.locks.iter().all(|(k, m)| l.entry(*k).or_default().try_take(*m))
        };
        ensure!(why || selfish, "a borrow of {:?} was refused with nothing in its way", a.locks);
    }
    for k in 0..S::KEYS {
        ensure_eq!(kind_of(s, k)?, None, "after the threads, type {k}");
    }
    // No write was lost.
    for k in 0..S::KEYS {
        let want = spans
            .iter()
            .filter(|a| a.ok)
            .flat_map(|a| &a.locks)
            .filter(|l| **l == (k, Mode::Write))
            .count() as u32;
        let mut got = 0;
        s.direct(k, Mode::Read).visit(&mut |_, a| {
            if let Acc::Shared(v) = a {
                got = v;
            }
        });
        ensure_eq!(got, want, "writes to type {k} that arrived");
    }
    cx.label_if(overlapped, "refused because of another thread");
    cx.nontrivial_if(overlapped);
    Ok(())
}

fn stress_case<S: Source>() -> impl Strategy<Value = StressCase> {
    let part = (0u8..2.min(S::KEYS), prop_oneof![2 => Just(Mode::Read), 1 => Just(Mode::Write)])
        .prop_map(|(k, m)| Tree::Leaf(k + if S::KEYS > 4 { 3 } else { 0 }, m));
    let t = prop::collection::vec(part, 1..3).prop_map(Tree::Tuple);
    prop::collection::vec(prop::collection::vec((t, 0u8..40), 4..30), 2..5)
        .prop_map(|threads| StressCase { threads })
}

fn stress_leg<S: Source>(name: &'static str, n: u64) -> Leg {
    Leg::new(
        name,
        "2 to 4 threads fetching and releasing at the same time; a refusal needs a conflicting borrow overlapping it, and exclusive really is; non-trivial: a thread was refused because of another",
        (n, n * 40),
        stress_case::<S>,
        stress_check::<S>,
    )
    .workers(2)
}

/// For the sanitizers and Miri.
pub fn memory_legs() -> Vec<Leg> {
    const RULE: &str = "the borrows of R02; non-trivial as there";
    vec![
        Leg::new("borrows", RULE, (0, 0), || bcase(World::KEYS, World::HAS_ENTITIES), lax(borrow_check::<World>))
            .also(crate::engine::Mode::Asan, 1_000, 40_000),
        Leg::new("borrows at once", RULE, (0, 0), stress_case::<World>, lax(stress_check::<World>))
            .workers(2)
            .also(crate::engine::Mode::Tsan, 500, 20_000),
    ]
}

pub fn r02() -> Prop {
    Prop::new(
        "R02",
        vec![
            borrow_leg::<ResourceSet>("set", 15_000),
            borrow_leg::<World>("world", 12_000),
            stress_leg::<ResourceSet>("set-at-once", 5_000),
            stress_leg::<World>("world-at-once", 5_000),
        ],
    )
}
