//! S01, S03, S04: one storage against a map, its slice, and its record of changes.

use std::collections::{BTreeMap, BTreeSet};

use goggles::{
    hibitset::{BitSet, BitSetLike},
    DenseVecStorage, Flagged, HashMapStorage, IntoJoinExt, MaskedStorage, ParJoinExt, RawStorage,
    VecStorage,
};
use proptest::prelude::*;
use rayon::iter::ParallelIterator;
use serde::{Deserialize, Serialize};

use super::own::Own;
use super::val::{Huge, Odd, Val, Wide, Zst};
use crate::{
    engine::{catching, lax, Cx, Leg, Mode, Prop, R},
    ensure, ensure_eq,
};

pub const CAP: u32 = 1 << 24;

/// Indexes around the places where bitset layers and vectors change.
pub fn index() -> impl Strategy<Value = u32> {
    prop_oneof![
        12 => 0u32..12,
        6 => 0u32..200,
        4 => (prop::sample::select(vec![6u32, 7, 8, 10, 12, 13]), -2i32..2)
            .prop_map(|(b, d)| ((1i32 << b) + d) as u32),
        1 => (prop::sample::select(vec![14u32, 17, 18, 19]), -2i32..2)
            .prop_map(|(b, d)| ((1i32 << b) + d) as u32),
        1 => 0u32..20_000,
    ]
}

fn far_index() -> impl Strategy<Value = u32> {
    prop_oneof![
        2 => index(),
        2 => (prop::sample::select(vec![18u32, 20, 22, 23]), -2i32..2)
            .prop_map(|(b, d)| ((1i32 << b) + d) as u32),
        1 => (0u32..5).prop_map(|d| CAP - 1 - d),
        1 => 0..CAP,
    ]
}

fn too_large() -> impl Strategy<Value = u32> {
    prop_oneof![
        3 => Just(CAP),
        2 => (0u32..100).prop_map(|d| CAP + d),
        1 => CAP..=u32::MAX,
        1 => Just(u32::MAX),
    ]
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub enum Kind {
    Vec,
    Dense,
    Map,
    FlaggedVec,
    FlaggedDense,
    FlaggedMap,
    Own,
    FlaggedOwn,
}

pub fn kind() -> impl Strategy<Value = Kind> {
    prop::sample::select(vec![
        Kind::Vec,
        Kind::Dense,
        Kind::Map,
        Kind::FlaggedVec,
        Kind::FlaggedDense,
        Kind::FlaggedMap,
        Kind::Own,
        Kind::FlaggedOwn,
    ])
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub enum ValKind {
    U64,
    U8,
    Zst,
    Str,
    Boxed,
    Wide,
    Odd,
    Huge,
}

fn val_kind() -> impl Strategy<Value = ValKind> {
    prop::sample::select(vec![
        ValKind::U64,
        ValKind::U8,
        ValKind::Zst,
        ValKind::Str,
        ValKind::Boxed,
        ValKind::Wide,
        ValKind::Odd,
        ValKind::Huge,
    ])
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    Insert(u8, u32),
    Remove(u8),
    Get(u8),
    Write(u8, u32),
    GuardRead(u8),
    GuardWrite(u8, u32),
    /// And writes through the reference if told so.
    GetOrInsert(u8, u32, bool),
    GetOrInsertPanic(u8),
    Contains(u8),
    TooLarge(u32),
    InsertRange(u16, u16),
    RemoveRange(u16, u16, u8),
    /// Join mutably, writing to the first few.
    JoinWrite(u8, u32),
    GuardJoinWrite(u8, u32),
    Join,
    Track(bool),
    Mark(u8),
    ClearModified,
    /// Move the storage elsewhere.
    Move,
    /// Drop it and start again.
    Fresh,
    Full,
}

fn op() -> impl Strategy<Value = Op> {
    let s = || any::<u8>();
    let v = || any::<u32>();
    prop_oneof![
        12 => (s(), v()).prop_map(|(s, v)| Op::Insert(s, v)),
        10 => s().prop_map(Op::Remove),
        4 => s().prop_map(Op::Get),
        5 => (s(), v()).prop_map(|(s, v)| Op::Write(s, v)),
        2 => s().prop_map(Op::GuardRead),
        4 => (s(), v()).prop_map(|(s, v)| Op::GuardWrite(s, v)),
        6 => (s(), v(), any::<bool>()).prop_map(|(s, v, w)| Op::GetOrInsert(s, v, w)),
        2 => s().prop_map(Op::GetOrInsertPanic),
        2 => s().prop_map(Op::Contains),
        1 => too_large().prop_map(Op::TooLarge),
        1 => (0u16..300, 1u16..150).prop_map(|(a, b)| Op::InsertRange(a, b)),
        1 => (0u16..300, 1u16..150, 1u8..5).prop_map(|(a, b, c)| Op::RemoveRange(a, b, c)),
        2 => (s(), v()).prop_map(|(n, v)| Op::JoinWrite(n, v)),
        2 => (s(), v()).prop_map(|(n, v)| Op::GuardJoinWrite(n, v)),
        2 => Just(Op::Join),
        1 => any::<bool>().prop_map(Op::Track),
        1 => s().prop_map(Op::Mark),
        1 => Just(Op::ClearModified),
        1 => Just(Op::Move),
        1 => Just(Op::Fresh),
        2 => Just(Op::Full),
    ]
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    val: ValKind,
    /// The indexes that operations choose from.
    pool: Vec<u32>,
    ops: Vec<Op>,
}

fn case(far: bool, max_ops: usize) -> impl Strategy<Value = Case> {
    let idx = if far {
        far_index().boxed()
    } else {
        index().boxed()
    };
    (
        kind(),
        val_kind(),
        prop::collection::vec(idx, 1..if far { 4 } else { 10 }),
        prop::collection::vec(op(), 1..max_ops),
    )
        .prop_map(move |(kind, val, mut pool, ops)| {
            // A slice of them is as long as the greatest index.
            let most = match val {
                ValKind::Wide => 1 << 16,
                ValKind::Huge => 1 << 12,
                _ => u32::MAX,
            };
            for i in &mut pool {
                *i %= most;
            }
            Case {
                kind,
                val,
                pool,
                ops,
            }
        })
}

/// Change tracking where the storage has it.
pub trait MaybeTracked: RawStorage + Default + Send + Sync {
    fn track(_: &mut MaskedStorage<Self>, _: bool) {}
    fn mark(_: &MaskedStorage<Self>, _: u32) {}
    fn clear(_: &mut MaskedStorage<Self>) {}
}

impl<T: Val> MaybeTracked for VecStorage<T> {}
impl<T: Val> MaybeTracked for DenseVecStorage<T> {}
impl<T: Val> MaybeTracked for HashMapStorage<T> {}
impl<T: Val> MaybeTracked for Own<T> {}
impl<S: RawStorage + Default + Send + Sync> MaybeTracked for Flagged<S> {
    fn track(s: &mut MaskedStorage<Self>, f: bool) {
        s.set_track_modified(f)
    }
    fn mark(s: &MaskedStorage<Self>, i: u32) {
        s.mark_modified(i)
    }
    fn clear(s: &mut MaskedStorage<Self>) {
        s.clear_modified()
    }
}

macro_rules! dispatch {
    ($kind:expr, $val:expr, $run:ident ( $($arg:expr),* )) => {
        match $val {
            ValKind::U64 => dispatch!(@ $kind, u64, $run($($arg),*)),
            ValKind::U8 => dispatch!(@ $kind, u8, $run($($arg),*)),
            ValKind::Zst => dispatch!(@ $kind, Zst, $run($($arg),*)),
            ValKind::Str => dispatch!(@ $kind, String, $run($($arg),*)),
            ValKind::Boxed => dispatch!(@ $kind, Box<u32>, $run($($arg),*)),
            ValKind::Wide => dispatch!(@ $kind, Wide, $run($($arg),*)),
            ValKind::Odd => dispatch!(@ $kind, Odd, $run($($arg),*)),
            ValKind::Huge => dispatch!(@ $kind, Huge, $run($($arg),*)),
        }
    };
    (@ $kind:expr, $v:ty, $run:ident ( $($arg:expr),* )) => {
        match $kind {
            Kind::Vec => $run::<VecStorage<$v>>($($arg),*),
            Kind::Dense => $run::<DenseVecStorage<$v>>($($arg),*),
            Kind::Map => $run::<HashMapStorage<$v>>($($arg),*),
            Kind::FlaggedVec => $run::<Flagged<VecStorage<$v>>>($($arg),*),
            Kind::FlaggedDense => $run::<Flagged<DenseVecStorage<$v>>>($($arg),*),
            Kind::FlaggedMap => $run::<Flagged<HashMapStorage<$v>>>($($arg),*),
            Kind::Own => $run::<Own<$v>>($($arg),*),
            Kind::FlaggedOwn => $run::<Flagged<Own<$v>>>($($arg),*),
        }
    };
}

struct Panicking;

fn run_map<S>(c: &Case, cx: &mut Cx) -> R
where
    S: MaybeTracked,
    S::Item: Val,
{
    let fit = <S::Item as Val>::fits;
    let make = |n: u32| <S::Item as Val>::make(fit(n));
    let mut s = Box::new(MaskedStorage::<S>::default());
    let mut m: BTreeMap<u32, u32> = BTreeMap::new();
    let (mut overwrote, mut reinserted, mut removed) = (false, false, BTreeSet::new());

    for (n, op) in c.ops.iter().enumerate() {
        let at = |i: u8| c.pool[i as usize % c.pool.len()];
        let res = (|| -> R {
            match *op {
                Op::Insert(i, v) => {
                    let i = at(i);
                    let old = s.insert(i, make(v)).map(|v| v.num());
                    let want = m.insert(i, fit(v));
                    overwrote |= want.is_some();
                    reinserted |= removed.contains(&i);
                    ensure_eq!(old, want, "insert at {i} gave back");
                }
                Op::Remove(i) => {
                    let i = at(i);
                    let old = s.remove(i).map(|v| v.num());
                    if m.contains_key(&i) {
                        removed.insert(i);
                    }
                    ensure_eq!(old, m.remove(&i), "remove at {i}");
                }
                Op::Get(i) => {
                    let i = at(i);
                    ensure_eq!(s.get(i).map(|v| v.num()), m.get(&i).copied(), "get({i})");
                    if s.mask().contains(i) {
                        let raw = unsafe { s.raw_storage().get(i).num() };
                        ensure_eq!(Some(raw), m.get(&i).copied(), "raw_storage().get({i})");
                        let raw = unsafe { s.raw_storage_mut().get(i).num() };
                        ensure_eq!(Some(raw), m.get(&i).copied(), "raw_storage_mut().get({i})");
                    }
                }
                Op::Write(i, v) => {
                    let i = at(i);
                    match s.get_mut(i) {
                        None => ensure_eq!(None, m.get(&i).copied(), "get_mut({i})"),
                        Some(r) => {
                            ensure_eq!(Some(r.num()), m.get(&i).copied(), "get_mut({i})");
                            *r = make(v);
                            m.insert(i, fit(v));
                        }
                    }
                }
                Op::GuardRead(i) => {
                    let i = at(i);
                    let got = s.get_guard(i).map(|g| g.get().num());
                    ensure_eq!(got, m.get(&i).copied(), "get_guard({i}).get()");
                }
                Op::GuardWrite(i, v) => {
                    let i = at(i);
                    match s.get_guard(i) {
                        None => ensure_eq!(None, m.get(&i).copied(), "get_guard({i})"),
                        Some(mut g) => {
                            ensure_eq!(Some(g.get().num()), m.get(&i).copied(), "get_guard({i})");
                            *g.get_mut() = make(v);
                            ensure_eq!(g.get().num(), fit(v), "guard's value after a write");
                            m.insert(i, fit(v));
                        }
                    }
                }
                Op::GetOrInsert(i, v, write) => {
                    let i = at(i);
                    let mut ran = 0;
                    let r = s.get_or_insert_with(i, || {
                        ran += 1;
                        make(v)
                    });
                    let want = *m.entry(i).or_insert_with(|| fit(v));
                    ensure_eq!(r.num(), want, "get_or_insert_with at {i}");
                    if write {
                        *r = make(v ^ 0x55);
                        m.insert(i, fit(v ^ 0x55));
                    }
                    ensure!(ran <= 1, "closure ran {ran} times");
                }
                Op::GetOrInsertPanic(i) => {
                    let i = at(i);
                    let had = m.get(&i).copied();
                    let got = catching(|| {
                        s.get_or_insert_with(i, || std::panic::panic_any(Panicking))
                            .num()
                    });
                    match (got, had) {
                        (Ok(v), Some(w)) => ensure_eq!(v, w, "get_or_insert_with at {i}"),
                        (Err(_), None) => {}
                        (Ok(_), None) => return Err(format!("a value at {i} from nowhere")),
                        (Err(_), Some(_)) => {
                            return Err(format!("the closure ran although {i} is occupied"))
                        }
                    }
                }
                Op::Contains(i) => {
                    let i = at(i);
                    ensure_eq!(s.contains(i), m.contains_key(&i), "contains({i})");
                }
                Op::TooLarge(i) => {
                    ensure!(!s.contains(i), "contains({i})");
                    ensure!(s.get(i).is_none(), "get({i})");
                    ensure!(s.get_mut(i).is_none(), "get_mut({i})");
                    ensure!(s.get_guard(i).is_none(), "get_guard({i})");
                    ensure!(s.remove(i).is_none(), "remove({i})");
                    ensure!(
                        catching(|| s.insert(i, make(1)).is_some()).is_err(),
                        "insert at {i} was accepted"
                    );
                    ensure!(
                        catching(|| s.get_or_insert_with(i, || make(1)).num()).is_err(),
                        "get_or_insert_with at {i} was accepted"
                    );
                }
                Op::InsertRange(a, len) => {
                    for i in a as u32..a as u32 + len as u32 {
                        let old = s.insert(i, make(i + 7)).map(|v| v.num());
                        ensure_eq!(old, m.insert(i, fit(i + 7)), "insert at {i} gave back");
                    }
                }
                Op::RemoveRange(a, len, step) => {
                    for i in (a as u32..a as u32 + len as u32).step_by(step as usize) {
                        let old = s.remove(i).map(|v| v.num());
                        ensure_eq!(old, m.remove(&i), "remove at {i}");
                    }
                }
                Op::JoinWrite(k, v) => {
                    let mut n = 0;
                    for (r, (i, w)) in (&mut *s).join().zip(m.iter_mut()).take(k as usize % 40) {
                        ensure_eq!(r.num(), *w, "mutable join at {i}");
                        let new = v.wrapping_add(*i);
                        *r = make(new);
                        *w = fit(new);
                        n += 1;
                    }
                    ensure!(n == m.len().min(k as usize % 40), "mutable join is too short");
                }
                Op::GuardJoinWrite(k, v) => {
                    let mut n = 0;
                    for (mut g, (i, w)) in s.guard().join().zip(m.iter_mut()).take(k as usize % 40) {
                        ensure_eq!(g.get().num(), *w, "guarded join at {i}");
                        if i & 1 == 0 {
                            let new = v.wrapping_add(*i);
                            *g.get_mut() = make(new);
                            *w = fit(new);
                        }
                        n += 1;
                    }
                    ensure!(n == m.len().min(k as usize % 40), "guarded join is too short");
                }
                Op::Join => {
                    let got: Vec<u32> = (&*s).join().map(|v| v.num()).collect();
                    let want: Vec<u32> = m.values().copied().collect();
                    ensure_eq!(got, want, "join");
                }
                Op::Track(f) => S::track(&mut s, f),
                Op::Mark(i) => S::mark(&s, at(i)),
                Op::ClearModified => S::clear(&mut s),
                Op::Move => {
                    let moved = std::mem::take(&mut *s);
                    ensure!((&*s).join().count() == 0, "a fresh storage is not empty");
                    s = Box::new(moved);
                }
                Op::Fresh => {
                    s = Box::default();
                    m.clear();
                    removed.clear();
                }
                Op::Full => full_map(&s, &m)?,
            }
            for i in &c.pool {
                ensure_eq!(s.contains(*i), m.contains_key(i), "contains({i})");
                ensure_eq!(s.get(*i).map(|v| v.num()), m.get(i).copied(), "get({i})");
            }
            Ok(())
        })();
        res.map_err(|e| format!("operation {n} ({op:?}): {e}"))?;
    }
    full_map(&s, &m).map_err(|e| format!("at the end: {e}"))?;
    cx.label_if(overwrote, "overwrote");
    cx.label_if(reinserted, "inserted again where removed");
    cx.label_if(c.pool.iter().any(|i| *i >= 4096), "index above 4096");
    cx.label_if(c.pool.iter().any(|i| *i >= 262144), "index above 262144");
    cx.nontrivial_if(overwrote && reinserted);
    Ok(())
}

fn full_map<S: RawStorage>(s: &MaskedStorage<S>, m: &BTreeMap<u32, u32>) -> R
where
    S::Item: Val,
{
    let want: Vec<u32> = m.keys().copied().collect();
    let got: Vec<u32> = s.mask().iter().collect();
    ensure_eq!(got, want, "mask");
    let got: Vec<(u32, u32)> = (s.mask(), s).join().map(|(i, v)| (i, v.num())).collect();
    let want: Vec<(u32, u32)> = m.iter().map(|(i, v)| (*i, *v)).collect();
    ensure_eq!(got, want, "join with the mask");
    for (i, v) in m {
        ensure_eq!(s.get(*i).map(|v| v.num()), Some(*v), "get({i})");
        ensure!(s.contains(*i), "contains({i})");
        for j in [i.wrapping_sub(1), i + 1, i ^ 64, i ^ 4096] {
            ensure_eq!(s.contains(j), m.contains_key(&j), "contains({j})");
            ensure_eq!(s.get(j).map(|v| v.num()), m.get(&j).copied(), "get({j})");
        }
    }
    Ok(())
}

const MAP_RULE: &str = "operation sequences on a storage of one of 6 kinds holding one of 8 value types, over a \
small pool of indexes taken around layer boundaries; non-trivial: some value was overwritten and some index \
filled again after a removal";

fn check_map(c: &Case, cx: &mut Cx) -> R {
    dispatch!(c.kind, c.val, run_map(c, cx))
}

pub fn s01() -> Prop {
    let check = check_map;
    Prop::new(
        "S01",
        vec![
            Leg::new("map", MAP_RULE, (250_000, 6_000_000), || case(false, 70), check),
            Leg::new("long", MAP_RULE, (12_000, 400_000), || case(false, 600), check),
            Leg::new("far", MAP_RULE, (3_000, 80_000), || case(true, 60), check),
            super::large::leg(1_500, 60_000),
        ],
    )
}

// S03

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub enum SliceOp {
    Insert(u8),
    Remove(u8),
    Write(u8),
    GetOrInsert(u8),
    InsertRange(u8, u8),
    RemoveRange(u8, u8, u8),
    JoinWrite,
    SliceWrite(u8),
    SliceSwap(u8, u8),
    SliceReverse,
    SliceFill,
    Take,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SliceCase {
    val: ValKind,
    pool: Vec<u32>,
    ops: Vec<SliceOp>,
}

fn slice_case(max: usize) -> impl Strategy<Value = SliceCase> {
    let s = || any::<u8>();
    let op = prop_oneof![
        10 => s().prop_map(SliceOp::Insert),
        10 => s().prop_map(SliceOp::Remove),
        3 => s().prop_map(SliceOp::Write),
        3 => s().prop_map(SliceOp::GetOrInsert),
        1 => (s(), 1u8..100).prop_map(|(a, b)| SliceOp::InsertRange(a, b)),
        1 => (s(), 1u8..100, 1u8..5).prop_map(|(a, b, c)| SliceOp::RemoveRange(a, b, c)),
        1 => Just(SliceOp::JoinWrite),
        3 => s().prop_map(SliceOp::SliceWrite),
        3 => (s(), s()).prop_map(|(a, b)| SliceOp::SliceSwap(a, b)),
        1 => Just(SliceOp::SliceReverse),
        1 => Just(SliceOp::SliceFill),
        1 => Just(SliceOp::Take),
    ];
    (
        val_kind(),
        prop::collection::vec(index(), 1..20),
        prop::collection::vec(op, 1..max),
    )
        .prop_map(|(val, pool, ops)| SliceCase { val, pool, ops })
}

fn run_slice<V: Val>(c: &SliceCase, cx: &mut Cx) -> R {
    let mut s = MaskedStorage::<DenseVecStorage<V>>::default();
    let mut m: BTreeMap<u32, u32> = BTreeMap::new();
    let mut next = 0u32;
    let mut fresh = || {
        next += 1;
        next
    };
    let zst = std::mem::size_of::<V>() == 0;
    // Which index owns each element of the slice.
    let owners = |s: &MaskedStorage<DenseVecStorage<V>>,
                  m: &BTreeMap<u32, u32>|
     -> Result<Vec<u32>, String> {
        let slice = s.as_slice();
        ensure_eq!(slice.len(), m.len(), "length of the slice");
        if zst {
            return Ok(m.keys().copied().collect());
        }
        let mut owner = vec![None; slice.len()];
        for i in m.keys() {
            let Some(r) = s.get(*i) else {
                return Err(format!("nothing at {i}"));
            };
            let off = (r as *const V as usize).wrapping_sub(slice.as_ptr() as usize);
            let at = off / std::mem::size_of::<V>();
            ensure!(
                off % std::mem::size_of::<V>() == 0 && at < slice.len(),
                "index {i} refers outside of the slice"
            );
            ensure!(owner[at].is_none(), "indexes {i} and {:?} share an element", owner[at]);
            owner[at] = Some(*i);
        }
        Ok(owner.into_iter().map(|o| o.unwrap()).collect())
    };
    let (mut swapped, mut moved) = (false, false);
    for (n, op) in c.ops.iter().enumerate() {
        let at = |i: u8| c.pool[i as usize % c.pool.len()];
        let res = (|| -> R {
            match *op {
                SliceOp::Insert(i) => {
                    let v = fresh();
                    s.insert(at(i), V::make(v));
                    m.insert(at(i), V::fits(v));
                }
                SliceOp::Remove(i) => {
                    let old = s.remove(at(i)).map(|v| v.num());
                    ensure_eq!(old, m.remove(&at(i)), "remove");
                    moved |= old.is_some() && m.len() > 1;
                }
                SliceOp::Write(i) => {
                    let v = fresh();
                    if let Some(r) = s.get_mut(at(i)) {
                        *r = V::make(v);
                        m.insert(at(i), V::fits(v));
                    }
                }
                SliceOp::GetOrInsert(i) => {
                    let v = fresh();
                    s.get_or_insert_with(at(i), || V::make(v));
                    m.entry(at(i)).or_insert(V::fits(v));
                }
                SliceOp::InsertRange(a, n) => {
                    for i in a as u32..a as u32 + n as u32 {
                        let v = fresh();
                        s.insert(i, V::make(v));
                        m.insert(i, V::fits(v));
                    }
                }
                SliceOp::RemoveRange(a, n, st) => {
                    for i in (a as u32..a as u32 + n as u32).step_by(st as usize) {
                        s.remove(i);
                        m.remove(&i);
                    }
                }
                SliceOp::JoinWrite => {
                    for (r, w) in (&mut s).join().zip(m.values_mut()) {
                        let v = fresh();
                        *r = V::make(v);
                        *w = V::fits(v);
                    }
                }
                SliceOp::SliceWrite(k) => {
                    let o = owners(&s, &m)?;
                    if !o.is_empty() {
                        let k = k as usize % o.len();
                        let v = fresh();
                        s.as_mut_slice()[k] = V::make(v);
                        m.insert(o[k], V::fits(v));
                    }
                }
                SliceOp::SliceSwap(a, b) => {
                    let o = owners(&s, &m)?;
                    if !o.is_empty() {
                        let (a, b) = (a as usize % o.len(), b as usize % o.len());
                        s.as_mut_slice().swap(a, b);
                        let (x, y) = (m[&o[a]], m[&o[b]]);
                        m.insert(o[a], y);
                        m.insert(o[b], x);
                        swapped |= a != b;
                    }
                }
                SliceOp::SliceReverse => {
                    let o = owners(&s, &m)?;
                    s.as_mut_slice().reverse();
                    let vals: Vec<u32> = o.iter().rev().map(|i| m[i]).collect();
                    for (i, v) in o.iter().zip(vals) {
                        m.insert(*i, v);
                    }
                }
                SliceOp::SliceFill => {
                    let o = owners(&s, &m)?;
                    ensure_eq!(s.as_mut_slice().len(), o.len(), "length of the mutable slice");
                    for (r, i) in s.as_mut_slice().iter_mut().zip(o) {
                        let v = fresh();
                        *r = V::make(v);
                        m.insert(i, V::fits(v));
                    }
                }
                SliceOp::Take => {
                    s = Some(std::mem::take(&mut s)).unwrap();
                }
            }
            // The slice holds each value once.
            let mut got: Vec<u32> = s.as_slice().iter().map(|v| v.num()).collect();
            got.sort();
            let mut want: Vec<u32> = m.values().copied().collect();
            want.sort();
            ensure_eq!(got, want, "values in the slice, sorted");
            for (k, i) in owners(&s, &m)?.into_iter().enumerate() {
                ensure_eq!(s.as_slice()[k].num(), m[&i], "the element of index {i} in the slice");
                ensure_eq!(s.get(i).map(|v| v.num()), Some(m[&i]), "get({i})");
            }
            ensure_eq!(
                s.mask().iter().collect::<Vec<_>>(),
                m.keys().copied().collect::<Vec<_>>(),
                "occupied indexes"
            );
            Ok(())
        })();
        res.map_err(|e| format!("operation {n} ({op:?}): {e}"))?;
    }
    cx.label_if(swapped, "elements swapped through the slice");
    cx.label_if(moved, "removal that may move another element");
    cx.nontrivial_if(moved && c.ops.len() > 3);
    Ok(())
}

fn check_slice(c: &SliceCase, cx: &mut Cx) -> R {
    match c.val {
        ValKind::U64 => run_slice::<u64>(c, cx),
        ValKind::U8 => run_slice::<u8>(c, cx),
        ValKind::Zst => run_slice::<Zst>(c, cx),
        ValKind::Str => run_slice::<String>(c, cx),
        ValKind::Boxed => run_slice::<Box<u32>>(c, cx),
        ValKind::Wide => run_slice::<Wide>(c, cx),
        ValKind::Odd => run_slice::<Odd>(c, cx),
        ValKind::Huge => run_slice::<Huge>(c, cx),
    }
}

pub fn s03() -> Prop {
    let check = check_slice;
    const RULE: &str = "operation sequences by index and through the slice on a dense storage of one of 8 value \
types, slice and owners of its elements compared after each; non-trivial: a removal from several elements";
    Prop::new(
        "S03",
        vec![
            Leg::new("slice", RULE, (300_000, 6_000_000), || slice_case(50), check),
            Leg::new("long", RULE, (8_000, 300_000), || slice_case(400), check),
            super::large::dense(800, 40_000),
        ],
    )
}

// S04

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub enum TrackOp {
    Track(bool),
    Clear,
    Insert(u8),
    Remove(u8),
    Get(u8),
    GetMut(u8),
    GetOrInsert(u8),
    /// 0 leave it, 1 read, 2 write, 3 mark.
    Guard(u8, u8),
    Mark(u8),
    InsertRange(u8, u8),
    RemoveRange(u8, u8, u8),
    Join,
    /// The first so many only.
    JoinMut(u8),
    /// With a mask of every n-th index.
    JoinMutMasked(u8),
    MaybeJoinMut(u8),
    /// Per item: what (index * a + b) % 4 says, as in Guard; the first so many only.
    GuardJoin(u8, u8, u8),
    ParJoin,
    ParJoinMut(u8),
    ParGuardJoin(u8, u8),
    Modified,
    ModifiedMut(u8),
    ParModifiedMut,
    /// Modified elements joined with the present ones.
    ModifiedAnd,
    Fresh,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct TrackCase {
    kind: u8,
    pool: Vec<u32>,
    ops: Vec<TrackOp>,
}

fn track_op() -> impl Strategy<Value = TrackOp> {
    let s = || any::<u8>();
    prop_oneof![
        6 => prop::bool::weighted(0.7).prop_map(TrackOp::Track),
        4 => Just(TrackOp::Clear),
        10 => s().prop_map(TrackOp::Insert),
        7 => s().prop_map(TrackOp::Remove),
        2 => s().prop_map(TrackOp::Get),
        4 => s().prop_map(TrackOp::GetMut),
        4 => s().prop_map(TrackOp::GetOrInsert),
        5 => (s(), 0u8..4).prop_map(|(i, a)| TrackOp::Guard(i, a)),
        3 => s().prop_map(TrackOp::Mark),
        1 => (s(), 1u8..80).prop_map(|(a, b)| TrackOp::InsertRange(a, b)),
        1 => (s(), 1u8..80, 1u8..5).prop_map(|(a, b, c)| TrackOp::RemoveRange(a, b, c)),
        1 => Just(TrackOp::Join),
        3 => s().prop_map(TrackOp::JoinMut),
        2 => (1u8..6).prop_map(TrackOp::JoinMutMasked),
        2 => (1u8..6).prop_map(TrackOp::MaybeJoinMut),
        3 => (s(), s(), s()).prop_map(|(a, b, c)| TrackOp::GuardJoin(a, b, c)),
        1 => Just(TrackOp::ParJoin),
        1 => (1u8..6).prop_map(TrackOp::ParJoinMut),
        1 => (s(), s()).prop_map(|(a, b)| TrackOp::ParGuardJoin(a, b)),
        3 => Just(TrackOp::Modified),
        2 => s().prop_map(TrackOp::ModifiedMut),
        1 => Just(TrackOp::ParModifiedMut),
        1 => Just(TrackOp::ModifiedAnd),
        1 => Just(TrackOp::Fresh),
    ]
}

fn track_case(max: usize) -> impl Strategy<Value = TrackCase> {
    track_case_of(index().boxed(), 14, max)
}

/// Indexes up to the last one.
fn far_track_case() -> impl Strategy<Value = TrackCase> {
    track_case_of(far_index().boxed(), 5, 40)
}

fn track_case_of(
    idx: BoxedStrategy<u32>,
    pool: usize,
    max: usize,
) -> impl Strategy<Value = TrackCase> {
    (
        0u8..4,
        prop::collection::vec(idx, 1..pool),
        prop::collection::vec(track_op(), 1..max),
    )
        .prop_map(|(kind, pool, ops)| TrackCase { kind, pool, ops })
}

/// Every n-th index among the low ones, the present ones and those next to these.
fn every(n: u8, m: &BTreeMap<u32, u64>) -> BitSet {
    let hi = m.keys().next_back().map_or(0, |i| i + 2).max(10);
    (0..hi.min(20_000))
        .chain(m.keys().flat_map(|i| *i..=(i + 1).min(CAP - 1)))
        .filter(|i| i % n as u32 == 0)
        .collect()
}

fn run_track<S>(c: &TrackCase, cx: &mut Cx) -> R
where
    S: RawStorage<Item = u64> + Default + Send + Sync,
{
    let mut s = MaskedStorage::<Flagged<S>>::default();
    let mut m: BTreeMap<u32, u64> = BTreeMap::new();
    let mut modified: BTreeSet<u32> = BTreeSet::new();
    let mut tracking = false;
    let mut next = 0u64;
    let (mut tracked, mut untracked, mut cleared) = (false, false, false);
    for (n, op) in c.ops.iter().enumerate() {
        next += 1_000_000;
        let at = |i: u8| c.pool[i as usize % c.pool.len()];
        let before = modified.len();
        let res = (|| -> R {
            match *op {
                TrackOp::Track(f) => {
                    s.set_track_modified(f);
                    tracking = f;
                }
                TrackOp::Clear => {
                    s.clear_modified();
                    cleared |= !modified.is_empty();
                    modified.clear();
                }
                TrackOp::Insert(i) => {
                    s.insert(at(i), next);
                    m.insert(at(i), next);
                    if tracking {
                        modified.insert(at(i));
                    }
                }
                TrackOp::Remove(i) => {
                    s.remove(at(i));
                    if m.remove(&at(i)).is_some() && tracking {
                        modified.insert(at(i));
                    }
                }
                TrackOp::Get(i) => {
                    ensure_eq!(s.get(at(i)).copied(), m.get(&at(i)).copied(), "get");
                    s.contains(at(i));
                }
                TrackOp::GetMut(i) => {
                    if let Some(r) = s.get_mut(at(i)) {
                        *r = next;
                        m.insert(at(i), next);
                        if tracking {
                            modified.insert(at(i));
                        }
                    }
                }
                TrackOp::GetOrInsert(i) => {
                    s.get_or_insert_with(at(i), || next);
                    m.entry(at(i)).or_insert(next);
                    if tracking {
                        modified.insert(at(i));
                    }
                }
                TrackOp::Guard(i, a) => {
                    if let Some(mut g) = s.get_guard(at(i)) {
                        match a {
                            0 => {}
                            1 => ensure_eq!(*g.get(), m[&at(i)], "guard"),
                            2 => {
                                *g.get_mut() = next;
                                m.insert(at(i), next);
                                if tracking {
                                    modified.insert(at(i));
                                }
                            }
                            _ => {
                                g.mark_modified();
                                modified.insert(at(i));
                            }
                        }
                    }
                }
                TrackOp::Mark(i) => {
                    s.mark_modified(at(i));
                    modified.insert(at(i));
                }
                TrackOp::InsertRange(a, k) => {
                    for i in a as u32..a as u32 + k as u32 {
                        s.insert(i, next);
                        m.insert(i, next);
                        if tracking {
                            modified.insert(i);
                        }
                    }
                }
                TrackOp::RemoveRange(a, k, st) => {
                    for i in (a as u32..a as u32 + k as u32).step_by(st as usize) {
                        s.remove(i);
                        if m.remove(&i).is_some() && tracking {
                            modified.insert(i);
                        }
                    }
                }
                TrackOp::Join => {
                    ensure_eq!(
                        (&s).join().copied().collect::<Vec<_>>(),
                        m.values().copied().collect::<Vec<_>>(),
                        "join"
                    );
                }
                TrackOp::JoinMut(k) => {
                    let k = k as usize % 20;
                    for (r, (i, v)) in (&mut s).join().take(k).zip(m.iter_mut()) {
                        *r = next + *i as u64;
                        *v = *r;
                        if tracking {
                            modified.insert(*i);
                        }
                    }
                }
                TrackOp::JoinMutMasked(k) => {
                    for (i, r) in (every(k, &m), &mut s).join() {
                        *r = next + i as u64;
                    }
                    for (i, v) in m.iter_mut().filter(|(i, _)| *i % k as u32 == 0) {
                        *v = next + *i as u64;
                        if tracking {
                            modified.insert(*i);
                        }
                    }
                }
                TrackOp::MaybeJoinMut(k) => {
                    for (i, r) in (every(k, &m), (&mut s).maybe()).join() {
                        if let Some(r) = r {
                            *r = next + i as u64;
                        }
                    }
                    for (i, v) in m.iter_mut().filter(|(i, _)| *i % k as u32 == 0) {
                        *v = next + *i as u64;
                        if tracking {
                            modified.insert(*i);
                        }
                    }
                }
                TrackOp::GuardJoin(a, b, k) => {
                    let k = k as usize % 30;
                    for (mut g, (i, v)) in s.guard().join().take(k).zip(m.iter_mut()) {
                        match (*i * a as u32 + b as u32) % 4 {
                            0 => {}
                            1 => ensure_eq!(*g.get(), *v, "guard at {i}"),
                            2 => {
                                *g.get_mut() = next;
                                *v = next;
                                if tracking {
                                    modified.insert(*i);
                                }
                            }
                            _ => {
                                g.mark_modified();
                                modified.insert(*i);
                            }
                        }
                    }
                }
                TrackOp::ParJoin => {
                    let sum = (&s).par_join().map(|v| v % 1000).sum::<u64>();
                    ensure_eq!(sum, m.values().map(|v| v % 1000).sum::<u64>(), "sum");
                }
                TrackOp::ParJoinMut(k) => {
                    (&every(k, &m), &mut s)
                        .par_join()
                        .for_each(|(i, r)| *r = next + i as u64);
                    for (i, v) in m.iter_mut().filter(|(i, _)| *i % k as u32 == 0) {
                        *v = next + *i as u64;
                        if tracking {
                            modified.insert(*i);
                        }
                    }
                }
                TrackOp::ParGuardJoin(a, b) => {
                    let mask = s.mask().clone();
                    (&mask, s.guard()).par_join().for_each(|(i, mut g)| {
                        match (i * a as u32 + b as u32) % 4 {
                            0 => {}
                            1 => {
                                g.get();
                            }
                            2 => *g.get_mut() = next,
                            _ => g.mark_modified(),
                        }
                    });
                    for (i, v) in m.iter_mut() {
                        match (*i * a as u32 + b as u32) % 4 {
                            2 => {
                                *v = next;
                                if tracking {
                                    modified.insert(*i);
                                }
                            }
                            3 => {
                                modified.insert(*i);
                            }
                            _ => {}
                        }
                    }
                }
                TrackOp::Modified => {
                    let got: Vec<Option<u64>> = s.modified().join().map(|v| v.copied()).collect();
                    let want: Vec<Option<u64>> =
                        modified.iter().map(|i| m.get(i).copied()).collect();
                    ensure_eq!(got, want, "join over modified");
                }
                TrackOp::ModifiedMut(k) => {
                    let k = k as usize % 20;
                    let got: Vec<Option<u64>> = s
                        .modified_mut()
                        .join()
                        .take(k)
                        .map(|v| {
                            v.map(|v| {
                                let old = *v;
                                *v = next;
                                old
                            })
                        })
                        .collect();
                    let want: Vec<Option<u64>> = modified
                        .iter()
                        .take(k)
                        .map(|i| m.get(i).copied())
                        .collect();
                    ensure_eq!(got, want, "mutable join over modified");
                    for i in modified.iter().take(k) {
                        if let Some(v) = m.get_mut(i) {
                            *v = next;
                        }
                    }
                }
                TrackOp::ParModifiedMut => {
                    let got = s
                        .modified_mut()
                        .par_join()
                        .map(|v| {
                            v.map(|v| *v = next);
                            1usize
                        })
                        .sum::<usize>();
                    ensure_eq!(got, modified.len(), "size of the parallel join over modified");
                    for i in &modified {
                        if let Some(v) = m.get_mut(i) {
                            *v = next;
                        }
                    }
                }
                TrackOp::ModifiedAnd => {
                    let got: Vec<(Option<u64>, u64)> =
                        (s.modified(), &s).join().map(|(a, b)| (a.copied(), *b)).collect();
                    let want: Vec<(Option<u64>, u64)> = modified
                        .iter()
                        .filter_map(|i| m.get(i).map(|v| (Some(*v), *v)))
                        .collect();
                    ensure_eq!(got, want, "join of modified and present");
                }
                TrackOp::Fresh => {
                    s = Default::default();
                    m.clear();
                    modified.clear();
                    tracking = false;
                }
            }
            ensure_eq!(s.tracking_modified(), tracking, "tracking_modified()");
            let got: Vec<u32> = s.modified_indexes().iter().collect();
            let want: Vec<u32> = modified.iter().copied().collect();
            ensure_eq!(got, want, "modified indexes");
            for i in &c.pool {
                ensure_eq!(s.modified_indexes().contains(*i), modified.contains(i), "modified({i})");
            }
            Ok(())
        })();
        res.map_err(|e| format!("operation {n} ({op:?}), tracking {tracking}: {e}"))?;
        if modified.len() > before {
            tracked |= tracking;
        } else {
            untracked |= !tracking;
        }
    }
    // What the storage holds is also what was written.
    let got: Vec<u64> = (&s).join().copied().collect();
    ensure_eq!(got, m.values().copied().collect::<Vec<_>>(), "values at the end");
    cx.label_if(tracked, "recorded while tracking");
    cx.label_if(untracked, "not recorded while not tracking");
    cx.label_if(cleared, "cleared some");
    cx.nontrivial_if(tracked && untracked);
    Ok(())
}

fn check_track(c: &TrackCase, cx: &mut Cx) -> R {
    match c.kind {
        0 => run_track::<VecStorage<u64>>(c, cx),
        1 => run_track::<DenseVecStorage<u64>>(c, cx),
        2 => run_track::<HashMapStorage<u64>>(c, cx),
        _ => run_track::<Own<u64>>(c, cx),
    }
}

/// The same histories for the sanitizers, and small ones for Miri.
pub fn memory_legs() -> Vec<Leg> {
    const SMALL: u32 = 150;
    fn small_case() -> impl Strategy<Value = Case> {
        case(false, 40).prop_map(|mut c| {
            c.pool.truncate(4);
            c.pool.iter_mut().for_each(|i| *i %= SMALL);
            for o in &mut c.ops {
                match o {
                    Op::InsertRange(a, n) | Op::RemoveRange(a, n, _) => {
                        *a %= SMALL as u16;
                        *n %= 12;
                    }
                    _ => {}
                }
            }
            c
        })
    }
    fn small_slice() -> impl Strategy<Value = SliceCase> {
        slice_case(40).prop_map(|mut c| {
            c.pool.truncate(6);
            c.pool.iter_mut().for_each(|i| *i %= SMALL);
            for o in &mut c.ops {
                match o {
                    SliceOp::InsertRange(_, n) | SliceOp::RemoveRange(_, n, _) => *n %= 12,
                    _ => {}
                }
            }
            c
        })
    }
    fn small_track() -> impl Strategy<Value = TrackCase> {
        track_case(30).prop_map(|mut c| {
            c.pool.truncate(4);
            c.pool.iter_mut().for_each(|i| *i %= 70);
            for o in &mut c.ops {
                match o {
                    TrackOp::InsertRange(a, n) | TrackOp::RemoveRange(a, n, _) => {
                        *a %= 70;
                        *n %= 12;
                    }
                    _ => {}
                }
            }
            c
        })
    }
    const RULE: &str = "the histories of S01, S03 and S04; non-trivial as there";
    vec![
        Leg::new("storage", RULE, (0, 0), || case(false, 70), lax(check_map))
            .also(Mode::Asan, 30_000, 1_500_000)
            .also(Mode::Msan, 0, 800_000),
        Leg::new("storage far", RULE, (0, 0), || case(true, 40), lax(check_map))
            .also(Mode::Asan, 300, 10_000)
            .also(Mode::Msan, 0, 5_000),
        Leg::new("storage small", RULE, (0, 0), small_case, lax(check_map)).also(Mode::Miri, 64, 6_000),
        Leg::new("slice", RULE, (0, 0), || slice_case(50), lax(check_slice))
            .also(Mode::Asan, 30_000, 1_500_000)
            .also(Mode::Msan, 0, 800_000),
        Leg::new("slice small", RULE, (0, 0), small_slice, lax(check_slice)).also(Mode::Miri, 40, 4_000),
        Leg::new("track", RULE, (0, 0), || track_case(50), lax(check_track))
            .also(Mode::Asan, 15_000, 800_000)
            .also(Mode::Msan, 0, 400_000)
            .also(Mode::Tsan, 8_000, 400_000),
        Leg::new("track small", RULE, (0, 0), small_track, lax(check_track)).also(Mode::Miri, 32, 2_000),
    ]
}

pub fn s04() -> Prop {
    let check = check_track;
    const RULE: &str = "operation sequences on a tracked storage over a vector, dense vector or hash map: switching, \
clearing, changes by call, guard and (partial, masked, optional, parallel) joins, marks; the modified set is \
compared after each; non-trivial: something was recorded while tracking, and a step added nothing while not";
    Prop::new(
        "S04",
        vec![
            Leg::new("track", RULE, (250_000, 5_000_000), || track_case(50), check),
            Leg::new("long", RULE, (10_000, 300_000), || track_case(400), check),
            Leg::new("far", RULE, (25_000, 600_000), far_track_case, check),
            super::large::tracked(1_000, 40_000),
            super::world::leg(super::world::S04, "world", 100_000, 80),
        ],
    )
}
