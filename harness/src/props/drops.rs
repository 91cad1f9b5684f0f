//! S02 on single storages and resource sets: every value is dropped or handed back once.

use std::collections::BTreeMap;

use goggles::{
    DenseVecStorage, Flagged, HashMapStorage, IntoJoinExt, MaskedStorage, RawStorage, ResourceSet,
    VecStorage,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::{
    own::Own,
    storage::{index, kind, Kind, CAP},
    tok::{self, Tok, ZTok},
};
use crate::{
    engine::{catching, lax, Cx, Leg, Mode, R},
    ensure, ensure_eq,
};

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Insert(u8),
    Remove(u8),
    Assign(u8),
    GuardAssign(u8),
    GetOrInsert(u8),
    /// The closure panics, before or after making a value.
    GetOrInsertPanic(u8, bool),
    TooLarge(u32),
    InsertRange(u8, u8),
    RemoveRange(u8, u8, u8),
    JoinAssign(u8),
    SliceSwap(u8, u8),
    Move,
    /// Drop the storage, in which the n-th destructor panics if n is not zero.
    Drop(u8),
    /// Start again with the old one dropped during a panic's unwinding.
    DropUnwinding,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    item: ItemKind,
    pool: Vec<u32>,
    ops: Vec<Op>,
    /// As in `Drop`.
    end: u8,
}

#[derive(Clone, Copy, Debug, PartialEq, Hash, Serialize, Deserialize)]
enum ItemKind {
    Tok,
    ZeroSized,
    Huge,
}

fn op() -> impl Strategy<Value = Op> {
    let s = || any::<u8>();
    let fuse = prop_oneof![2 => Just(0u8), 3 => 1u8..8, 1 => 1u8..80];
    prop_oneof![
        12 => s().prop_map(Op::Insert),
        8 => s().prop_map(Op::Remove),
        3 => s().prop_map(Op::Assign),
        2 => s().prop_map(Op::GuardAssign),
        4 => s().prop_map(Op::GetOrInsert),
        4 => (s(), any::<bool>()).prop_map(|(i, b)| Op::GetOrInsertPanic(i, b)),
        1 => (0u32..3).prop_map(|d| Op::TooLarge(CAP + d)),
        1 => (s(), 1u8..80).prop_map(|(a, b)| Op::InsertRange(a, b)),
        1 => (s(), 1u8..80, 1u8..4).prop_map(|(a, b, c)| Op::RemoveRange(a, b, c)),
        1 => s().prop_map(Op::JoinAssign),
        1 => (s(), s()).prop_map(|(a, b)| Op::SliceSwap(a, b)),
        1 => Just(Op::Move),
        2 => fuse.prop_map(Op::Drop),
        1 => Just(Op::DropUnwinding),
    ]
}

fn case(max: usize) -> impl Strategy<Value = Case> {
    (
        kind(),
        prop_oneof![
            6 => Just(ItemKind::Tok),
            1 => Just(ItemKind::ZeroSized),
            1 => Just(ItemKind::Huge)
        ],
        prop::collection::vec(index(), 1..12),
        prop::collection::vec(op(), 1..max),
        prop_oneof![1 => Just(0u8), 2 => 1u8..10, 1 => any::<u8>()],
    )
        .prop_map(|(kind, item, mut pool, ops, end)| {
            if item == ItemKind::Huge {
                for i in &mut pool {
                    *i %= 1 << 12;
                }
            }
            Case {
                kind,
                item,
                pool,
                ops,
                end,
            }
        })
}

trait Item: Sized {
    fn make(v: u32) -> Self;
    /// `None` if the value cannot be told.
    fn num(&self) -> Option<u32>;
}

impl Item for Tok {
    fn make(v: u32) -> Self {
        Tok::new(v)
    }
    fn num(&self) -> Option<u32> {
        Some(self.val())
    }
}

impl Item for ZTok {
    fn make(_: u32) -> Self {
        ZTok::new()
    }
    fn num(&self) -> Option<u32> {
        None
    }
}

/// A large counted value on a boundary of its own.
#[repr(align(128))]
struct HugeTok {
    before: [u32; 100],
    tok: Tok,
    after: [u32; 300],
}

impl Item for HugeTok {
    fn make(v: u32) -> Self {
        HugeTok {
            before: [v; 100],
            tok: Tok::new(v),
            after: [!v; 300],
        }
    }
    fn num(&self) -> Option<u32> {
        let v = self.tok.val();
        let ok = self.before.iter().all(|x| *x == v) && self.after.iter().all(|x| *x == !v);
        Some(if ok { v } else { u32::MAX })
    }
}

trait Slices: RawStorage + Default {
    /// Swaps two elements of its slice, if it has one, and gives what they are.
    fn swap(_: &mut MaskedStorage<Self>, _: usize, _: usize) -> Option<(u32, u32)>
    where
        Self::Item: Item,
    {
        None
    }
}
impl<T> Slices for VecStorage<T> {}
impl<T> Slices for HashMapStorage<T> {}
impl<T> Slices for Own<T> {}
impl<T> Slices for DenseVecStorage<T> {
    fn swap(s: &mut MaskedStorage<Self>, a: usize, b: usize) -> Option<(u32, u32)>
    where
        T: Item,
    {
        let n = s.as_slice().len();
        if n == 0 {
            return None;
        }
        let s = s.as_mut_slice();
        s.swap(a % n, b % n);
        Some((s[b % n].num()?, s[a % n].num()?))
    }
}
impl<S: RawStorage + Default> Slices for Flagged<S> {}

fn run_raw<S>(c: &Case, cx: &mut Cx) -> R
where
    S: Slices,
    S::Item: Item,
{
    tok::reset();
    let zst = c.item == ItemKind::ZeroSized;
    let mut s = MaskedStorage::<S>::default();
    let mut m: BTreeMap<u32, u32> = BTreeMap::new();
    let mut next = 0u32;
    let (mut panicked, mut bombed, mut dropped_full) = (false, false, false);
    // Every live value is one the storage holds, and the other way round.
    let settle = |m: &BTreeMap<u32, u32>| -> R {
        if let Some(e) = tok::first_error() {
            return Err(e);
        }
        if zst {
            ensure_eq!(tok::zst_live(), m.len() as i64, "values alive");
            return Ok(());
        }
        let mut want = BTreeMap::new();
        for v in m.values() {
            *want.entry(*v).or_insert(0u32) += 1;
        }
        if tok::live_count() == m.len() && tok::live_vals() == want {
            return Ok(());
        }
        let live = tok::live_vals();
        Err(format!(
            "leaked {:?}, dropped early {:?}",
            live.keys().filter(|k| !want.contains_key(k)).collect::<Vec<_>>(),
            want.keys().filter(|k| !live.contains_key(k)).collect::<Vec<_>>()
        ))
    };
    let drop_it = |s: MaskedStorage<S>, fuse: u8, n: usize| -> Result<bool, String> {
        // Fuses longer than the number of values never go off.
        let fuse = if n == 0 { 0 } else { fuse as u64 };
        tok::set_fuse(fuse);
        let r = catching(|| drop(s));
        tok::set_fuse(0);
        match (fuse > 0 && fuse <= n as u64, r) {
            (false, Err(p)) => Err(format!("dropping the storage panicked: {p}")),
            (went_off, _) => Ok(went_off),
        }
    };
    for (n, op) in c.ops.iter().enumerate() {
        next += 1000;
        let at = |i: u8| c.pool[i as usize % c.pool.len()];
        let res = (|| -> R {
            match *op {
                Op::Insert(i) => {
                    let old = s.insert(at(i), Item::make(next));
                    let want = m.insert(at(i), next);
                    ensure_eq!(old.is_some(), want.is_some(), "insert handed one back");
                    if let Some(v) = old.and_then(|o| o.num()) {
                        ensure_eq!(Some(v), want, "insert handed back");
                    }
                }
                Op::Remove(i) => {
                    let old = s.remove(at(i));
                    let want = m.remove(&at(i));
                    ensure_eq!(old.is_some(), want.is_some(), "remove handed one back");
                    if let Some(v) = old.and_then(|o| o.num()) {
                        ensure_eq!(Some(v), want, "remove handed back");
                    }
                }
                Op::Assign(i) => {
                    if let Some(r) = s.get_mut(at(i)) {
                        *r = Item::make(next);
                        m.insert(at(i), next);
                    }
                }
                Op::GuardAssign(i) => {
                    if let Some(mut g) = s.get_guard(at(i)) {
                        *g.get_mut() = Item::make(next);
                        m.insert(at(i), next);
                    }
                }
                Op::GetOrInsert(i) => {
                    s.get_or_insert_with(at(i), || Item::make(next));
                    m.entry(at(i)).or_insert(next);
                }
                Op::GetOrInsertPanic(i, made) => {
                    let r = catching(|| {
                        s.get_or_insert_with(at(i), || {
                            let _v = made.then(|| <S::Item as Item>::make(next));
                            panic!("closure told to panic")
                        });
                    });
                    panicked |= r.is_err();
                    ensure_eq!(s.contains(at(i)), m.contains_key(&at(i)), "present after the panic");
                }
                Op::TooLarge(i) => {
                    let r = catching(|| drop(s.insert(i, Item::make(next))));
                    panicked |= r.is_err();
                    ensure!(r.is_err(), "index {i} accepted");
                    let r = catching(|| {
                        s.get_or_insert_with(i, || Item::make(next));
                    });
                    ensure!(r.is_err(), "index {i} accepted");
                }
                Op::InsertRange(a, k) => {
                    for i in a as u32..a as u32 + k as u32 {
                        next += 1;
                        s.insert(i, Item::make(next));
                        m.insert(i, next);
                    }
                }
                Op::RemoveRange(a, k, st) => {
                    for i in (a as u32..a as u32 + k as u32).step_by(st as usize) {
                        s.remove(i);
                        m.remove(&i);
                    }
                }
                Op::JoinAssign(k) => {
                    for (r, v) in (&mut s).join().zip(m.values_mut()).take(k as usize % 20) {
                        next += 1;
                        *r = Item::make(next);
                        *v = next;
                    }
                }
                Op::SliceSwap(a, b) => {
                    if let Some((a, b)) = S::swap(&mut s, a as usize, b as usize) {
                        for v in m.values_mut() {
                            *v = match *v {
                                x if x == a => b,
                                x if x == b => a,
                                x => x,
                            };
                        }
                    }
                }
                Op::Move => {
                    let t = std::mem::take(&mut s);
                    s = *Box::new(t);
                }
                Op::Drop(fuse) => {
                    let old = std::mem::take(&mut s);
                    dropped_full |= m.len() > 1;
                    bombed |= drop_it(old, fuse, m.len())?;
                    m.clear();
                }
                Op::DropUnwinding => {
                    let old = std::mem::take(&mut s);
                    let _ = catching(|| {
                        let _held = old;
                        panic!("unwinding over a storage")
                    });
                    m.clear();
                }
            }
            settle(&m)
        })();
        res.map_err(|e| format!("operation {n} ({op:?}): {e}"))?;
    }
    // What is left is still readable before it goes.
    let got: Vec<Option<u32>> = (&s).join().map(|v| v.num()).collect();
    let want: Vec<Option<u32>> = m.values().map(|v| (!zst).then_some(*v)).collect();
    ensure_eq!(got, want, "values at the end");
    settle(&m)?;
    dropped_full |= m.len() > 1;
    let n = m.len();
    bombed |= drop_it(s, c.end, n).map_err(|e| format!("at the end: {e}"))?;
    m.clear();
    settle(&m).map_err(|e| format!("after dropping the storage ({n} values, fuse {}): {e}", c.end))?;
    cx.label_if(panicked, "panicking closure or refused insertion");
    cx.label_if(bombed, "panicking destructor while a storage is dropped");
    cx.label_if(zst, "zero-sized values");
    cx.label_if(c.item == ItemKind::Huge, "large values");
    cx.nontrivial_if(dropped_full && (panicked || bombed));
    Ok(())
}

pub fn check_raw(c: &Case, cx: &mut Cx) -> R {
    macro_rules! go {
        ($t:ty) => {
            match c.kind {
                Kind::Vec => run_raw::<VecStorage<$t>>(c, cx),
                Kind::Dense => run_raw::<DenseVecStorage<$t>>(c, cx),
                Kind::Map => run_raw::<HashMapStorage<$t>>(c, cx),
                Kind::FlaggedVec => run_raw::<Flagged<VecStorage<$t>>>(c, cx),
                Kind::FlaggedDense => run_raw::<Flagged<DenseVecStorage<$t>>>(c, cx),
                Kind::FlaggedMap => run_raw::<Flagged<HashMapStorage<$t>>>(c, cx),
                Kind::Own => run_raw::<Own<$t>>(c, cx),
                Kind::FlaggedOwn => run_raw::<Flagged<Own<$t>>>(c, cx),
            }
        };
    }
    match c.item {
        ItemKind::Tok => go!(Tok),
        ItemKind::ZeroSized => go!(ZTok),
        ItemKind::Huge => go!(HugeTok),
    }
}

// Resource sets.

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum ResOp {
    Insert(u8),
    Remove(u8),
    Assign(u8),
    BorrowAssign(u8),
    /// Panics while borrowing.
    BorrowPanic(u8),
    Move,
    Drop,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ResCase {
    ops: Vec<ResOp>,
}

struct A(Tok);
struct B(Tok, #[allow(dead_code)] [u64; 20]);
struct W<T>(T);

fn res_case() -> impl Strategy<Value = ResCase> {
    let s = || 0u8..4;
    let op = prop_oneof![
        6 => s().prop_map(ResOp::Insert),
        4 => s().prop_map(ResOp::Remove),
        2 => s().prop_map(ResOp::Assign),
        2 => s().prop_map(ResOp::BorrowAssign),
        2 => s().prop_map(ResOp::BorrowPanic),
        1 => Just(ResOp::Move),
        1 => Just(ResOp::Drop),
    ];
    prop::collection::vec(op, 1..40).prop_map(|ops| ResCase { ops })
}

trait Res: Send + Sync + 'static {
    fn make(v: u32) -> Self;
    fn num(&self) -> u32;
}
impl Res for Tok {
    fn make(v: u32) -> Self {
        Tok::new(v)
    }
    fn num(&self) -> u32 {
        self.val()
    }
}
impl Res for A {
    fn make(v: u32) -> Self {
        A(Tok::new(v))
    }
    fn num(&self) -> u32 {
        self.0.val()
    }
}
impl Res for B {
    fn make(v: u32) -> Self {
        B(Tok::new(v), [v as u64; 20])
    }
    fn num(&self) -> u32 {
        self.0.val()
    }
}
impl<T: Res> Res for W<T> {
    fn make(v: u32) -> Self {
        W(T::make(v))
    }
    fn num(&self) -> u32 {
        self.0.num()
    }
}

fn res_op<T: Res>(s: &mut ResourceSet, slot: &mut Option<u32>, op: ResOp, next: u32) -> R {
    match op {
        ResOp::Insert(_) => {
            let old = s.insert(T::make(next)).map(|v| v.num());
            ensure_eq!(old, slot.replace(next), "insert handed back");
        }
        ResOp::Remove(_) => {
            let old = s.remove::<T>().map(|v| v.num());
            ensure_eq!(old, slot.take(), "remove handed back");
        }
        ResOp::Assign(_) if slot.is_some() => {
            *s.get_mut::<T>() = T::make(next);
            *slot = Some(next);
        }
        ResOp::BorrowAssign(_) if slot.is_some() => {
            *s.borrow_mut::<T>() = T::make(next);
            *slot = Some(next);
        }
        ResOp::BorrowPanic(_) => {
            let r = catching(|| {
                let _own = T::make(next + 1);
                let mut b = s.borrow_mut::<T>();
                *b = T::make(next);
                panic!("while borrowed")
            });
            let _: Result<(), String> = r;
            if slot.is_some() {
                *slot = Some(next);
            }
        }
        _ => {}
    }
    Ok(())
}

pub fn check_res(c: &ResCase, cx: &mut Cx) -> R {
    tok::reset();
    let mut s = ResourceSet::new();
    let mut m: [Option<u32>; 4] = [None; 4];
    let mut overwrote = false;
    let mut next = 0;
    for (n, op) in c.ops.iter().enumerate() {
        next += 10;
        let res = (|| -> R {
            match *op {
                ResOp::Insert(k)
                | ResOp::Remove(k)
                | ResOp::Assign(k)
                | ResOp::BorrowAssign(k)
                | ResOp::BorrowPanic(k) => {
                    overwrote |= matches!(op, ResOp::Insert(_)) && m[k as usize].is_some();
                    let slot = &mut m[k as usize];
                    match k {
                        0 => res_op::<A>(&mut s, slot, *op, next)?,
                        1 => res_op::<B>(&mut s, slot, *op, next)?,
                        2 => res_op::<W<A>>(&mut s, slot, *op, next)?,
                        _ => res_op::<Tok>(&mut s, slot, *op, next)?,
                    }
                }
                ResOp::Move => s = *Box::new(std::mem::take(&mut s)),
                ResOp::Drop => {
                    s = ResourceSet::new();
                    m = [None; 4];
                }
            }
            if let Some(e) = tok::first_error() {
                return Err(e);
            }
            let want: BTreeMap<u32, u32> = m.iter().flatten().map(|v| (*v, 1)).collect();
            ensure_eq!(tok::live_vals(), want, "values alive, with counts");
            Ok(())
        })();
        res.map_err(|e| format!("operation {n} ({op:?}): {e}"))?;
    }
    drop(s);
    ensure_eq!(tok::live_count(), 0, "values alive after dropping the set");
    if let Some(e) = tok::first_error() {
        return Err(e);
    }
    cx.nontrivial_if(overwrote);
    Ok(())
}

/// For the sanitizers and Miri.
pub fn memory_legs() -> Vec<Leg> {
    const RULE: &str = "the histories of S02; non-trivial as there";
    fn small() -> impl Strategy<Value = Case> {
        case(16).prop_map(|mut c| {
            c.pool.iter_mut().for_each(|i| *i %= 150);
            for o in &mut c.ops {
                match o {
                    Op::InsertRange(a, n) | Op::RemoveRange(a, n, _) => {
                        *a %= 100;
                        *n %= 8;
                    }
                    Op::Drop(n) => *n %= 8,
                    _ => {}
                }
            }
            c
        })
    }
    vec![
        Leg::new("values", RULE, (0, 0), || case(40), lax(check_raw))
            .also(Mode::Asan, 20_000, 1_000_000)
            .also(Mode::Msan, 0, 500_000),
        Leg::new("values small", RULE, (0, 0), small, lax(check_raw)).also(Mode::Miri, 64, 5_000),
        Leg::new("resources", RULE, (0, 0), res_case, lax(check_res))
            .also(Mode::Asan, 5_000, 200_000)
            .also(Mode::Miri, 16, 500),
    ]
}

/// Many values, some of them far up.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ManyCase {
    kind: Kind,
    /// Where the indexes start, whether they are inserted or removed, and which.
    ops: Vec<(u32, bool, super::large::Run)>,
    /// Which of the last drops panics, in 256ths of them; 0 for none.
    fuse: u8,
}

fn many_case() -> impl Strategy<Value = ManyCase> {
    let base = prop_oneof![
        6 => Just(0u32),
        1 => (12u32..24, 0u32..130).prop_map(|(b, d)| (1u32 << b) - d.min(1 << b)),
        1 => 0..CAP,
    ];
    let ops = prop::collection::vec((base, prop::bool::weighted(0.7), super::large::run()), 1..6);
    (kind(), ops, prop_oneof![1 => Just(0u8), 2 => any::<u8>()])
        .prop_map(|(kind, ops, fuse)| ManyCase { kind, ops, fuse })
}

fn many<S: RawStorage<Item = Tok> + Default>(c: &ManyCase, cx: &mut Cx) -> R {
    tok::reset();
    let mut s = MaskedStorage::<S>::default();
    let mut m: BTreeMap<u32, u32> = BTreeMap::new();
    let (mut next, mut most) = (0u32, 0);
    for (n, (base, insert, run)) in c.ops.iter().enumerate() {
        for i in run.indexes().map(|i| base + i).filter(|i| *i < CAP).collect::<Vec<_>>() {
            let (got, want) = if *insert {
                next += 1;
                (s.insert(i, Tok::new(next)), m.insert(i, next))
            } else {
                (s.remove(i), m.remove(&i))
            };
            ensure_eq!(got.map(|t| t.val()), want, "given back at {i}");
        }
        most = most.max(m.len());
        ensure_eq!(tok::live_count(), m.len(), "values that exist after operation {}", n);
    }
    if c.fuse > 0 && !m.is_empty() {
        tok::set_fuse(1 + m.len() as u64 * c.fuse as u64 / 256);
    }
    let dropped = catching(|| drop(s));
    tok::set_fuse(0);
    ensure_eq!(dropped.is_err(), c.fuse > 0 && !m.is_empty(), "the drop panics");
    ensure_eq!(tok::live_count(), 0, "values that exist after the storage was dropped");
    if let Some(e) = tok::first_error() {
        return Err(e);
    }
    let far = m.keys().next_back().is_some_and(|i| *i >= 1 << 18);
    cx.label_if(far, "index over 2^18");
    cx.label_if(c.fuse > 0, "panic while dropping");
    cx.nontrivial_if(m.len() > 1000 || (far && m.len() > 60));
    Ok(())
}

fn check_many(c: &ManyCase, cx: &mut Cx) -> R {
    match c.kind {
        Kind::Vec => many::<VecStorage<Tok>>(c, cx),
        Kind::Dense => many::<DenseVecStorage<Tok>>(c, cx),
        Kind::Map => many::<HashMapStorage<Tok>>(c, cx),
        Kind::FlaggedVec => many::<Flagged<VecStorage<Tok>>>(c, cx),
        Kind::FlaggedDense => many::<Flagged<DenseVecStorage<Tok>>>(c, cx),
        Kind::FlaggedMap => many::<Flagged<HashMapStorage<Tok>>>(c, cx),
        Kind::Own => many::<Own<Tok>>(c, cx),
        Kind::FlaggedOwn => many::<Flagged<Own<Tok>>>(c, cx),
    }
}

pub fn legs() -> Vec<Leg> {
    const RULE: &str = "operation sequences on one storage of counted values, with panicking closures, refused \
indexes and destructors that panic while the storage is dropped; the set of live values is compared after each \
operation; non-trivial: a storage with several values was dropped, and something panicked";
    vec![
        Leg::new("storage", RULE, (150_000, 5_000_000), || case(40), check_raw),
        Leg::new("storage-long", RULE, (3_000, 150_000), || case(300), check_raw),
        Leg::new(
            "large",
            "runs of up to 2^17 counted values inserted in and removed from a storage, some far up, which is then \
             dropped, mostly with a panic at some value; non-trivial: over 1000 values left, or 60 far up",
            (1_500, 40_000),
            many_case,
            check_many,
        ),
        Leg::new(
            "resources",
            "operation sequences on a resource set of counted values; non-trivial: a value was replaced",
            (30_000, 1_000_000),
            res_case,
            check_res,
        ),
    ]
}
