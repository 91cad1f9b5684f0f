//! Storages of many thousand components: for what depends on how many there are.

use goggles::{
    hibitset::{BitSet, BitSetLike},
    DenseVecStorage, Flagged, HashMapStorage, IntoJoinExt, MaskedStorage, ParJoinExt, RawStorage,
    VecStorage,
};
use proptest::prelude::*;
use rayon::iter::ParallelIterator;
use serde::{Deserialize, Serialize};

use super::own::Own;
use super::storage::{kind, Kind};
use crate::{
    engine::{Cx, Leg, R},
    ensure, ensure_eq,
};

/// Indexes `start + k * step` for k below 2^bits, visited in the order that multiplying by the odd
/// number `mul` gives.
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub struct Run {
    start: u32,
    bits: u8,
    step: u8,
    mul: u32,
}

impl Run {
    pub fn indexes(self) -> impl Iterator<Item = u32> {
        let n = 1u32 << self.bits;
        (0..n).map(move |k| self.start + (k.wrapping_mul(self.mul) & (n - 1)) * self.step as u32)
    }
}

pub fn run() -> impl Strategy<Value = Run> {
    (
        prop_oneof![3 => Just(0u32), 2 => 0u32..100, 1 => 0u32..70_000],
        prop_oneof![3 => 8u8..15, 3 => 16u8..18],
        prop_oneof![4 => Just(1u8), 1 => 2u8..4],
        prop_oneof![
            2 => Just(1u32),
            1 => Just(u32::MAX),
            2 => any::<u32>().prop_map(|m| m | 1),
        ],
    )
        .prop_map(|(start, bits, step, mul)| Run {
            start,
            bits,
            step,
            mul,
        })
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    Insert(Run),
    Remove(Run),
    GetOrInsert(Run),
    Write(Run),
    /// A mutable join with every n-th index, in parallel or not.
    Join(u8, bool),
    GuardJoin(u8, bool),
    /// Through the slice, from this element on.
    Slice(u32),
    Track(bool),
    Clear,
    Take,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    tracking: bool,
    ops: Vec<Op>,
}

fn case(kinds: impl Strategy<Value = Kind>) -> impl Strategy<Value = Case> {
    let op = prop_oneof![
        6 => run().prop_map(Op::Insert),
        4 => run().prop_map(Op::Remove),
        1 => run().prop_map(Op::GetOrInsert),
        2 => run().prop_map(Op::Write),
        1 => (1u8..6, any::<bool>()).prop_map(|(n, p)| Op::Join(n, p)),
        1 => (1u8..6, any::<bool>()).prop_map(|(n, p)| Op::GuardJoin(n, p)),
        1 => prop_oneof![Just(0u32), 0u32..200_000].prop_map(Op::Slice),
        1 => any::<bool>().prop_map(Op::Track),
        1 => Just(Op::Clear),
        1 => Just(Op::Take),
    ];
    (kinds, any::<bool>(), prop::collection::vec(op, 1..8)).prop_map(|(kind, tracking, mut ops)| {
        // Something has to be there.
        let first = ops.iter().position(|o| matches!(o, Op::Insert(_)));
        ops.drain(..first.unwrap_or(0));
        Case { kind, tracking, ops }
    })
}

trait Large: RawStorage<Item = u32> + Default + Send + Sync {
    const TRACKED: bool = false;
    fn track(_: &mut MaskedStorage<Self>, _: bool) {}
    fn clear(_: &mut MaskedStorage<Self>) {}
    fn modified(_: &MaskedStorage<Self>) -> Vec<u32> {
        vec![]
    }
    fn changed(_: &MaskedStorage<Self>) -> Vec<Option<u32>> {
        vec![]
    }
    fn slice(_: &MaskedStorage<Self>) -> Option<&[u32]> {
        None
    }
    fn slice_mut(_: &mut MaskedStorage<Self>) -> Option<&mut [u32]> {
        None
    }
}

impl Large for VecStorage<u32> {}
impl Large for HashMapStorage<u32> {}
impl Large for Own<u32> {}
impl Large for DenseVecStorage<u32> {
    fn slice(s: &MaskedStorage<Self>) -> Option<&[u32]> {
        Some(s.as_slice())
    }
    fn slice_mut(s: &mut MaskedStorage<Self>) -> Option<&mut [u32]> {
        Some(s.as_mut_slice())
    }
}
impl<S: RawStorage<Item = u32> + Default + Send + Sync> Large for Flagged<S> {
    const TRACKED: bool = true;
    fn track(s: &mut MaskedStorage<Self>, f: bool) {
        s.set_track_modified(f)
    }
    fn clear(s: &mut MaskedStorage<Self>) {
        s.clear_modified()
    }
    fn modified(s: &MaskedStorage<Self>) -> Vec<u32> {
        s.modified_indexes().iter().collect()
    }
    fn changed(s: &MaskedStorage<Self>) -> Vec<Option<u32>> {
        s.modified().join().map(|v| v.copied()).collect()
    }
}

const SPAN: usize = 70_000 + (1 << 17) * 4;

fn go<S: Large>(c: &Case, cx: &mut Cx) -> R {
    let mut s = MaskedStorage::<S>::default();
    // 0 where there is nothing.
    let mut m = vec![0u32; SPAN];
    let mut modified = vec![false; SPAN];
    let mut tracking = c.tracking;
    S::track(&mut s, tracking);
    let mut next = 0u32;
    let (mut most, mut removed) = (0, 0);
    for (n, op) in c.ops.iter().enumerate() {
        let res = (|| -> R {
            match *op {
                Op::Insert(r) => {
                    for i in r.indexes() {
                        next += 1;
                        let old = s.insert(i, next).unwrap_or(0);
                        ensure_eq!(old, m[i as usize], "insert at {i} gave back");
                        m[i as usize] = next;
                        modified[i as usize] |= tracking;
                    }
                }
                Op::Remove(r) => {
                    for i in r.indexes() {
                        let old = s.remove(i).unwrap_or(0);
                        ensure_eq!(old, m[i as usize], "remove at {i} gave back");
                        modified[i as usize] |= tracking && old != 0;
                        removed += (old != 0) as u32;
                        m[i as usize] = 0;
                    }
                }
                Op::GetOrInsert(r) => {
                    for i in r.indexes() {
                        next += 1;
                        let got = *s.get_or_insert_with(i, || next);
                        let m = &mut m[i as usize];
                        if *m == 0 {
                            *m = next;
                        }
                        ensure_eq!(got, *m, "get-or-insert at {i}");
                        modified[i as usize] |= tracking;
                    }
                }
                Op::Write(r) => {
                    for i in r.indexes() {
                        next += 1;
                        let got = s.get_mut(i).map(|v| std::mem::replace(v, next)).unwrap_or(0);
                        ensure_eq!(got, m[i as usize], "get_mut at {i}");
                        if got != 0 {
                            m[i as usize] = next;
                            modified[i as usize] |= tracking;
                        }
                    }
                }
                Op::Join(k, par) => {
                    let mask: BitSet = (0..SPAN as u32).filter(|i| i % k as u32 == 0).collect();
                    let base = next;
                    let write = |(i, v): (u32, &mut u32)| *v = base + 1 + i;
                    if par {
                        (&mask, &mut s).par_join().for_each(write);
                    } else {
                        (&mask, &mut s).join().for_each(write);
                    }
                    for i in (0..SPAN).step_by(k as usize).filter(|i| m[*i] != 0).collect::<Vec<_>>() {
                        m[i] = base + 1 + i as u32;
                        modified[i] |= tracking;
                    }
                    next += 1 + SPAN as u32;
                }
                Op::GuardJoin(k, par) => {
                    let base = next;
                    let mask = s.mask().clone();
                    let k = k as u32;
                    if par {
                        (&mask, s.guard()).par_join().for_each(|(i, mut g)| {
                            if i % k == 0 {
                                *g.get_mut() = base + 1 + i;
                            }
                        });
                    } else {
                        (&mask, s.guard()).join().for_each(|(i, mut g)| {
                            if i % k == 0 {
                                *g.get_mut() = base + 1 + i;
                            }
                        });
                    }
                    for i in (0..SPAN).step_by(k as usize).filter(|i| m[*i] != 0).collect::<Vec<_>>() {
                        m[i] = base + 1 + i as u32;
                        modified[i] |= tracking;
                    }
                    next += 1 + SPAN as u32;
                }
                Op::Slice(from) => {
                    let len = m.iter().filter(|v| **v != 0).count();
                    if let Some(slice) = S::slice_mut(&mut s) {
                        ensure_eq!(slice.len(), len, "length of the mutable slice");
                        let from = (from as usize).min(len);
                        for (k, v) in slice.iter_mut().enumerate().skip(from) {
                            *v = next + 1 + k as u32;
                        }
                        let at = slice.as_ptr() as usize;
                        for (i, m) in m.iter_mut().enumerate().filter(|(_, m)| **m != 0) {
                            let Some(r) = s.get(i as u32) else {
                                return Err(format!("nothing at {i}"));
                            };
                            let k = (r as *const u32 as usize).wrapping_sub(at) / 4;
                            ensure!(k < len, "index {i} refers outside of the slice");
                            if k >= from {
                                *m = next + 1 + k as u32;
                            }
                        }
                        next += 1 + len as u32;
                    }
                }
                Op::Track(f) => {
                    tracking = f;
                    S::track(&mut s, f);
                }
                Op::Clear => {
                    modified.iter_mut().for_each(|m| *m = false);
                    S::clear(&mut s);
                }
                Op::Take => s = Some(std::mem::take(&mut s)).unwrap(),
            }
            // All of it.
            let mut live = vec![];
            for (i, v) in m.iter().enumerate() {
                let got = s.get(i as u32).copied().unwrap_or(0);
                ensure_eq!(got, *v, "get({i})");
                if *v != 0 {
                    live.push(i as u32);
                }
            }
            most = most.max(live.len());
            ensure!(s.mask().iter().eq(live.iter().copied()), "occupied indexes");
            ensure!(
                (s.mask(), &s).join().map(|(i, v)| (i, *v)).eq(live.iter().map(|i| (*i, m[*i as usize]))),
                "join"
            );
            if let Some(slice) = S::slice(&s) {
                let mut got = slice.to_vec();
                got.sort_unstable();
                let mut want: Vec<u32> = live.iter().map(|i| m[*i as usize]).collect();
                want.sort_unstable();
                ensure!(got == want, "values in the slice");
            }
            if S::TRACKED {
                let want: Vec<u32> = (0..SPAN as u32).filter(|i| modified[*i as usize]).collect();
                ensure!(S::modified(&s) == want, "modified indexes");
                ensure!(
                    S::changed(&s).into_iter().map(|v| v.unwrap_or(0)).eq(want.iter().map(|i| m[*i as usize])),
                    "join over modified"
                );
            }
            Ok(())
        })();
        res.map_err(|e| format!("operation {n} ({op:?}): {e}"))?;
    }
    cx.label_if(most > 1 << 16, "more than 2^16 components");
    cx.nontrivial_if(most > 4000 && removed > 0);
    Ok(())
}

fn check(c: &Case, cx: &mut Cx) -> R {
    match c.kind {
        Kind::Vec => go::<VecStorage<u32>>(c, cx),
        Kind::Dense => go::<DenseVecStorage<u32>>(c, cx),
        Kind::Map => go::<HashMapStorage<u32>>(c, cx),
        Kind::FlaggedVec => go::<Flagged<VecStorage<u32>>>(c, cx),
        Kind::FlaggedDense => go::<Flagged<DenseVecStorage<u32>>>(c, cx),
        Kind::FlaggedMap => go::<Flagged<HashMapStorage<u32>>>(c, cx),
        Kind::Own => go::<Own<u32>>(c, cx),
        Kind::FlaggedOwn => go::<Flagged<Own<u32>>>(c, cx),
    }
}

const RULE: &str = "bulk operations on a storage, on runs of up to 2^17 indexes in order, reversed or scrambled; \
everything it holds is compared after each; non-trivial: more than 4000 components at once, and some removed";

pub fn leg(quick: u64, thorough: u64) -> Leg {
    Leg::new("large", RULE, (quick, thorough), || case(kind()), check)
}

pub fn dense(quick: u64, thorough: u64) -> Leg {
    Leg::new("large", RULE, (quick, thorough), || case(Just(Kind::Dense)), check)
}

pub fn tracked(quick: u64, thorough: u64) -> Leg {
    let kinds = || prop::sample::select(vec![Kind::FlaggedVec, Kind::FlaggedDense, Kind::FlaggedMap, Kind::FlaggedOwn]);
    Leg::new("large", RULE, (quick, thorough), move || case(kinds()), check)
}
