//! R01 on resource sets, and R04.

use std::{
    cell::Cell,
    collections::{BTreeMap, BTreeSet, HashMap},
    sync::{atomic::AtomicU32, Mutex},
};

use goggles::{MakeSync, Read, ResourceSet, Resources, RwResources, WorldResourceId, Write};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::world;
use crate::{
    engine::{catching, Cx, Leg, Prop, R},
    ensure, ensure_eq,
};

// R01

trait Val: Send + 'static {
    fn of(v: u32) -> Self;
    fn num(&self) -> u32;
    /// What there is to see through the kinds of access that need `Sync`.
    fn shared(_: &ResourceSet) -> Vec<Option<u32>> {
        vec![]
    }
}

macro_rules! val {
    ($t:ty, |$v:ident| $of:expr, |$s:ident| $num:expr, unsync) => {
        impl Val for $t {
            fn of($v: u32) -> Self {
                $of
            }
            fn num(&self) -> u32 {
                let $s = self;
                $num
            }
        }
    };
    ($t:ty, |$v:ident| $of:expr, |$s:ident| $num:expr) => {
        impl Val for $t {
            fn of($v: u32) -> Self {
                $of
            }
            fn num(&self) -> u32 {
                let $s = self;
                $num
            }
            fn shared(set: &ResourceSet) -> Vec<Option<u32>> {
                vec![
                    catching(|| set.borrow::<Self>().num()).ok(),
                    catching(|| set.fetch::<Read<Self>>().num()).ok(),
                    catching(|| set.fetch::<(Read<Self>, Read<Self>)>().1.num()).ok(),
                ]
            }
        }
    };
}

#[derive(Clone, Copy)]
#[repr(transparent)]
struct New(u32);
struct Gen<T>(T);
struct Zst;
struct Zst2;

val!(u32, |v| v, |s| *s);
val!(i32, |v| v as i32, |s| *s as u32);
val!(New, |v| New(v), |s| s.0);
val!(Gen<u32>, |v| Gen(v), |s| s.0);
val!(Gen<i32>, |v| Gen(v as i32), |s| s.0 as u32);
val!(Gen<Gen<u32>>, |v| Gen(Gen(v)), |s| s.0 .0);
val!(Option<u32>, |v| Some(v), |s| s.unwrap());
val!(Box<u32>, |v| Box::new(v), |s| **s);
val!(Option<Box<u32>>, |v| Some(Box::new(v)), |s| **s.as_ref().unwrap());
val!((u32,), |v| (v,), |s| s.0);
val!([u32; 1], |v| [v], |s| s[0]);
val!(String, |v| v.to_string(), |s| s.parse().unwrap());
val!(&'static str, |v| Box::leak(v.to_string().into_boxed_str()), |s| s.parse().unwrap());
val!(Vec<u32>, |v| vec![v; 3], |s| s[2]);
val!(Cell<u32>, |v| Cell::new(v), |s| s.get(), unsync);
val!(AtomicU32, |v| AtomicU32::new(v), |s| s
    .load(std::sync::atomic::Ordering::Relaxed));
val!(Mutex<u32>, |v| Mutex::new(v), |s| *s.lock().unwrap());
val!(MakeSync<u32>, |v| MakeSync::new(v), |s| *s.get());
val!(ResourceSet, |v| {
    let mut r = ResourceSet::new();
    r.insert(v);
    r
}, |s| *s.borrow::<u32>());
val!(Zst, |_v| Zst, |_s| 0);
val!(Zst2, |_v| Zst2, |_s| 0);
val!(fn() -> u32, |v| [(|| 0) as fn() -> u32, || 1, || 2][v as usize % 3], |s| s());

const TYPES: usize = 22;

macro_rules! by_t {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k as usize % TYPES {
            0 => $f::<u32>($($a),*),
            1 => $f::<i32>($($a),*),
            2 => $f::<New>($($a),*),
            3 => $f::<Gen<u32>>($($a),*),
            4 => $f::<Gen<i32>>($($a),*),
            5 => $f::<Gen<Gen<u32>>>($($a),*),
            6 => $f::<Option<u32>>($($a),*),
            7 => $f::<Box<u32>>($($a),*),
            8 => $f::<Option<Box<u32>>>($($a),*),
            9 => $f::<(u32,)>($($a),*),
            10 => $f::<[u32; 1]>($($a),*),
            11 => $f::<String>($($a),*),
            12 => $f::<Vec<u32>>($($a),*),
            13 => $f::<Cell<u32>>($($a),*),
            14 => $f::<AtomicU32>($($a),*),
            15 => $f::<Mutex<u32>>($($a),*),
            16 => $f::<MakeSync<u32>>($($a),*),
            17 => $f::<ResourceSet>($($a),*),
            18 => $f::<Zst>($($a),*),
            19 => $f::<Zst2>($($a),*),
            20 => $f::<fn() -> u32>($($a),*),
            _ => $f::<&'static str>($($a),*),
        }
    };
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum SetOp {
    Insert(u8),
    Remove(u8),
    /// Type and kind of access.
    Assign(u8, u8),
    Look(u8),
    Move,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SetCase {
    /// The types in play.
    types: Vec<u8>,
    ops: Vec<SetOp>,
}

fn set_case() -> impl Strategy<Value = SetCase> {
    let t = || any::<u8>();
    let op = prop_oneof![
        6 => t().prop_map(SetOp::Insert),
        4 => t().prop_map(SetOp::Remove),
        4 => (t(), 0u8..4).prop_map(|(t, h)| SetOp::Assign(t, h)),
        2 => t().prop_map(SetOp::Look),
        1 => Just(SetOp::Move),
    ];
    (
        prop::collection::vec(0u8..TYPES as u8, 1..8),
        prop::collection::vec(op, 1..40),
    )
        .prop_map(|(types, ops)| SetCase { types, ops })
}

type SetModel = BTreeMap<u8, u32>;

fn look<T: Val>(s: &mut ResourceSet, k: u8, m: &SetModel) -> R {
    let want = m.get(&k).copied();
    ensure_eq!(s.contains::<T>(), want.is_some(), "contains {}", std::any::type_name::<T>());
    for got in T::shared(s) {
        ensure_eq!(got, want, "shared access to {}", std::any::type_name::<T>());
    }
    for (how, got) in [
        ("borrow_mut", catching(|| s.borrow_mut::<T>().num())),
        ("Write", catching(|| s.fetch::<Write<T>>().num())),
        ("get_mut", catching(|| s.get_mut::<T>().num())),
    ] {
        ensure_eq!(got.ok(), want, "{how} of {}", std::any::type_name::<T>());
    }
    Ok(())
}

fn insert<T: Val>(s: &mut ResourceSet, k: u8, m: &mut SetModel, v: u32) -> R {
    let val = T::of(v);
    let v = val.num();
    let old = s.insert(val).map(|o| o.num());
    ensure_eq!(old, m.insert(k, v), "insert of a {} gave back", std::any::type_name::<T>());
    look::<T>(s, k, m)
}

fn remove<T: Val>(s: &mut ResourceSet, k: u8, m: &mut SetModel) -> R {
    let old = s.remove::<T>().map(|o| o.num());
    ensure_eq!(old, m.remove(&k), "removal of a {} gave", std::any::type_name::<T>());
    look::<T>(s, k, m)
}

fn assign<T: Val>(s: &mut ResourceSet, k: u8, m: &mut SetModel, how: u8, v: u32) -> R {
    let val = T::of(v);
    let v = val.num();
    let r = catching(|| match how {
        0 => *s.borrow_mut::<T>() = val,
        1 => *s.get_mut::<T>() = val,
        2 => *s.fetch::<Write<T>>() = val,
        _ => *s.fetch::<(Write<T>,)>().0 = val,
    });
    ensure_eq!(r.is_ok(), m.contains_key(&k), "write access to {} worked", std::any::type_name::<T>());
    if r.is_ok() {
        m.insert(k, v);
    }
    look::<T>(s, k, m)
}

pub fn set_check(c: &SetCase, cx: &mut Cx) -> R {
    let mut s = ResourceSet::new();
    let mut m = SetModel::new();
    let (mut replaced, mut missed) = (false, false);
    for (n, op) in c.ops.iter().enumerate() {
        let at = |t: u8| c.types[t as usize % c.types.len()];
        let v = n as u32 + 1;
        let r = match *op {
            SetOp::Insert(t) => {
                replaced |= m.contains_key(&at(t));
                by_t!(at(t), insert(&mut s, at(t), &mut m, v))
            }
            SetOp::Remove(t) => by_t!(at(t), remove(&mut s, at(t), &mut m)),
            SetOp::Assign(t, h) => {
                missed |= !m.contains_key(&at(t));
                by_t!(at(t), assign(&mut s, at(t), &mut m, h, v))
            }
            SetOp::Look(t) => by_t!(at(t), look(&mut s, at(t), &m)),
            SetOp::Move => {
                let t = std::mem::take(&mut s);
                s = *Box::new(t);
                Ok(())
            }
        };
        r.map_err(|e| format!("operation {n} ({op:?}): {e}"))?;
        // No other type is affected.
        for k in &c.types {
            by_t!(*k, look(&mut s, *k, &m)).map_err(|e| format!("after operation {n} ({op:?}): {e}"))?;
        }
    }
    for k in 0..TYPES as u8 {
        by_t!(k, look(&mut s, k, &m)).map_err(|e| format!("at the end: {e}"))?;
    }
    cx.label_if(replaced, "replaced a value");
    cx.label_if(missed, "accessed an absent type");
    cx.nontrivial_if(replaced && missed && c.types.iter().collect::<BTreeSet<_>>().len() > 1);
    Ok(())
}

pub fn r01() -> Prop {
    Prop::new(
        "R01",
        vec![
            Leg::new(
                "set",
                "histories of one resource set over up to 7 of 22 types; all compared with a map after each operation; non-trivial: a value was replaced, an absent type accessed, several types in play",
                (25_000, 800_000),
                set_case,
                set_check,
            ),
            world::leg(world::R01, "world", 100_000, 60),
            world::leg(world::R01, "world-long", 4_000, 400),
            super::many_types::leg(super::many_types::R01, 40_000),
        ],
    )
}

// R04

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
enum Acc {
    Read,
    Write,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Step {
    AddRead(u8),
    AddWrite(u8),
    AddReads(Vec<u8>),
    AddWrites(Vec<u8>),
    Read(u8),
    Write(u8),
    Union(Box<Build>),
    /// Union with a copy of itself.
    UnionSelf,
    /// Keys modulo this, plus this.
    Map(u8, u8),
    Clone,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Build {
    /// The lists given to `from_iters`, if not started empty.
    from: Option<(Vec<u8>, Vec<u8>)>,
    steps: Vec<Step>,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SetsCase {
    keys: u8,
    sets: [Build; 3],
}

fn build(depth: u32) -> BoxedStrategy<Build> {
    let k = || any::<u8>();
    let ks = || prop::collection::vec(any::<u8>(), 0..6);
    let mut steps: Vec<(u32, BoxedStrategy<Step>)> = vec![
        (4, k().prop_map(Step::AddRead).boxed()),
        (4, k().prop_map(Step::AddWrite).boxed()),
        (2, ks().prop_map(Step::AddReads).boxed()),
        (2, ks().prop_map(Step::AddWrites).boxed()),
        (2, k().prop_map(Step::Read).boxed()),
        (2, k().prop_map(Step::Write).boxed()),
        (1, Just(Step::UnionSelf).boxed()),
        (1, (1u8..12, 0u8..8).prop_map(|(m, a)| Step::Map(m, a)).boxed()),
        (1, Just(Step::Clone).boxed()),
    ];
    if depth > 0 {
        steps.push((4, build(depth - 1).prop_map(|b| Step::Union(Box::new(b))).boxed()));
    }
    (
        prop::option::of((ks(), ks())),
        prop::collection::vec(prop::strategy::Union::new_weighted(steps), 0..7),
    )
        .prop_map(|(from, steps)| Build { from, steps })
        .boxed()
}

fn sets_case() -> impl Strategy<Value = SetsCase> {
    (1u8..9, [build(2), build(2), build(1)]).prop_map(|(keys, sets)| SetsCase { keys, sets })
}

type AccModel = BTreeMap<u8, Acc>;

fn grant(m: &mut AccModel, k: u8, a: Acc) {
    let e = m.entry(k).or_insert(a);
    *e = (*e).max(a);
}

fn join(a: &AccModel, b: &AccModel) -> AccModel {
    let mut m = a.clone();
    for (k, v) in b {
        grant(&mut m, *k, *v);
    }
    m
}

fn same(r: &RwResources<u8>, m: &AccModel, what: &str) -> R {
    let mut reads: Vec<u8> = r.reads().copied().collect();
    let mut writes: Vec<u8> = r.writes().copied().collect();
    reads.sort();
    writes.sort();
    let of = |a| m.iter().filter(|x| *x.1 == a).map(|x| *x.0).collect::<Vec<_>>();
    ensure_eq!(reads, of(Acc::Read), "{what}, reads");
    ensure_eq!(writes, of(Acc::Write), "{what}, writes");
    Ok(())
}

fn make(b: &Build, keys: u8) -> Result<(RwResources<u8>, AccModel), String> {
    let mut m = AccModel::new();
    let ks = |v: &[u8]| v.iter().map(|k| k % keys).collect::<Vec<_>>();
    let mut r = match &b.from {
        None => RwResources::new(),
        Some((reads, writes)) => {
            ks(reads).iter().for_each(|k| grant(&mut m, *k, Acc::Read));
            ks(writes).iter().for_each(|k| grant(&mut m, *k, Acc::Write));
            RwResources::from_iters(ks(reads), ks(writes))
        }
    };
    same(&r, &m, "from_iters")?;
    for s in &b.steps {
        match s {
            Step::AddRead(k) => {
                r.add_read(k % keys);
                grant(&mut m, k % keys, Acc::Read);
            }
            Step::AddWrite(k) => {
                r.add_write(k % keys);
                grant(&mut m, k % keys, Acc::Write);
            }
            Step::AddReads(v) => {
                r.add_reads(ks(v));
                ks(v).iter().for_each(|k| grant(&mut m, *k, Acc::Read));
            }
            Step::AddWrites(v) => {
                r.add_writes(ks(v));
                ks(v).iter().for_each(|k| grant(&mut m, *k, Acc::Write));
            }
            Step::Read(k) => {
                r = r.read(k % keys);
                grant(&mut m, k % keys, Acc::Read);
            }
            Step::Write(k) => {
                r = r.write(k % keys);
                grant(&mut m, k % keys, Acc::Write);
            }
            Step::Union(b) => {
                let (r2, m2) = make(b, keys)?;
                r.union(&r2);
                same(&r2, &m2, "the argument of a union")?;
                m = join(&m, &m2);
            }
            Step::UnionSelf => {
                let c = r.clone();
                r.union(&c);
            }
            Step::Map(by, add) => {
                let f = |k: u8| (k % by).wrapping_add(*add) % keys;
                let r2 = r.map(|k| f(*k));
                same(&r, &m, "the source of a map")?;
                r = r2;
                let mut m2 = AccModel::new();
                for (k, a) in &m {
                    grant(&mut m2, f(*k), *a);
                }
                m = m2;
            }
            Step::Clone => r = r.clone(),
        }
        same(&r, &m, &format!("after {s:?}"))?;
    }
    Ok((r, m))
}

fn clash(a: &AccModel, b: &AccModel) -> bool {
    a.iter()
        .any(|(k, x)| b.get(k).is_some_and(|y| *x == Acc::Write || *y == Acc::Write))
}

struct KT<const N: usize>;
impl<const N: usize> goggles::Component for KT<N> {
    type Storage = goggles::VecStorage<Self>;
}

/// Distinct keys of a world.
fn world_key(k: u8) -> WorldResourceId {
    match k {
        0 => WorldResourceId::Entities,
        1 => WorldResourceId::resource::<KT<0>>(),
        2 => WorldResourceId::component::<KT<0>>(),
        3 => WorldResourceId::resource::<KT<1>>(),
        4 => WorldResourceId::component::<KT<1>>(),
        5 => WorldResourceId::resource::<Option<KT<0>>>(),
        6 => WorldResourceId::resource::<u32>(),
        7 => WorldResourceId::resource::<i32>(),
        _ => WorldResourceId::resource::<()>(),
    }
}

pub fn sets_check(c: &SetsCase, cx: &mut Cx) -> R {
    let mut built = vec![];
    for b in &c.sets {
        built.push(make(b, c.keys)?);
    }
    let of = |i: usize, j: usize| -> (RwResources<u8>, AccModel) {
        let mut r = built[i].0.clone();
        r.union(&built[j].0);
        (r, join(&built[i].1, &built[j].1))
    };
    let mut clashes = 0;
    for i in 0..3 {
        for j in 0..3 {
            let (a, b) = (&built[i], &built[j]);
            let want = clash(&a.1, &b.1);
            clashes += (want && i != j) as u32;
            ensure_eq!(a.0.conflicts_with(&b.0), want, "conflict of {:?} with {:?}", a.1, b.1);
            let (r, m) = of(i, j);
            same(&r, &m, "union of two")?;
            same(&b.0, &b.1, "the argument of a union")?;
            same(&of(j, i).0, &m, "the union the other way round")?;
        }
    }
    // Associativity, and the neutral element.
    let mut l = of(0, 1).0;
    l.union(&built[2].0);
    let mut r = built[0].0.clone();
    r.union(&of(1, 2).0);
    let m = join(&join(&built[0].1, &built[1].1), &built[2].1);
    same(&l, &m, "(a + b) + c")?;
    same(&r, &m, "a + (b + c)")?;
    let mut e = RwResources::default();
    e.union(&l);
    same(&e, &m, "empty + a")?;
    l.union(&RwResources::default());
    same(&l, &m, "a + empty")?;
    ensure!(!l.conflicts_with(&RwResources::default()), "the empty set conflicts");
    ensure!(!RwResources::default().conflicts_with(&l), "the empty set conflicts");
    // The same with a world's keys.
    let w: Vec<_> = built.iter().map(|b| b.0.map(|k| world_key(*k))).collect();
    let names: HashMap<WorldResourceId, u8> = (0..9).map(|k| (world_key(k), k)).collect();
    ensure_eq!(names.len(), 9, "distinct keys of a world");
    for i in 0..3 {
        same(&w[i].map(|k| names[k]), &built[i].1, "mapped to a world's keys and back")?;
        for j in 0..3 {
            ensure_eq!(
                w[i].conflicts_with(&w[j]),
                clash(&built[i].1, &built[j].1),
                "conflict after mapping to a world's keys"
            );
        }
    }
    cx.label_if(clashes > 0, "two of the sets conflict");
    let both = built.iter().any(|b| b.1.values().collect::<BTreeSet<_>>().len() == 2);
    cx.label_if(both, "a set with reads and writes");
    cx.nontrivial_if(both && (1..6).contains(&clashes));
    Ok(())
}

/// Sets of hundreds of keys, built by runs of them.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ManyCase {
    sets: Vec<Vec<Run>>,
}

/// `len` keys from `from` on, every `step`th; how: 0 one by one, 1 together, 2 by value, 3 as a set
/// of their own that is united, 4 the other way round.
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub struct Run {
    from: u16,
    len: u16,
    step: u8,
    write: bool,
    how: u8,
}

fn many_case() -> impl Strategy<Value = ManyCase> {
    let run = (
        prop_oneof![2 => 0u16..3000, 1 => 0u16..10_000],
        prop_oneof![2 => 1u16..8, 2 => 1u16..600, 1 => 30u16..140],
        1u8..6,
        prop::bool::weighted(0.3),
        0u8..5,
    )
        .prop_map(|(from, len, step, write, how)| Run {
            from,
            len,
            step,
            write,
            how,
        });
    prop::collection::vec(prop::collection::vec(run, 0..7), 2..4).prop_map(|sets| ManyCase { sets })
}

fn many_check(c: &ManyCase, cx: &mut Cx) -> R {
    type Model = BTreeMap<u32, Acc>;
    fn grant(m: &mut Model, k: u32, a: Acc) {
        let e = m.entry(k).or_insert(a);
        *e = (*e).max(a);
    }
    fn same(r: &RwResources<u32>, m: &Model, what: &str) -> R {
        for (all, acc) in [
            (r.reads().copied().collect::<Vec<_>>(), Acc::Read),
            (r.writes().copied().collect(), Acc::Write),
        ] {
            let mut all = all;
            all.sort();
            let want: Vec<u32> = m.iter().filter(|x| *x.1 == acc).map(|x| *x.0).collect();
            ensure!(
                all == want,
                "{what}: {} keys listed as {acc:?}, {} expected; first difference {:?}",
                all.len(),
                want.len(),
                all.iter().zip(&want).find(|(a, b)| a != b)
            );
        }
        Ok(())
    }
    let mut built: Vec<(RwResources<u32>, Model)> = vec![];
    for runs in &c.sets {
        let (mut r, mut m) = (RwResources::new(), Model::new());
        for run in runs {
            let keys = (0..run.len as u32).map(|i| run.from as u32 + i * run.step as u32);
            let set = || {
                if run.write {
                    RwResources::from_iters(None, keys.clone())
                } else {
                    RwResources::from_iters(keys.clone(), None)
                }
            };
            match (run.how, run.write) {
                (0, false) => keys.clone().for_each(|k| r.add_read(k)),
                (0, true) => keys.clone().for_each(|k| r.add_write(k)),
                (1, false) => r.add_reads(keys.clone()),
                (1, true) => r.add_writes(keys.clone()),
                (2, false) => r = keys.clone().fold(r, |r, k| r.read(k)),
                (2, true) => r = keys.clone().fold(r, |r, k| r.write(k)),
                (3, _) => r.union(&set()),
                _ => {
                    let mut s = set();
                    s.union(&r);
                    r = s;
                }
            }
            let acc = if run.write { Acc::Write } else { Acc::Read };
            keys.for_each(|k| grant(&mut m, k, acc));
            same(&r, &m, &format!("after {run:?}"))?;
        }
        same(&r.map(|k| *k), &m, "mapped to the same")?;
        let mut half = Model::new();
        m.iter().for_each(|(k, a)| grant(&mut half, k / 2, *a));
        same(&r.map(|k| k / 2), &half, "mapped two to one")?;
        built.push((r, m));
    }
    let (mut yes, mut no) = (0, 0);
    for a in &built {
        for b in &built {
            let want = a
                .1
                .iter()
                .any(|(k, x)| b.1.get(k).is_some_and(|y| *x == Acc::Write || *y == Acc::Write));
            if want { yes += 1 } else { no += 1 }
            ensure_eq!(a.0.conflicts_with(&b.0), want, "conflict");
            let mut r = a.0.clone();
            r.union(&b.0);
            let mut m = a.1.clone();
            b.1.iter().for_each(|(k, x)| grant(&mut m, *k, *x));
            same(&r, &m, "union of two")?;
        }
    }
    let most = built.iter().map(|b| b.1.len()).max().unwrap_or(0);
    cx.label_if(most > 1000, "over 1000 keys");
    cx.nontrivial_if(most > 64 && yes > 0 && no > 0);
    Ok(())
}

pub fn r04() -> Prop {
    Prop::new(
        "R04",
        vec![Leg::new(
            "build",
            "three access sets, each built by a tree of all the building calls over up to 8 keys; listed accesses, conflicts and unions compared with a map to the strongest access; non-trivial: some set reads and writes, and some but not all pairs conflict",
            (150_000, 5_000_000),
            sets_case,
            sets_check,
        ), Leg::new(
            "many",
            "two or three access sets of up to thousands of keys, built from runs of keys by every building call and union; non-trivial: over 64 keys in one, and some but not all pairs conflict",
            (15_000, 500_000),
            many_case,
            many_check,
        )],
    )
}
