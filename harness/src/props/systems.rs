//! Y01, Y02 and Y03: systems composed at run time.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
};

use goggles::{
    par, parallelize, seq,
    system::{ParList, SeqList},
    Par, Pool, RayonPool, Read, ResourceConflict, ResourceSet, RwResources, Seq, SeqPool, System, SystemError,
    Write,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
    engine::{catching, Cx, Leg, Prop, R},
    ensure, ensure_eq,
    props::joins::pools,
};

// Cases.

const KEYS: u8 = 12;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct LeafSpec {
    reads: Vec<u8>,
    writes: Vec<u8>,
    /// Its own check fails.
    conflict: bool,
    /// In which runs it fails.
    fails: u8,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Tree {
    Leaf(LeafSpec),
    /// `Par::new` or `Seq::new`.
    Pair(bool, Box<Tree>, Box<Tree>),
    /// With `with` for everything after the first two.
    With(bool, Vec<Tree>),
    Macro(bool, Vec<Tree>),
    List(bool, Vec<Tree>),
    Boxed(Box<Tree>),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    tree: Tree,
    pools: Vec<PoolSpec>,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum PoolSpec {
    /// Goggles' own.
    Sequential,
    Reversed,
    /// In an order that depends on which join it is.
    Mixed(u64),
    /// One part or both on a new thread.
    Threads(u8),
    /// Goggles' own, inside of a pool of some number of threads.
    Rayon(u8),
}

fn leaf_spec(keys: u8, writes: f64, conflicts: f64, fails: f64) -> impl Strategy<Value = LeafSpec> {
    (
        prop::collection::vec(0..keys, 0..3),
        prop::option::weighted(writes, prop::collection::vec(0..keys, 1..3)),
        prop::bool::weighted(conflicts),
        prop::option::weighted(fails.max(1e-9), any::<u8>()),
    )
        .prop_map(|(reads, writes, conflict, fails)| LeafSpec {
            reads,
            writes: writes.unwrap_or_default(),
            conflict,
            fails: fails.unwrap_or(0),
        })
}

fn tree(size: u32, keys: u8, writes: f64, conflicts: f64, fails: f64) -> BoxedStrategy<Tree> {
    leaf_spec(keys, writes, conflicts, fails)
        .prop_map(Tree::Leaf)
        .prop_recursive(5, size, 3, move |t| {
            let t = t.boxed();
            let v = |n| prop::collection::vec(t.clone(), n);
            prop_oneof![
                3 => (any::<bool>(), t.clone(), t.clone())
                    .prop_map(|(p, a, b)| Tree::Pair(p, Box::new(a), Box::new(b))),
                2 => (any::<bool>(), v(3..7)).prop_map(|(p, v)| Tree::With(p, v)),
                2 => (any::<bool>(), v(2..7)).prop_map(|(p, v)| Tree::Macro(p, v)),
                3 => (any::<bool>(), v(0..9)).prop_map(|(p, v)| Tree::List(p, v)),
                1 => t.clone().prop_map(|t| Tree::Boxed(Box::new(t))),
            ]
        })
        .boxed()
}

fn long_list(keys: u8, writes: f64, conflicts: f64, fails: f64) -> impl Strategy<Value = Tree> {
    (
        any::<bool>(),
        prop::collection::vec(leaf_spec(keys, writes, conflicts, fails).prop_map(Tree::Leaf), 0..40),
    )
        .prop_map(|(p, v)| Tree::List(p, v))
}

/// Lists of hundreds of parts that hardly conflict, or not at all.
fn hundreds(conflicts: f64, fails: f64) -> impl Strategy<Value = Case> {
    let list = move |keys: u8| {
        let leaf = prop_oneof![
            4 => leaf_spec(keys, 0.004, conflicts, fails),
            1 => leaf_spec(keys, 0.004, conflicts, 0.0),
        ];
        let part = prop_oneof![
            60 => leaf.prop_map(Tree::Leaf),
            1 => tree(12, keys, 0.004, conflicts, fails),
        ];
        let some = |n: std::ops::Range<usize>| prop::collection::vec(part.clone(), n);
        let v = prop_oneof![some(0..20), some(20..80), some(80..200), some(200..400)].boxed();
        // The last ones may conflict with anything before.
        let last = prop::collection::vec(leaf_spec(keys, 0.3, conflicts, fails).prop_map(Tree::Leaf), 0..2);
        (any::<bool>(), prop::bool::weighted(0.8), v, last).prop_map(|(whole, par, mut v, last)| {
            v.extend(last);
            if whole || v.len() < 4 {
                return Tree::List(par, v);
            }
            let w = v.split_off(v.len() / 2);
            Tree::Pair(true, Box::new(Tree::List(par, v)), Box::new(Tree::List(true, w)))
        })
    };
    (
        prop::sample::select(vec![1u8, 3, 12, 250]).prop_flat_map(list),
        prop::collection::vec(pool(1), 1..3),
    )
        .prop_map(|(tree, pools)| Case { tree, pools })
}

fn pool(real: u32) -> impl Strategy<Value = PoolSpec> {
    prop_oneof![
        4 => Just(PoolSpec::Sequential),
        8 => Just(PoolSpec::Reversed),
        8 => any::<u64>().prop_map(PoolSpec::Mixed),
        real => (0u8..3).prop_map(PoolSpec::Threads),
        real => any::<u8>().prop_map(PoolSpec::Rayon),
    ]
}

fn case(keys: std::ops::Range<u8>, conflicts: f64, fails: f64) -> impl Strategy<Value = Case> {
    (
        (keys, prop::sample::select(vec![0.03, 0.15, 0.5])).prop_flat_map(move |(k, w)| {
            prop_oneof![
                4 => tree(16, k, w, conflicts, fails),
                3 => tree(100, k, w, conflicts, fails),
                1 => long_list(k, w, conflicts, fails),
            ]
        }),
        prop::collection::vec(pool(2), 1..5),
    )
        .prop_map(|(tree, pools)| Case { tree, pools })
}

// What is known while a composition runs.

/// In which part of which joins of the pool something runs.
type Path = Vec<(u64, bool)>;

thread_local! {
    static PATH: RefCell<Path> = const { RefCell::new(Vec::new()) };
}

#[derive(Clone, Copy)]
pub struct Args {
    salt: u64,
}

#[derive(Clone, Debug)]
struct Event {
    leaf: usize,
    start: u64,
    finish: u64,
    path: Path,
    salt: u64,
    pool: u64,
    trouble: Option<String>,
}

struct Log {
    clock: AtomicU64,
    events: Mutex<Vec<Event>>,
    run: AtomicU64,
    /// Whether parts hold what they declare while they run.
    hold: bool,
    set: ResourceSet,
}

impl Log {
    fn new(hold: bool) -> Arc<Log> {
        let mut set = ResourceSet::new();
        for k in 0..KEYS {
            slot_insert(&mut set, k);
        }
        Arc::new(Log {
            clock: AtomicU64::new(0),
            events: Mutex::new(vec![]),
            run: AtomicU64::new(0),
            hold,
            set,
        })
    }
    fn take(&self) -> Vec<Event> {
        std::mem::take(&mut self.events.lock().unwrap())
    }
}

struct Slot<const N: u8>(AtomicU64);

macro_rules! slots {
    ($($n:literal)*) => {
        fn slot_insert(set: &mut ResourceSet, k: u8) {
            match k {
                $($n => { set.insert(Slot::<$n>(AtomicU64::new(0))); })*
                _ => unreachable!(),
            }
        }
        /// Borrows all of what a part declares, and then does something.
        fn holding(set: &ResourceSet, want: &[(u8, bool)], f: &mut dyn FnMut()) {
            match want.split_first() {
                None => f(),
                $(Some((($n, false), rest)) => {
                    let r: Read<Slot<$n>> = set.fetch();
                    let before = r.0.load(Ordering::Relaxed);
                    holding(set, rest, f);
                    assert_eq!(r.0.load(Ordering::Relaxed), before, "somebody wrote to what is being read");
                })*
                $(Some((($n, true), rest)) => {
                    let mut w: Write<Slot<$n>> = set.fetch();
                    let before = *w.0.get_mut();
                    holding(set, rest, f);
                    assert_eq!(*w.0.get_mut(), before, "somebody else wrote to what is being written");
                    *w.0.get_mut() += 1;
                })*
                _ => unreachable!(),
            }
        }
    };
}

slots!(0 1 2 3 4 5 6 7 8 9 10 11);

#[derive(Debug, PartialEq, Clone)]
pub struct Errs(Vec<usize>);

impl SystemError for Errs {
    fn combine(mut self, other: Self) -> Self {
        self.0.extend(other.0);
        self
    }
}

pub struct AnyPool {
    spec: PoolSpec,
    id: u64,
    joins: AtomicU64,
}

fn on_path<T>(path: Path, f: impl FnOnce() -> T) -> T {
    struct Back(Path);
    impl Drop for Back {
        fn drop(&mut self) {
            PATH.with(|p| *p.borrow_mut() = std::mem::take(&mut self.0));
        }
    }
    let _back = Back(PATH.with(|p| std::mem::replace(&mut *p.borrow_mut(), path)));
    f()
}

impl Pool for AnyPool {
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        let n = self.joins.fetch_add(1, Ordering::Relaxed);
        let here = PATH.with(|p| p.borrow().clone());
        let with = |side| {
            let mut p = here.clone();
            p.push((n, side));
            p
        };
        let (pa, pb) = (with(false), with(true));
        let a = move || on_path(pa, a);
        let b = move || on_path(pb, b);
        match self.spec {
            PoolSpec::Sequential => SeqPool.join(a, b),
            PoolSpec::Reversed => {
                let rb = b();
                (a(), rb)
            }
            PoolSpec::Mixed(m) => {
                if m.rotate_right(n as u32) & 1 == 0 {
                    let ra = a();
                    (ra, b())
                } else {
                    let rb = b();
                    (a(), rb)
                }
            }
            PoolSpec::Threads(which) => std::thread::scope(|s| match which {
                0 => {
                    let b = s.spawn(b);
                    (a(), b.join().unwrap())
                }
                1 => {
                    let a = s.spawn(a);
                    let rb = b();
                    (a.join().unwrap(), rb)
                }
                _ => {
                    let b = s.spawn(b);
                    let a = s.spawn(a);
                    (a.join().unwrap(), b.join().unwrap())
                }
            }),
            PoolSpec::Rayon(_) => RayonPool.join(a, b),
        }
    }
}

// Building.

pub type Sys = Box<dyn System<Args, Resources = RwResources<u8>, Pool = AnyPool, Error = Errs> + Send>;

struct Leaf {
    n: usize,
    spec: LeafSpec,
    log: Arc<Log>,
}

fn declared(s: &LeafSpec) -> BTreeMap<u8, bool> {
    let mut m: BTreeMap<u8, bool> = s.reads.iter().map(|k| (*k, false)).collect();
    m.extend(s.writes.iter().map(|k| (*k, true)));
    m
}

impl System<Args> for Leaf {
    type Resources = RwResources<u8>;
    type Pool = AnyPool;
    type Error = Errs;

    fn check_resources(&self) -> Result<RwResources<u8>, ResourceConflict> {
        if self.spec.conflict {
            return Err(ResourceConflict::conflict_in::<Self>());
        }
        let (w, r): (Vec<_>, Vec<_>) = declared(&self.spec).into_iter().partition(|(_, w)| *w);
        Ok(RwResources::from_iters(
            r.into_iter().map(|(k, _)| k),
            w.into_iter().map(|(k, _)| k),
        ))
    }

    fn run(&mut self, pool: &AnyPool, args: Args) -> Result<(), Errs> {
        let start = self.log.clock.fetch_add(1, Ordering::SeqCst);
        let mut trouble = None;
        if self.log.hold {
            let want: Vec<(u8, bool)> = declared(&self.spec).into_iter().collect();
            trouble = catching(|| {
                holding(&self.log.set, &want, &mut || {
                    if matches!(pool.spec, PoolSpec::Threads(_) | PoolSpec::Rayon(_)) {
                        for _ in 0..3 {
                            std::thread::yield_now();
                        }
                    }
                })
            })
            .err();
        }
        let path = PATH.with(|p| p.borrow().clone());
        let finish = self.log.clock.fetch_add(1, Ordering::SeqCst);
        self.log.events.lock().unwrap().push(Event {
            leaf: self.n,
            start,
            finish,
            path,
            salt: args.salt,
            pool: pool.id,
            trouble,
        });
        if fails(&self.spec, self.log.run.load(Ordering::Relaxed)) {
            Err(Errs(vec![self.n]))
        } else {
            Ok(())
        }
    }
}

fn fails(s: &LeafSpec, run: u64) -> bool {
    s.fails >> (run % 8) & 1 == 1
}

fn build(t: &Tree, n: &mut usize, log: &Arc<Log>) -> Sys {
    macro_rules! chain {
        ($new:ident, $v:expr) => {{
            let mut v: Vec<Sys> = $v.iter().map(|t| build(t, n, log)).collect::<Vec<_>>();
            let len = v.len();
            let mut d = v.drain(..);
            let mut next = || d.next().unwrap();
            let two = $new::new(next(), next());
            match len {
                2 => Box::new(two) as Sys,
                3 => Box::new(two.with(next())),
                4 => Box::new(two.with(next()).with(next())),
                5 => Box::new(two.with(next()).with(next()).with(next())),
                6 => Box::new(two.with(next()).with(next()).with(next()).with(next())),
                _ => unreachable!(),
            }
        }};
    }
    macro_rules! mac {
        ($mac:ident, $v:expr) => {{
            let mut v: Vec<Sys> = $v.iter().map(|t| build(t, n, log)).collect::<Vec<_>>();
            let len = v.len();
            let mut d = v.drain(..);
            let mut s = || d.next().unwrap();
            match len {
                2 => Box::new($mac![s(), s()]) as Sys,
                3 => Box::new($mac![s(), s(), s(),]),
                4 => Box::new($mac![s(), s(), s(), s()]),
                5 => Box::new($mac![s(), s(), s(), s(), s(),]),
                6 => Box::new($mac![s(), s(), s(), s(), s(), s()]),
                _ => unreachable!(),
            }
        }};
    }
    match t {
        Tree::Leaf(spec) => {
            let leaf = Leaf {
                n: *n,
                spec: spec.clone(),
                log: log.clone(),
            };
            *n += 1;
            Box::new(leaf)
        }
        Tree::Pair(p, a, b) => {
            let a = build(a, n, log);
            let b = build(b, n, log);
            if *p {
                Box::new(Par::new(a, b))
            } else {
                Box::new(Seq::new(a, b))
            }
        }
        Tree::With(true, v) => chain!(Par, v),
        Tree::With(false, v) => chain!(Seq, v),
        Tree::Macro(true, v) => mac!(par, v),
        Tree::Macro(false, v) => mac!(seq, v),
        Tree::List(p, v) => {
            let v: Vec<Sys> = v.iter().map(|t| build(t, n, log)).collect();
            if *p {
                Box::new(ParList(v))
            } else {
                Box::new(SeqList(v))
            }
        }
        Tree::Boxed(t) => Box::new(build(t, n, log)),
    }
}

// The model.

type Access = BTreeMap<u8, bool>;

fn clash(a: &Access, b: &Access) -> bool {
    a.iter().any(|(k, w)| b.get(k).map_or(false, |v| *w || *v))
}

fn join(a: &mut Access, b: &Access) {
    for (k, w) in b {
        *a.entry(*k).or_insert(false) |= w;
    }
}

/// In parallel or not, and the parts.
fn parts(t: &Tree) -> Option<(bool, Vec<&Tree>)> {
    match t {
        Tree::Leaf(_) => None,
        Tree::Pair(p, a, b) => Some((*p, vec![&**a, &**b])),
        Tree::With(p, v) | Tree::Macro(p, v) | Tree::List(p, v) => Some((*p, v.iter().collect())),
        Tree::Boxed(t) => Some((false, vec![&**t])),
    }
}

fn accepted(t: &Tree) -> Option<Access> {
    if let Tree::Leaf(s) = t {
        return (!s.conflict).then(|| declared(s));
    }
    let (par, v) = parts(t).unwrap();
    let mut all = Access::new();
    for t in v {
        let a = accepted(t)?;
        if par && clash(&all, &a) {
            return None;
        }
        join(&mut all, &a);
    }
    Some(all)
}

fn specs<'a>(t: &'a Tree, out: &mut Vec<&'a LeafSpec>) {
    match t {
        Tree::Leaf(s) => out.push(s),
        t => parts(t).unwrap().1.into_iter().for_each(|t| specs(t, out)),
    }
}

fn count(t: &Tree) -> usize {
    let mut v = vec![];
    specs(t, &mut v);
    v.len()
}

/// What should run, and what should come out of it.
fn expected(t: &Tree, n: &mut usize, run: u64, ran: &mut BTreeSet<usize>) -> Result<(), Vec<usize>> {
    if let Tree::Leaf(s) = t {
        let me = *n;
        *n += 1;
        ran.insert(me);
        return if fails(s, run) { Err(vec![me]) } else { Ok(()) };
    }
    let (par, v) = parts(t).unwrap();
    let mut errs = vec![];
    for t in v {
        if !par && !errs.is_empty() {
            *n += count(t);
            continue;
        }
        if let Err(e) = expected(t, n, run, ran) {
            errs.extend(e);
        }
    }
    if errs.is_empty() {
        Ok(())
    } else {
        Err(errs)
    }
}

/// For each pair of leaves in order, whether the innermost thing that has both is parallel.
fn relation(t: &Tree, n: &mut usize, out: &mut BTreeMap<(usize, usize), bool>) -> Vec<usize> {
    if let Tree::Leaf(_) = t {
        *n += 1;
        return vec![*n - 1];
    }
    let (par, v) = parts(t).unwrap();
    let mut all: Vec<usize> = vec![];
    for t in v {
        let ls = relation(t, n, out);
        for a in &all {
            for b in &ls {
                out.insert((*a, *b), par);
            }
        }
        all.extend(ls);
    }
    all
}

/// Whether the pool was free to run both at the same time.
fn concurrent(a: &Path, b: &Path) -> bool {
    a.iter().zip(b).find(|(x, y)| x != y).map_or(false, |(x, y)| x.0 == y.0)
}

fn run_in(pool: &AnyPool, f: impl FnOnce() -> Result<(), Errs> + Send) -> Result<(), Errs> {
    match pool.spec {
        PoolSpec::Rayon(n) => pools()[n as usize % pools().len()].install(|| on_path(vec![], f)),
        _ => on_path(vec![], f),
    }
}

fn check_equals(got: Result<RwResources<u8>, ResourceConflict>, want: &Option<Access>, what: &str) -> R {
    match (got, want) {
        (Err(_), None) => Ok(()),
        (Err(e), Some(_)) => Err(format!("{what}: {e}, expected none")),
        (Ok(_), None) => Err(format!("{what} passed, expected a conflict")),
        (Ok(r), Some(a)) => {
            let mut reads: Vec<u8> = r.reads().copied().collect();
            let mut writes: Vec<u8> = r.writes().copied().collect();
            reads.sort();
            writes.sort();
            let want = |w: bool| a.iter().filter(|(_, v)| **v == w).map(|(k, _)| *k).collect::<Vec<u8>>();
            ensure_eq!(reads, want(false), "{what}: reads");
            ensure_eq!(writes, want(true), "{what}: writes");
            Ok(())
        }
    }
}

fn label_tree(t: &Tree, cx: &mut Cx) {
    fn walk(t: &Tree, depth: usize, cx: &mut Cx) {
        match t {
            Tree::With(..) => cx.label("chained additions"),
            Tree::Macro(..) => cx.label("macros"),
            Tree::List(_, v) if v.is_empty() => cx.label("empty lists"),
            Tree::List(..) => cx.label("lists"),
            Tree::Boxed(_) => cx.label("boxes in boxes"),
            _ => {}
        }
        cx.label_if(depth > 3, "more than 3 levels");
        if let Some((_, v)) = parts(t) {
            v.into_iter().for_each(|t| walk(t, depth + 1, cx));
        }
    }
    walk(t, 0, cx);
    cx.label_if(count(t) > 8, "more than 8 parts");
}

fn label_pool(p: &PoolSpec, cx: &mut Cx) {
    cx.label(match p {
        PoolSpec::Sequential => "sequential pool",
        PoolSpec::Reversed => "reversed pool",
        PoolSpec::Mixed(_) => "pool of mixed order",
        PoolSpec::Threads(_) => "pool of threads",
        PoolSpec::Rayon(_) => "rayon pool",
    });
}

/// Runs it in all the pools.
fn run_all(
    sys: &mut (dyn System<Args, Resources = RwResources<u8>, Pool = AnyPool, Error = Errs> + Send),
    log: &Log,
    pools: &[PoolSpec],
    mut each: impl FnMut(u64, &PoolSpec, Result<(), Errs>, Vec<Event>) -> R,
) -> R {
    for (run, spec) in pools.iter().enumerate() {
        let run = run as u64;
        log.run.store(run, Ordering::Relaxed);
        let pool = AnyPool {
            spec: spec.clone(),
            id: 100 + run,
            joins: AtomicU64::new(0),
        };
        let args = Args { salt: 1000 + run };
        let res = run_in(&pool, || sys.run(&pool, args));
        let events = log.take();
        for e in &events {
            ensure_eq!(e.salt, args.salt, "arguments given to part {} in {spec:?}", e.leaf);
            ensure_eq!(e.pool, pool.id, "pool given to part {} in {spec:?}", e.leaf);
        }
        each(run, spec, res, events)?;
    }
    Ok(())
}

fn accept_check(c: &Case, cx: &mut Cx) -> R {
    let mut ls = vec![];
    specs(&c.tree, &mut ls);
    let held = ls.iter().all(|l| l.reads.iter().chain(&l.writes).all(|k| *k < KEYS));
    cx.label_if(held, "parts hold what they declare");
    cx.label_if(ls.len() > 100, "more than 100 parts");
    let log = Log::new(held);
    let mut sys = build(&c.tree, &mut 0, &log);
    let want = accepted(&c.tree);
    check_equals(sys.check_resources(), &want, "the check")?;
    check_equals(sys.check_resources(), &want, "the check done again")?;
    let mut pairs = 0;
    if want.is_some() {
        run_all(&mut *sys, &log, &c.pools, |_, spec, _, events| {
            for e in &events {
                if let Some(t) = &e.trouble {
                    return Err(format!(
                        "part {} cannot hold what it declares in an accepted composition, in {spec:?}: {t}",
                        e.leaf
                    ));
                }
            }
            for a in &events {
                for b in &events {
                    if a.leaf < b.leaf && concurrent(&a.path, &b.path) {
                        pairs += 1;
                        ensure!(
                            !clash(&declared(ls[a.leaf]), &declared(ls[b.leaf])),
                            "parts {} and {} conflict, and can run at the same time in an accepted composition",
                            a.leaf,
                            b.leaf
                        );
                    }
                }
            }
            Ok(())
        })?;
        check_equals(sys.check_resources(), &want, "the check after running")?;
        c.pools.iter().for_each(|p| label_pool(p, cx));
    }
    label_tree(&c.tree, cx);
    cx.label_if(want.is_some(), "accepted");
    cx.label_if(want.is_none() && ls.iter().all(|l| !l.conflict), "refused, for a conflict between parts");
    cx.label_if(ls.iter().any(|l| l.conflict), "a part with an internal conflict");
    let mut rel = BTreeMap::new();
    relation(&c.tree, &mut 0, &mut rel);
    let clashes = |par| {
        rel.iter()
            .any(|((a, b), p)| *p == par && clash(&declared(ls[*a]), &declared(ls[*b])))
    };
    cx.nontrivial_if(
        want.is_some() && pairs > 0 && clashes(false) || want.is_none() && ls.iter().all(|l| !l.conflict),
    );
    Ok(())
}

fn run_check(c: &Case, cx: &mut Cx) -> R {
    let log = Log::new(false);
    let mut sys = build(&c.tree, &mut 0, &log);
    let mut rel = BTreeMap::new();
    relation(&c.tree, &mut 0, &mut rel);
    let (mut skipped, mut combined, mut failed) = (false, false, 0);
    let all = count(&c.tree);
    run_all(&mut *sys, &log, &c.pools, |run, spec, res, events| {
        let mut ran = BTreeSet::new();
        let want = expected(&c.tree, &mut 0, run, &mut ran);
        let mut times: BTreeMap<usize, usize> = BTreeMap::new();
        for e in &events {
            *times.entry(e.leaf).or_insert(0) += 1;
        }
        let once: BTreeMap<usize, usize> = ran.iter().map(|l| (*l, 1)).collect();
        ensure_eq!(times, once, "how often parts ran in {spec:?}, run {run}");
        ensure_eq!(res.map_err(|e| e.0), want, "result in {spec:?}, run {run}");
        for a in &events {
            for b in &events {
                if rel.get(&(a.leaf, b.leaf)) == Some(&false) {
                    ensure!(
                        a.finish < b.start && !concurrent(&a.path, &b.path),
                        "part {} comes after part {} in a sequence, but {}, in {spec:?}, run {run}",
                        b.leaf,
                        a.leaf,
                        if a.finish < b.start {
                            "can run at the same time"
                        } else {
                            "started before that had finished"
                        }
                    );
                }
            }
        }
        skipped |= ran.len() < all;
        combined |= want.as_ref().err().map_or(false, |e| e.len() > 1);
        failed += want.is_err() as usize;
        Ok(())
    })?;
    label_tree(&c.tree, cx);
    c.pools.iter().for_each(|p| label_pool(p, cx));
    cx.label_if(failed == 0, "nothing fails");
    cx.label_if(all > 100, "more than 100 parts");
    cx.label_if(skipped, "parts skipped");
    cx.label_if(combined, "errors combined");
    cx.nontrivial_if(all > 2 && (skipped || combined));
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ListCase {
    list: Vec<Tree>,
    pools: Vec<PoolSpec>,
    /// How the list is given.
    given: u8,
}

fn list_case() -> impl Strategy<Value = ListCase> {
    let system = (1..=KEYS).prop_flat_map(|k| {
        prop_oneof![
            12 => leaf_spec(k, 0.4, 0.03, 0.0).prop_map(Tree::Leaf),
            1 => tree(30, k, 0.1, 0.01, 0.0),
        ]
    });
    (
        prop_oneof![
            3 => prop::collection::vec(system.clone(), 0..9),
            1 => prop::collection::vec(system, 0..30),
            3 => (1..=KEYS).prop_flat_map(|k| prop::collection::vec(leaf_spec(k, 0.4, 0.03, 0.0).prop_map(Tree::Leaf), 0..12)),
        ],
        prop::collection::vec(pool(1), 1..3),
        any::<u8>(),
    )
        .prop_map(|(list, pools, given)| ListCase { list, pools, given })
}

/// Hundreds of systems that hardly conflict.
fn long_list_case() -> impl Strategy<Value = ListCase> {
    (prop::sample::select(vec![1u8, 3, 12, 250]), prop::sample::select(vec![0.002, 0.02, 0.1])).prop_flat_map(|(k, w)| {
        let system = prop_oneof![
            60 => leaf_spec(k, w, 0.001, 0.0).prop_map(Tree::Leaf),
            1 => tree(12, k, w, 0.001, 0.0),
        ];
        let some = |n: std::ops::Range<usize>| prop::collection::vec(system.clone(), n);
        (
            prop_oneof![some(0..30), some(30..80), some(80..200), some(200..400)],
            prop::collection::vec(leaf_spec(k, 0.5, 0.001, 0.0).prop_map(Tree::Leaf), 0..3),
            prop::collection::vec(pool(1), 1..2),
            any::<u8>(),
        )
            .prop_map(|(mut list, last, pools, given)| {
                list.extend(last);
                ListCase { list, pools, given }
            })
    })
}

/// A system that knows its place in the list.
struct Placed(usize, Sys);

impl System<Args> for Placed {
    type Resources = RwResources<u8>;
    type Pool = AnyPool;
    type Error = Errs;
    fn check_resources(&self) -> Result<RwResources<u8>, ResourceConflict> {
        self.1.check_resources()
    }
    fn run(&mut self, pool: &AnyPool, args: Args) -> Result<(), Errs> {
        self.1.run(pool, args)
    }
}

fn list_check(c: &ListCase, cx: &mut Cx) -> R {
    let log = Log::new(false);
    let mut n = 0;
    // Which system a part belongs to.
    let mut owner = vec![];
    let systems: Vec<Placed> = c
        .list
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let s = build(t, &mut n, &log);
            owner.resize(n, i);
            Placed(i, s)
        })
        .collect();
    let access: Vec<Option<Access>> = c.list.iter().map(accepted).collect();
    // Eager groups.
    let mut groups: Vec<Vec<usize>> = vec![];
    let mut open: Option<Access> = None;
    for (i, a) in access.iter().enumerate() {
        match a {
            None => {
                groups.push(vec![i]);
                open = None;
            }
            Some(a) => match &mut open {
                Some(o) if !clash(o, a) => {
                    groups.last_mut().unwrap().push(i);
                    join(o, a);
                }
                _ => {
                    groups.push(vec![i]);
                    open = Some(a.clone());
                }
            },
        }
    }
    let mut sys = match c.given % 3 {
        0 => parallelize::<Args, Placed>(systems),
        1 => {
            let mut d = systems.into_iter();
            parallelize::<Args, Placed>(std::iter::from_fn(move || d.next()))
        }
        _ => {
            let mut v = systems;
            let back = v.split_off(v.len() / 2);
            parallelize::<Args, Placed>(v.into_iter().chain(back))
        }
    };
    let got: Vec<Vec<usize>> = sys.0.iter().map(|p| p.0.iter().map(|s| s.0).collect()).collect();
    let mut want = Some(Access::new());
    for a in &access {
        match (&mut want, a) {
            (Some(w), Some(a)) => join(w, a),
            _ => want = None,
        }
    }
    ensure_eq!(got, groups, "the groups");
    check_equals(sys.check_resources(), &want, "the check of the result")?;
    let mut concurrently = 0;
    run_all(&mut sys, &log, &c.pools, |run, spec, res, events| {
        ensure_eq!(res, Ok(()), "result in {spec:?}, run {run}");
        let mut times = vec![0; owner.len()];
        for e in &events {
            times[e.leaf] += 1;
        }
        ensure_eq!(times, vec![1; owner.len()], "how often parts ran in {spec:?}, run {run}");
        for a in &events {
            for b in &events {
                let (x, y) = (owner[a.leaf], owner[b.leaf]);
                if x >= y {
                    continue;
                }
                concurrently += concurrent(&a.path, &b.path) as usize;
                let clashing = match (&access[x], &access[y]) {
                    (Some(a), Some(b)) => clash(a, b),
                    _ => true,
                };
                ensure!(
                    !clashing || a.finish < b.start && !concurrent(&a.path, &b.path),
                    "systems {x} and {y} conflict, but do not run one after the other, in {spec:?}, run {run}"
                );
            }
        }
        Ok(())
    })?;
    c.pools.iter().for_each(|p| label_pool(p, cx));
    cx.label_if(want.is_none(), "an internal conflict");
    cx.label_if(c.list.is_empty(), "empty list");
    cx.label_if(groups.iter().any(|g| g.len() > 100), "a group of more than 100");
    cx.label_if(groups.len() > 1, "more than one group");
    cx.nontrivial_if(groups.len() > 1 && concurrently > 0);
    Ok(())
}

pub fn y01() -> Prop {
    Prop::new(
        "Y01",
        vec![Leg::new(
            "compositions",
            "a generated composition of parts that read and write up to 12 resources, its check compared with a pairwise model, and if accepted run in 1 to 4 pools with every part holding what it declares; non-trivial: accepted with parts in parallel and a conflict between parts in sequence, or refused for a conflict between parts",
            (300_000, 8_000_000),
            || case(4..KEYS + 1, 0.008, 0.0),
            accept_check,
        )
        .workers(6),
        Leg::new(
            "hundreds",
            "the same with lists of up to 400 parts that read and hardly write up to 250 resources",
            (8_000, 200_000),
            || hundreds(0.0005, 0.0),
            accept_check,
        )
        .workers(6)],
    )
}

pub fn y02() -> Prop {
    Prop::new(
        "Y02",
        vec![Leg::new(
            "compositions",
            "a generated composition of failing and succeeding parts, run in 1 to 4 pools (in order, reversed, mixed, threads, rayon), which parts ran when and the result compared with a model; non-trivial: parts are skipped or errors combined",
            (150_000, 4_000_000),
            || case(1..2, 0.05, 0.3),
            run_check,
        )
        .workers(6),
        Leg::new(
            "hundreds",
            "the same with lists of up to 400 parts",
            (8_000, 200_000),
            || hundreds(0.0, 0.02),
            run_check,
        )
        .workers(6)],
    )
}

pub fn y03() -> Prop {
    Prop::new(
        "Y03",
        vec![Leg::new(
            "lists",
            "a generated list of 0 to 30 systems, parallelized; the groups compared with the eager grouping of a model, the check with the union, and the order of parts in 1 or 2 pools with the conflicts between systems; non-trivial: more than one group, and systems in parallel",
            (300_000, 8_000_000),
            list_case,
            list_check,
        )
        .workers(6),
        Leg::new(
            "hundreds",
            "the same with lists of up to 400 systems that hardly conflict",
            (8_000, 200_000),
            long_list_case,
            list_check,
        )
        .workers(6)],
    )
}
