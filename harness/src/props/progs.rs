//! Generated client programs: whatever safe code the compiler accepts must run under Miri.
//!
//! A case is a sequence of choices; the source they stand for depends on what was declared so far.
//! Most are rejected by the borrow checker, and are to be. What is accepted is run.

use std::{
    collections::BTreeMap,
    fmt::Write,
    fs,
    path::{Path, PathBuf},
    process::{Command, Stdio},
};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::{Cx, Leg, R};

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub struct Step {
    /// Which variable, counted from the last declared; what is done to it; an argument.
    var: u8,
    op: u8,
    arg: u8,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Prog {
    owners: Vec<u8>,
    steps: Vec<Step>,
    /// What is used at the end, counted from the first declared.
    uses: Vec<(u8, u8)>,
}

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Store(u8),
    StoreRef(u8),
    StoreMut(u8),
    Ref,
    Mut,
    Guard(u8),
    Iter(Box<Kind>),
    Opt(Box<Kind>),
    Pair(Box<Kind>, Box<Kind>),
    Slice,
    SliceMut,
    Bits,
    World,
    Read(u8),
    Write(u8),
    Ents,
    ResRead,
    ResWrite,
    Set,
    Any,
    AnyClone,
    Plain,
}
use Kind::*;

const STORES: [&str; 6] = [
    "VecStorage",
    "DenseVecStorage",
    "HashMapStorage",
    "FVec",
    "FDense",
    "FMap",
];

fn tracked(t: u8) -> bool {
    t >= 3
}
fn dense(t: u8) -> bool {
    t == 1
}

fn iter(k: Kind) -> Kind {
    Iter(Box::new(k))
}
fn opt(k: Kind) -> Kind {
    Opt(Box::new(k))
}
fn pair(a: Kind, b: Kind) -> Kind {
    Pair(Box::new(a), Box::new(b))
}

/// A statement that uses `v`, which is of kind `k`.
fn used(k: &Kind, v: &str, how: u8) -> String {
    match k {
        Ref | ResRead => format!("{v}.look();"),
        Mut | ResWrite => match how % 3 {
            0 => format!("{v}.look();"),
            _ => format!("{v}.poke();"),
        },
        Guard(t) => match how % 5 {
            0 | 1 => format!("{v}.get().look();"),
            2 if tracked(*t) => format!("{v}.mark_modified();"),
            _ => format!("{v}.get_mut().poke();"),
        },
        Iter(k) => format!("if let Some(mut x) = {v}.next() {{ {} }}", used(k, "x", how)),
        Opt(k) => format!("if let Some(y) = {v} {{ let mut y = y; {} }}", used(k, "y", how)),
        Pair(a, b) => format!(
            "{{ let (mut l, mut r) = {v}; {} {} }}",
            used(a, "l", how),
            used(b, "r", how / 2)
        ),
        Slice => format!("{v}.iter().for_each(|x| x.look());"),
        SliceMut => format!("{v}.iter_mut().for_each(|x| x.poke());"),
        Bits => format!("{v}.contains(1);"),
        Store(_) | StoreMut(_) | Write(_) if how % 2 == 0 => {
            let v = if let StoreMut(_) = k { format!("*{v}") } else { v.into() };
            format!("(&mut {v}).join().for_each(|x| x.poke());")
        }
        Store(_) | Read(_) | Write(_) => format!("(&{v}).join().for_each(|x| x.look());"),
        StoreRef(_) | StoreMut(_) => format!("(&*{v}).join().for_each(|x| x.look());"),
        World => format!("{v}.create_entity();"),
        Ents => format!("{v}.create();"),
        Set => format!("{v}.get_mut::<P>().poke();"),
        Any | AnyClone => format!("if let Some(x) = {v}.get_mut::<C<0>>() {{ x.poke(); }}"),
        Plain => String::new(),
    }
}

/// Every way on from a variable: an expression and its kind, or a statement.
fn ways(k: &Kind, v: &str, arg: u8, vars: &[(String, Kind)]) -> Vec<(String, Option<Kind>)> {
    let i = arg % 5;
    let e = format!("E[{}]", arg % 4);
    let mut w: Vec<(String, Option<Kind>)> = vec![];
    macro_rules! w {
        ($k:expr, $($f:tt)*) => { w.push((format!($($f)*), Some($k))) };
    }
    macro_rules! s {
        ($($f:tt)*) => { w.push((format!($($f)*), None)) };
    }
    let bit = |b: u8| arg & b != 0;
    // What a join or thread can have beside this.
    let other = vars.get(arg as usize % vars.len().max(1)).filter(|o| o.0 != v);
    let joinable = other.and_then(|(o, k)| match k {
        Store(_) | Write(_) if bit(64) => Some((format!("&mut {o}"), Mut)),
        Store(_) | Read(_) | Write(_) => Some((format!("&{o}"), Ref)),
        StoreMut(_) if bit(64) => Some((format!("&mut *{o}"), Mut)),
        StoreRef(_) | StoreMut(_) => Some((format!("&*{o}"), Ref)),
        Ents => Some((format!("&{o}"), Plain)),
        _ => None,
    });
    match k {
        Store(t) | StoreRef(t) | StoreMut(t) | Read(t) | Write(t) => {
            let access = matches!(k, Read(_) | Write(_));
            let i = if access { e.clone() } else { i.to_string() };
            let new = if access { format!("C::<{t}>::new") } else { "P::new".into() };
            let by = if matches!(k, StoreRef(_) | StoreMut(_)) { "*" } else { "" };
            w!(Ref, "some!({v}.get({i}))");
            w!(iter(Ref), "(&{by}{v}).join()");
            w!(iter(pair(Ref, Plain)), "(&{by}{v}, {v}.mask()).join()");
            w!(Bits, "{v}.mask()");
            s!("(&{by}{v}).par_join().for_each(|x| x.look());");
            if let Some((o, ok)) = &joinable {
                w!(iter(pair(Ref, ok.clone())), "(&{by}{v}, {o}).join()");
                w!(iter(pair(Ref, opt(ok.clone()))), "(&{by}{v}, ({o}).maybe()).join()");
            }
            if tracked(*t) {
                w!(iter(opt(Ref)), "{v}.modified().join()");
                w!(Bits, "{v}.modified_indexes()");
                s!("let _ = {v}.mark_modified({i});");
            }
            if dense(*t) {
                w!(Slice, "{v}.as_slice()");
            }
            if access {
                w!(StoreRef(*t), "{v}.storage()");
            }
            if !matches!(k, StoreRef(_) | Read(_)) {
                w!(Mut, "some!({v}.get_mut({i}))");
                w!(Mut, "some!({v}.get_mut({i}))");
                w!(Guard(*t), "some!({v}.get_guard({i}))");
                w!(Guard(*t), "some!({v}.get_guard({i}))");
                if access {
                    w!(Mut, "ok!({v}.get_or_insert_with({i}, {new}))");
                    w!(Mut, "ok!({v}.get_or_default({i}))");
                    s!("let _ = {v}.insert({i}, {new}());");
                    w!(StoreMut(*t), "{v}.storage_mut()");
                } else {
                    let new = if matches!(k, Store(_)) { "P::new" } else { "Make::make" };
                    w!(Mut, "{v}.get_or_insert_with({i}, {new})");
                    s!("{v}.insert({i}, {new}());");
                }
                w!(iter(Mut), "(&mut {by}{v}).join()");
                w!(iter(Mut), "(&mut {by}{v}).join()");
                w!(iter(Guard(*t)), "{v}.guard().join()");
                w!(iter(Guard(*t)), "{v}.guard().join()");
                w!(iter(opt(Mut)), "(&mut {by}{v}).maybe().join_unconstrained()");
                s!("let _ = {v}.remove({i});");
                s!("(&mut {by}{v}).par_join().for_each(|x| x.poke());");
                if let Some((o, ok)) = &joinable {
                    w!(iter(pair(Mut, ok.clone())), "(&mut {by}{v}, {o}).join()");
                    w!(iter(pair(Guard(*t), ok.clone())), "({v}.guard(), {o}).join()");
                }
                if tracked(*t) {
                    w!(iter(opt(Mut)), "{v}.modified_mut().join()");
                    s!("{v}.set_track_modified({});", bit(1));
                    s!("{v}.clear_modified();");
                }
                if dense(*t) {
                    w!(SliceMut, "{v}.as_mut_slice()");
                }
            }
            match k {
                Store(t) => s!("{v} = st::<{}<P>>();", STORES[*t as usize]),
                StoreMut(_) => {
                    if let Some((o, Store(_) | StoreMut(_))) = other {
                        s!("std::mem::swap(&mut *{v}, &mut *{o});");
                    }
                    s!("std::mem::take(&mut *{v});")
                }
                _ => {}
            }
        }
        Guard(_) => {
            for _ in 0..2 {
                w!(Ref, "{v}.get()");
                w!(Mut, "{v}.get_mut()");
            }
        }
        Iter(k) => {
            for _ in 0..3 {
                w!((**k).clone(), "some!({v}.next())");
            }
            w!((**k).clone(), "some!({v}.nth(1))");
            w!(pair((**k).clone(), (**k).clone()), "(some!({v}.next()), some!({v}.next()))");
        }
        Opt(k) => w!((**k).clone(), "some!({v})"),
        Pair(..) => {}
        Slice => w!(Ref, "some!({v}.get({i}))"),
        SliceMut => w!(Mut, "some!({v}.get_mut({i}))"),
        World => {
            let t = arg % 6;
            w!(Read(t), "{v}.read_component::<C<{t}>>()");
            w!(Write(t), "{v}.write_component::<C<{t}>>()");
            w!(Write(t), "{v}.write_component::<C<{t}>>()");
            w!(Write(t), "{v}.get_component_mut::<C<{t}>>()");
            w!(Ents, "{v}.entities()");
            w!(ResRead, "{v}.read_resource::<P>()");
            w!(ResWrite, "{v}.write_resource::<P>()");
            w!(Mut, "{v}.get_resource_mut::<P>()");
            let u = (t + 1 + arg / 50) % 6;
            w!(
                pair(Read(t), Write(u)),
                "{v}.fetch::<(ReadComponent<C<{t}>>, WriteComponent<C<{u}>>)>()"
            );
            w!(pair(ResRead, Ents), "{v}.fetch::<(ReadResource<P>, Entities)>()");
            s!("let _ = {v}.delete_entity({e});");
            s!("let _ = {v}.create_entity();");
            s!("{v}.merge();");
            s!("let _ = {v}.insert_component::<C<{t}>>();");
            s!("let _ = {v}.remove_component::<C<{t}>>();");
            s!("let _ = {v}.insert_resource(P::new());");
            s!("let _ = {v}.remove_resource::<P>();");
            s!("{v} = world();");
        }
        Ents => {
            w!(iter(Plain), "(&{v}).join()");
            w!(Bits, "{v}.live_bitset()");
            s!("let _ = {v}.delete({e});");
            s!("let _ = {v}.create();");
        }
        Set => {
            w!(ResRead, "{v}.borrow::<P>()");
            w!(ResWrite, "{v}.borrow_mut::<P>()");
            w!(ResRead, "{v}.fetch::<Read<P>>()");
            w!(ResWrite, "{v}.fetch::<Write<P>>()");
            w!(pair(ResRead, ResWrite), "{v}.fetch::<(Read<P>, Write<C<0>>)>()");
            w!(Mut, "{v}.get_mut::<P>()");
            s!("let _ = {v}.insert(P::new());");
            s!("let _ = {v}.remove::<P>();");
            s!("{v} = set();");
        }
        Any | AnyClone => {
            w!(Ref, "some!({v}.get::<C<0>>())");
            w!(Ref, "some!({v}.get::<C<3>>())");
            w!(Mut, "some!({v}.get_mut::<C<0>>())");
            w!(Mut, "some!({v}.get_mut::<C<3>>())");
            s!("let _ = {v}.insert(C::<0>::new());");
            s!("{v}.contains::<C<0>>();");
            if matches!(k, Any) {
                s!("let _ = {v}.remove::<C<0>>();");
                s!("{v}.merge(anys());");
                w!(World, "{{ let mut w = world(); let _ = {v}.insert_into_world(&mut w, {e}); w }}");
            } else {
                s!("{v}.merge(clones());");
                w!(World, "{{ let mut w = world(); let _ = {v}.insert_into_world(&mut w, {e}); w }}");
                w!(Any, "{{ let mut s = anys(); {v}.clone_into_set(&mut s); s }}");
            }
            match other {
                Some((o, World)) => s!("let _ = {v}.insert_into_world(&mut {o}, {e});"),
                Some((o, Any)) if matches!(k, AnyClone) => s!("{v}.clone_into_set(&mut {o});"),
                Some((o, ok)) if ok == k => s!("{v}.merge({o});"),
                _ => {}
            }
        }
        ResRead => w!(Ref, "{v}.deref()"),
        ResWrite => {
            w!(Ref, "{v}.deref()");
            w!(Mut, "{v}.deref_mut()");
            s!("*{v} = Make::make();");
        }
        Mut => {
            w!(Ref, "&*{v}");
            s!("*{v} = Make::make();");
            if let Some((o, Mut)) = other {
                s!("std::mem::swap(&mut *{v}, &mut *{o});");
            }
        }
        Ref | Bits | Plain => {}
    }
    if let (Some((o, ok)), true) = (other, !matches!(k, Plain | Bits | Set | Any | AnyClone)) {
        let a = used(k, "a", arg);
        let b = used(ok, o, arg / 2);
        s!("std::thread::scope(|s| {{ let mut a = &mut {v}; s.spawn(move || {{ {a} }}); {b} }});");
        s!("std::thread::scope(|s| {{ s.spawn(|| {{ let mut a = {v}; {a} }}); {b} }});");
    }
    if !matches!(k, Ref | Bits | Plain) {
        s!("drop({v});");
        w!(k.clone(), "Clone::clone(&{v})");
    }
    w
}

/// Any two ways on from one variable, with what comes of both used afterwards, the first of them last.
pub fn pairs() -> Vec<Prog> {
    let mut all = vec![];
    for (owner, arg) in (0u8..=6).map(|o| (o, 0)).chain([(6, 33), (9, 0), (10, 0), (11, 0)]) {
        let owners = vec![owner];
        // What the variable is made by, if it is not the owner.
        let mut prefixes = vec![None];
        let root = vars_of(&Prog { owners: owners.clone(), steps: vec![], uses: vec![] });
        let step = |at: usize, vars: usize, op: usize| Step {
            var: (90..=255).find(|v| *v as usize % vars == at).unwrap(),
            op: op as u8 + 50,
            arg,
        };
        for (n, (_, k)) in distinct(ways(&root[0].1, "v0", arg, &root)) {
            if matches!(k, Some(ref k) if !matches!(k, Plain | Bits | Ref)) {
                prefixes.push(Some(step(0, 1, n)));
            }
        }
        for prefix in prefixes {
            let start = Prog { owners: owners.clone(), steps: prefix.into_iter().collect(), uses: vec![] };
            let vars = vars_of(&start);
            let from = if prefix.is_some() { 1 } else { 0 };
            for (at, (v, k)) in vars.iter().enumerate().skip(from) {
                for (n1, (_, made)) in distinct(ways(k, v, arg, &vars)) {
                    if made.is_none() {
                        continue;
                    }
                    let mut p = start.clone();
                    p.steps.push(step(at, vars.len(), n1));
                    let after = vars_of(&p);
                    for (n2, _) in distinct(ways(k, v, arg, &after)) {
                        let mut p = p.clone();
                        p.steps.push(step(at, after.len(), n2));
                        let made = vars_of(&p).len() - 1;
                        p.uses = (0..made as u8).rev().map(|u| (u, 4)).collect();
                        all.push(p);
                    }
                }
            }
        }
    }
    all
}

fn distinct(ws: Vec<(String, Option<Kind>)>) -> Vec<(usize, (String, Option<Kind>))> {
    let mut seen = std::collections::HashSet::new();
    ws.into_iter().enumerate().filter(|(_, w)| seen.insert(w.0.clone())).collect()
}

fn vars_of(p: &Prog) -> Vec<(String, Kind)> {
    emit(p).1
}

/// The source, and how many of its variables were made from others.
fn source(p: &Prog) -> (String, usize) {
    let (out, vars) = emit(p);
    // Only the components it uses: the others take Miri long.
    let any = out.contains("anys()") || out.contains("clones()");
    let used = |t: &usize| out.contains(&format!("C<{t}>")) || any && (*t == 0 || *t == 3);
    let with: Vec<usize> = (0..6).filter(used).collect();
    let out = out.replace("world()", &format!("world(&{with:?})"));
    (out, vars.len() - p.owners.len())
}

fn emit(p: &Prog) -> (String, Vec<(String, Kind)>) {
    let mut out = String::new();
    let mut vars: Vec<(String, Kind)> = vec![];
    for o in &p.owners {
        let v = format!("v{}", vars.len());
        let (e, k) = match o % 12 {
            t @ 0..=5 => (format!("st::<{}<P>>()", STORES[t as usize]), Store(t)),
            6..=8 => ("world()".to_string(), World),
            9 => ("set()".to_string(), Set),
            10 => ("anys()".to_string(), Any),
            _ => ("clones()".to_string(), AnyClone),
        };
        writeln!(out, "    let mut {v} = {e};").unwrap();
        vars.push((v, k));
    }
    let owners = vars.len();
    for s in &p.steps {
        let at = if s.var < 90 {
            vars.len() - 1
        } else {
            s.var as usize % vars.len()
        };
        let (v, k) = vars[at].clone();
        if s.op < 50 {
            writeln!(out, "    {}", used(&k, &v, s.arg)).unwrap();
            continue;
        }
        let ws = ways(&k, &v, s.arg, &vars);
        if ws.is_empty() {
            continue;
        }
        let (e, made) = ws[(s.op - 50) as usize % ws.len()].clone();
        match made {
            Some(Pair(a, b)) => {
                let n = vars.len();
                let (x, y) = (format!("v{n}"), format!("v{}", n + 1));
                writeln!(out, "    let (mut {x}, mut {y}) = {e};").unwrap();
                vars.push((x, *a));
                vars.push((y, *b));
            }
            Some(k) => {
                let n = format!("v{}", vars.len());
                writeln!(out, "    let mut {n} = {e};").unwrap();
                vars.push((n, k));
            }
            None => writeln!(out, "    {e}").unwrap(),
        }
    }
    for (u, how) in &p.uses {
        // The owners last, or they would mostly be in the way.
        let made = vars.len() - owners;
        if made > 0 {
            let (v, k) = &vars[owners + *u as usize % made];
            writeln!(out, "    {}", used(k, v, *how)).unwrap();
        }
    }
    (out, vars)
}

fn prog() -> impl Strategy<Value = Prog> {
    let step = (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(var, op, arg)| Step { var, op, arg });
    let owner = prop_oneof![3 => 0u8..6, 2 => 6u8..12];
    (
        prop_oneof![
            5 => owner.clone().prop_map(|o| vec![o]),
            2 => prop::collection::vec(owner, 2..3)
        ],
        prop_oneof![3 => prop::collection::vec(step.clone(), 1..8), 1 => prop::collection::vec(step, 8..14)],
        prop::collection::vec(any::<(u8, u8)>(), 1..5),
    )
        .prop_map(|(owners, steps, uses)| Prog { owners, steps, uses })
}

const PRELUDE: &str = r#"#![allow(warnings)]
use std::{ops::{Deref, DerefMut}, panic::{catch_unwind, AssertUnwindSafe}};
use goggles::{hibitset::{BitSet, BitSetLike}, masked::*, rayon::iter::ParallelIterator, world::*, *};

#[derive(Clone)]
pub struct P(Box<u32>);
impl P { fn new() -> P { P(Box::new(7)) } }
#[derive(Clone)]
pub struct C<const T: usize>(P);
impl<const T: usize> C<T> { fn new() -> C<T> { C(P::new()) } }
impl<const T: usize> Default for C<T> { fn default() -> C<T> { C(P::new()) } }
pub trait Make { fn make() -> Self; }
impl Make for P { fn make() -> P { P::new() } }
impl<const T: usize> Make for C<T> { fn make() -> C<T> { C::new() } }
pub trait Look { fn look(&self); fn poke(&mut self); }
impl Look for P {
    fn look(&self) { assert!(*self.0 > 0) }
    fn poke(&mut self) { *self.0 += 1 }
}
impl<const T: usize> Look for C<T> {
    fn look(&self) { self.0.look() }
    fn poke(&mut self) { self.0.poke() }
}
type FVec<T> = Flagged<VecStorage<T>>;
type FDense<T> = Flagged<DenseVecStorage<T>>;
type FMap<T> = Flagged<HashMapStorage<T>>;
impl Component for C<0> { type Storage = VecStorage<Self>; }
impl Component for C<1> { type Storage = DenseVecStorage<Self>; }
impl Component for C<2> { type Storage = HashMapStorage<Self>; }
impl Component for C<3> { type Storage = FVec<Self>; }
impl Component for C<4> { type Storage = FDense<Self>; }
impl Component for C<5> { type Storage = FMap<Self>; }
#[derive(Clone)]
pub struct K<const S: usize, T>(T);
impl<T> Component for K<0, T> { type Storage = VecStorage<Self>; }
impl<T> Component for K<1, T> { type Storage = DenseVecStorage<Self>; }
impl<T> Component for K<2, T> { type Storage = HashMapStorage<Self>; }
impl<T> Component for K<3, T> { type Storage = FVec<Self>; }
impl<T> Component for K<4, T> { type Storage = FDense<Self>; }
impl<T> Component for K<5, T> { type Storage = FMap<Self>; }
#[derive(Clone)]
pub struct OnlySync(std::marker::PhantomData<std::sync::MutexGuard<'static, u32>>);
pub struct S<T>(T);
pub struct P2;
impl<'a, T, A> System<&'a A> for S<T> {
    type Resources = RwResources<u32>;
    type Pool = RayonPool;
    type Error = std::convert::Infallible;
    fn check_resources(&self) -> Result<RwResources<u32>, ResourceConflict> { Ok(Default::default()) }
    fn run(&mut self, _: &RayonPool, _: &'a A) -> Result<(), std::convert::Infallible> { Ok(()) }
}
macro_rules! some { ($e:expr) => { match $e { Some(x) => x, None => return } } }
macro_rules! ok { ($e:expr) => { match $e { Ok(x) => x, Err(_) => return } } }

fn st<S: RawStorage<Item = P> + Default>() -> MaskedStorage<S> {
    let mut s = MaskedStorage::<S>::default();
    for i in 0..4 { s.insert(i, P::new()); }
    s
}
thread_local! { static ENTITIES: std::cell::RefCell<Vec<Entity>> = Default::default(); }
struct Es;
static E: Es = Es;
impl std::ops::Index<usize> for Es {
    type Output = Entity;
    fn index(&self, i: usize) -> &Entity { Box::leak(Box::new(ENTITIES.with(|e| e.borrow()[i]))) }
}
fn fill<C: Component + Default>(w: &mut World, es: &[Entity])
where C: 'static + Send, C::Storage: Default + Send {
    w.insert_component::<C>();
    let mut c = w.get_component_mut::<C>();
    for e in es { c.insert(*e, C::default()).unwrap(); }
}
fn world(with: &[usize]) -> World {
    let mut w = World::new();
    let es: Vec<Entity> = (0..4).map(|_| w.create_entity()).collect();
    w.insert_resource(P::new());
    for c in with {
        match c {
            0 => fill::<C<0>>(&mut w, &es),
            1 => fill::<C<1>>(&mut w, &es),
            2 => fill::<C<2>>(&mut w, &es),
            3 => fill::<C<3>>(&mut w, &es),
            4 => fill::<C<4>>(&mut w, &es),
            _ => fill::<C<5>>(&mut w, &es),
        }
    }
    ENTITIES.with(|e| *e.borrow_mut() = es);
    w
}
fn anys() -> AnyComponentSet {
    let mut s = AnyComponentSet::new();
    s.insert(C::<0>::new());
    s.insert(C::<3>::new());
    s
}
fn clones() -> AnyCloneComponentSet {
    let mut s = AnyCloneComponentSet::new();
    s.insert(C::<0>::new());
    s.insert(C::<3>::new());
    s
}
fn set() -> ResourceSet {
    let mut s = ResourceSet::new();
    s.insert(P::new());
    s.insert(C::<0>::new());
    s
}
"#;

const MAIN: &str = r#"
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let i = i.to_string();
        if i.contains("unsafe precondition") {
            // The standard library's own check, the process ends here.
            eprintln!("Undefined Behavior: {}", i.replace('\n', " "));
        }
    }));
    let a: Vec<usize> = std::env::args().skip(1).map(|a| a.parse().unwrap()).collect();
    for (n, (id, f)) in ALL.iter().enumerate() {
        if n % a[1] != a[0] { continue }
        eprintln!("PROG {id}");
        let _ = catch_unwind(AssertUnwindSafe(*f));
    }
    eprintln!("PROGS DONE");
}
"#;

fn crate_text(progs: &BTreeMap<usize, String>) -> (String, Vec<(usize, usize)>) {
    let mut text = PRELUDE.to_string();
    // The first line of each.
    let mut lines = vec![];
    for (id, src) in progs {
        lines.push((text.lines().count() + 1, *id));
        writeln!(text, "fn p{id}() {{\n{src}}}").unwrap();
    }
    writeln!(text, "static ALL: &[(usize, fn())] = &[").unwrap();
    for id in progs.keys() {
        writeln!(text, "    ({id}, p{id}),").unwrap();
    }
    writeln!(text, "];").unwrap();
    text.push_str(MAIN);
    (text, lines)
}

fn place(name: &str) -> Result<PathBuf, String> {
    let manifest = std::env::var("GV_MIRI_MANIFEST").map_err(|_| "no Miri")?;
    let text = fs::read_to_string(&manifest).map_err(|e| e.to_string())?;
    let dir = Path::new(&manifest).parent().unwrap().join(name);
    fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let patch = text.split("[patch.crates-io]").nth(1).ok_or("no patches")?;
    fs::write(
        dir.join("Cargo.toml"),
        format!(
            "[package]\nname = \"{name}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[workspace]\n\
             [[bin]]\nname = \"{name}\"\npath = \"main.rs\"\n[dependencies]\ngoggles = {{ path = \"/repo\" }}\n\
             [patch.crates-io]{patch}"
        ),
    )
    .map_err(|e| e.to_string())?;
    let lock = Path::new(&manifest).with_file_name("Cargo.lock");
    fs::copy(lock, dir.join("Cargo.lock")).map_err(|e| e.to_string())?;
    Ok(dir)
}

fn cargo(args: &[&str], dir: &Path, target: &str) -> Command {
    let mut c = Command::new("cargo");
    c.arg("+nightly")
        .args(args)
        .args(["-q", "--offline", "--manifest-path"])
        .arg(dir.join("Cargo.toml"))
        .env("RUSTFLAGS", std::env::var("GV_HOOK").unwrap_or_default())
        .env(
            "MIRIFLAGS",
            "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-tree-borrows",
        )
        .env("RAYON_NUM_THREADS", "2")
        .env(
            "CARGO_TARGET_DIR",
            Path::new(&std::env::var("GV_MIRI_TARGET").unwrap_or_default()).join(target),
        );
    c
}

/// Leaves those that the compiler accepts.
fn accepted(dir: &Path, mut progs: BTreeMap<usize, String>) -> Result<BTreeMap<usize, String>, String> {
    loop {
        let (text, lines) = crate_text(&progs);
        if std::env::var_os("GV_KEEP").is_some() && !dir.join("first.rs").exists() {
            let _ = fs::write(dir.join("first.rs"), &text);
        }
        fs::write(dir.join("main.rs"), text).map_err(|e| e.to_string())?;
        let out = cargo(&["check", "--message-format=json"], dir, "check")
            .output()
            .map_err(|e| e.to_string())?;
        if out.status.success() {
            return Ok(progs);
        }
        let before = progs.len();
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(m) = serde_json::from_str::<serde_json::Value>(l) else {
                continue;
            };
            let m = &m["message"];
            if m["level"] != "error" {
                continue;
            }
            for s in m["spans"].as_array().into_iter().flatten() {
                // An error in a macro is the caller's.
                let mut s = s;
                while s["expansion"].is_object() {
                    s = &s["expansion"]["span"];
                }
                if !s["file_name"].as_str().is_some_and(|f| f.ends_with("main.rs")) {
                    continue;
                }
                let line = s["line_start"].as_u64().unwrap_or(0) as usize;
                let at = lines.partition_point(|(l, _)| *l <= line);
                if at > 0 {
                    progs.remove(&lines[at - 1].1);
                }
            }
        }
        if progs.len() == before {
            return Err(format!(
                "the generated programs do not compile: {}",
                String::from_utf8_lossy(&out.stderr).lines().take(8).collect::<Vec<_>>().join(" / ")
            ));
        }
    }
}

pub struct Run {
    pub done: Vec<usize>,
    pub failed: Option<(usize, String)>,
    pub error: Option<String>,
}

fn execute(dir: &Path, procs: usize) -> Run {
    let mut r = Run {
        done: vec![],
        failed: None,
        error: None,
    };
    // Once alone, to build it.
    let mut children = vec![];
    for n in 0..procs {
        let err = dir.join(format!("err-{n}"));
        let child = cargo(&["miri", "run"], dir, "run")
            .args(["--", &n.to_string(), &procs.to_string()])
            .stdout(Stdio::null())
            .stderr(fs::File::create(&err).unwrap())
            .spawn()
            .expect("miri");
        children.push((child, err));
    }
    for (mut child, err) in children {
        let ok = child.wait().is_ok_and(|s| s.success());
        let text = String::from_utf8_lossy(&fs::read(&err).unwrap_or_default()).into_owned();
        let mut ids: Vec<usize> = text
            .lines()
            .filter_map(|l| l.strip_prefix("PROG ")?.parse().ok())
            .collect();
        if !(ok && text.contains("PROGS DONE")) {
            let what = text
                .lines()
                .find(|l| l.contains("Undefined Behavior") || l.starts_with("error"))
                .unwrap_or("Miri stopped")
                .to_string();
            match ids.pop() {
                Some(id) if what.contains("Undefined Behavior") => r.failed = Some((id, what)),
                Some(id) if text.contains("deadlock") || text.contains("overflowed its stack") => {
                    r.failed = Some((id, what))
                }
                _ => r.error = Some(what),
            }
        }
        r.done.extend(ids);
    }
    r
}

/// What may cross to another thread. `T` and `U` are each one of four types.
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub struct Trait {
    entry: usize,
    t: u8,
    u: u8,
}

/// Which of `Send` and `Sync` they have.
const PAYLOADS: [(&str, bool, bool); 4] = [
    ("u32", true, true),
    ("std::cell::Cell<u32>", true, false),
    ("OnlySync", false, true),
    ("std::rc::Rc<u32>", false, false),
];

#[derive(Clone, Copy, PartialEq)]
enum Needs {
    TSend,
    TSync,
    TSendUSync,
    TSendUSend,
    TSyncUSync,
    /// Send and Sync, as there is no way to it without both.
    TBoth,
    /// Two of it would give mutable access to the same.
    Never,
}
use Needs::*;

/// Everything that gives another thread access to a `T`, and what it takes.
fn entries() -> Vec<(String, Needs)> {
    let mut v: Vec<(String, Needs)> = vec![];
    let send = |t: &str| format!("fn is<X: Send>() {{}} is::<{t}>();");
    let clone = |t: &str| format!("fn is<X: Clone>() {{}} is::<{t}>();");
    let sync = |t: &str| format!("fn is<X: Sync>() {{}} is::<{t}>();");
    for (n, s) in STORES.iter().enumerate() {
        let raw = format!("{s}<T>");
        let st = format!("MaskedStorage<{s}<T>>");
        let su = format!("MaskedStorage<{s}<U>>");
        let k = format!("K<{n}, T>");
        let iters = |j: &str| format!("JoinIter<{j}>");
        // Owned.
        for t in [&raw, &st] {
            v.push((send(t), TSend));
            v.push((sync(t), TSync));
        }
        // Exclusive.
        let guard = format!("GuardedElement<'static, {raw}>");
        v.push((sync(&guard), TSync));
        let mut exclusive = vec![
            guard,
            format!("GuardedJoin<'static, {raw}>"),
            format!("&'static mut {st}"),
            iters(&format!("&'static mut {st}")),
            iters(&format!("GuardedJoin<'static, {raw}>")),
            iters(&format!("join::MaybeJoin<&'static mut {st}>")),
            iters(&format!("join::JoinTuple<(&'static mut {st},)>")),
        ];
        let mut shared = vec![
            format!("&'static {st}"),
            iters(&format!("&'static {st}")),
            iters(&format!("join::MaybeJoin<&'static {st}>")),
        ];
        if n >= 3 {
            exclusive.push(format!("ModifiedJoinMut<'static, {raw}>"));
            exclusive.push(iters(&format!("ModifiedJoinMut<'static, {raw}>")));
            shared.push(format!("ModifiedJoin<'static, {raw}>"));
            shared.push(iters(&format!("ModifiedJoin<'static, {raw}>")));
        }
        v.push((send(&iters(&format!("join::JoinTuple<(&'static mut {st}, &'static {su})>"))), TSendUSync));
        v.push((send(&iters(&format!("join::JoinTuple<(GuardedJoin<'static, {raw}>, &'static mut {su})>"))), TSendUSend));
        v.push((send(&iters(&format!("join::JoinTuple<(&'static {st}, &'static {su})>"))), TSyncUSync));
        exclusive.push(format!("WriteComponent<'static, {k}>"));
        exclusive.push(format!("ComponentAccess<'static, {k}, &'static mut world_common::ComponentStorage<{k}>>"));
        shared.push(format!("ReadComponent<'static, {k}>"));
        for t in &exclusive {
            v.push((send(t), TSend));
            v.push((clone(t), Never));
        }
        for t in &shared {
            v.push((send(t), TSync));
        }
        for t in [
            format!("ReadComponent<'static, {k}>"),
            format!("WriteComponent<'static, {k}>"),
            format!("ComponentAccess<'static, {k}, &'static mut world_common::ComponentStorage<{k}>>"),
            format!("&'static mut {st}"),
        ] {
            v.push((sync(&t), TSync));
        }
        // Parallel joins hand items to other threads.
        let mut a = |j: &str, n: Needs| {
            v.push((
                format!("fn f(mut s: {st}, mut o: {su}, m: BitSet) {{ ({j}).par_join().for_each(|_| ()); }}"),
                n,
            ));
            v.push((
                format!("fn f(mut s: {st}, mut o: {su}, m: BitSet) {{ ({j}).par_join_unconstrained().for_each(|_| ()); }}"),
                n,
            ));
        };
        a("&s", TSync);
        a("&mut s", TSend);
        a("s.guard()", TSend);
        a("(&s, &m)", TSync);
        a("(&mut s, &m)", TSend);
        a("(s.guard(), &m)", TSend);
        a("(&m, (&mut s).maybe())", TSend);
        a("(&m, (&s).maybe())", TSync);
        a("(&m, s.guard().maybe())", TSend);
        a("(&mut s, &o)", TSendUSync);
        a("(s.guard(), &o)", TSendUSync);
        a("(&mut s, &mut o)", TSendUSend);
        a("(&m, &mut s, (&mut o).maybe())", TSendUSend);
        a("(&s, &m, &o)", TSyncUSync);
        if n >= 3 {
            a("s.modified()", TSync);
            a("s.modified_mut()", TSend);
            a("(&o, s.modified_mut())", TSendUSync);
        }
        let mut c = |f: &str, e: &str, n: Needs| {
            v.push((
                format!("fn f(c: {f}<'static, {k}>, m: BitSet) {{ let mut c = c; ({e}).par_join().for_each(|_| ()); }}"),
                n,
            ));
        };
        c("ReadComponent", "&c", TSync);
        c("WriteComponent", "&c", TSync);
        c("WriteComponent", "&mut c", TSend);
        c("WriteComponent", "c.guard()", TSend);
        c("WriteComponent", "(&m, &mut c)", TSend);
        // World, ResourceSet and AnyComponentSet are Send and Sync, whatever is in them.
        for e in ["a.insert(x);", "b.insert(x);", "a.get::<K>();"] {
            let e = e.replace('K', &k);
            v.push((format!("fn f(mut a: AnyComponentSet, mut b: AnyCloneComponentSet, x: {k}) {{ {e} }}"), TBoth));
        }
        for (e, n) in [
            ("w.insert_component::<K>();", TSend),
            ("w.read_component::<K>();", TBoth),
            ("w.fetch::<ReadComponent<K>>();", TBoth),
            ("w.fetch::<(Entities, ReadComponent<K>)>();", TBoth),
        ] {
            v.push((format!("fn f(mut w: World) {{ {} }}", e.replace('K', &k)), n));
        }
    }
    for t in ["ReadResource<'static, T>", "Read<'static, T>"] {
        v.push((send(t), TSync));
        v.push((sync(t), TSync));
    }
    for t in ["WriteResource<'static, T>", "Write<'static, T>"] {
        v.push((clone(t), Never));
        v.push((send(t), TSend));
        v.push((sync(t), TSync));
    }
    v.push((send("MakeSync<T>"), TSend));
    v.push(("fn f(m: &MakeSync<T>) { let _: &T = m.get(); }".into(), TSync));
    for (e, n) in [
        ("w.insert_resource(x);", TSend),
        ("w.read_resource::<T>();", TBoth),
        ("w.fetch::<ReadResource<T>>();", TBoth),
        ("w.fetch::<(ReadResource<T>, Entities)>();", TBoth),
        ("s.insert(x);", TSend),
        ("s.borrow::<T>();", TBoth),
        ("s.fetch::<Read<T>>();", TBoth),
        ("s.fetch::<(Read<T>, Write<P>)>();", TBoth),
    ] {
        v.push((format!("fn f(mut w: World, mut s: ResourceSet, x: T) {{ {e} }}"), n));
    }
    // Parallel systems run on other threads.
    for (e, n) in [
        ("par![S(t), S(u)]", TSendUSend),
        ("par![S(u), S(1u32), S(t)]", TSendUSend),
        ("seq![S(1u32), par![S(1u32), S(t)]]", TSend),
        ("par![seq![S(t), S(u)], S(1u32)]", TSendUSend),
        ("par![Box::new(S(t)), S(1u32)]", TSend),
    ] {
        v.push((
            format!("fn f(t: T, u: U) {{ let _ = ({e}).run(&RayonPool, &P2); }}"),
            n,
        ));
    }
    v.push((
        "fn f(a: &'static T) { let _ = (par![S(1u32), S(2u32)]).run(&RayonPool, a); }".into(),
        TSync,
    ));
    v
}

fn trait_program(c: &Trait, entries: &[(String, Needs)]) -> Option<(String, bool)> {
    let (text, needs) = entries.get(c.entry)?;
    let (t, t_send, t_sync) = PAYLOADS[c.t as usize % 4];
    let (u, u_send, u_sync) = PAYLOADS[c.u as usize % 4];
    let (allowed, two) = match needs {
        TSend => (t_send, false),
        TSync => (t_sync, false),
        TBoth => (t_send && t_sync, false),
        Never => (false, false),
        TSendUSync => (t_send && u_sync, true),
        TSendUSend => (t_send && u_send, true),
        TSyncUSync => (t_sync && u_sync, true),
    };
    if !two && c.u > 0 {
        return None;
    }
    Some((format!("    type T = {t};\n    type U = {u};\n    {text}\n"), allowed))
}

fn trait_check(c: &Trait, _: &mut Cx) -> R {
    let Some((src, allowed)) = trait_program(c, &entries()) else {
        return Ok(());
    };
    let left = accepted(&place("prog-alone")?, BTreeMap::from([(0, src.clone())]))?;
    if allowed || left.is_empty() {
        return Ok(());
    }
    Err(unsound(&src))
}

fn unsound(src: &str) -> String {
    format!("the compiler accepts this, though what is in it cannot cross threads or is borrowed mutably:\n{src}")
}

/// Storage swapped away from under its mask, through `raw_storage_mut`.
pub fn raw_swap() -> Option<String> {
    let src = "    let mut a = st::<VecStorage<P>>();\n    let mut b = MaskedStorage::<VecStorage<P>>::default();\n    std::mem::swap(a.raw_storage_mut(), b.raw_storage_mut());\n    some!(a.get(0)).look();\n";
    let dir = place("prog-alone").ok()?;
    let left = accepted(&dir, BTreeMap::from([(0, src.to_string())])).ok()?;
    if left.is_empty() {
        return None;
    }
    execute(&dir, 1).failed.map(|(_, m)| format!("{m}\n{src}"))
}

pub const TRAITS: &str = "sent and shared";

pub fn trait_leg() -> Leg {
    Leg::new(
        TRAITS,
        "every public type and call that gives another thread access to values, over types that are or are not Send and Sync: what the compiler accepts must be allowed by what is in it; all combinations; non-trivial: not allowed",
        (0, 0),
        || {
            let n = entries().len();
            (0..n, 0u8..4, 0u8..4).prop_map(|(entry, t, u)| Trait { entry, t, u })
        },
        trait_check,
    )
}

pub struct Table {
    pub checked: usize,
    pub nontrivial: usize,
    pub accepted: usize,
    pub dead: usize,
    pub samples: Vec<serde_json::Value>,
    pub failed: Option<(Trait, String)>,
}

/// All of them.
pub fn trait_table() -> Result<Table, String> {
    let es = entries();
    let mut cases = vec![];
    for entry in 0..es.len() {
        for t in 0..4 {
            for u in 0..4 {
                let c = Trait { entry, t, u };
                if let Some((src, allowed)) = trait_program(&c, &es) {
                    cases.push((c, src, allowed));
                }
            }
        }
    }
    let all = cases.iter().enumerate().map(|(i, c)| (i, c.1.clone())).collect();
    let left = accepted(&place("progs")?, all)?;
    // Both Send and Sync: something else is wrong with it, and it is no evidence.
    let dead = cases
        .iter()
        .enumerate()
        .filter(|(i, c)| c.0.t == 0 && c.0.u == 0 && es[c.0.entry].1 != Never && !left.contains_key(i));
    let dead: Vec<String> = dead.map(|(_, c)| c.1.clone()).collect();
    if std::env::var_os("GV_KEEP").is_some() {
        dead.iter().for_each(|d| eprintln!("dead: {d}"));
    }
    let failed = left.keys().map(|i| &cases[*i]).find(|c| !c.2);
    Ok(Table {
        checked: cases.len(),
        nontrivial: cases.iter().filter(|c| !c.2).count(),
        accepted: left.len(),
        dead: dead.len(),
        samples: cases.iter().filter(|c| !c.2).step_by(97).take(3).map(|c| c.1.clone().into()).collect(),
        failed: failed.map(|c| (c.0, unsound(&c.1))),
    })
}

/// One program alone.
fn check(p: &Prog, cx: &mut Cx) -> R {
    let (src, made) = source(p);
    let dir = place("prog-alone")?;
    let left = accepted(&dir, BTreeMap::from([(0, src.clone())]))?;
    if left.is_empty() {
        cx.label("rejected by the compiler");
        return Ok(());
    }
    let r = execute(&dir, 1);
    cx.nontrivial_if(made > 1);
    match r.failed {
        Some((_, m)) => Err(format!("{m}\n{src}")),
        None => r.error.map_or(Ok(()), |e| Err(format!("{e}\n{src}"))),
    }
}

pub const NAME: &str = "client programs";

pub fn leg() -> Leg {
    Leg::new(
        NAME,
        "safe client programs of a few calls that hold storages, worlds, references, guards, joins and borrows in any order; those that the compiler accepts are run under Miri; non-trivial: accepted, and two or more values made from others",
        (0, 0),
        prog,
        check,
    )
}

pub const PAIRS: &str = "client program pairs";

pub fn pairs_leg() -> Leg {
    Leg::new(
        PAIRS,
        "every two calls in a row on one storage, world, resource set, or value got from one of them by one call, with what they give used afterwards, the first last; those that the compiler accepts are run under Miri; non-trivial: accepted, and two or more values made from others",
        (0, 0),
        || {
            let all = pairs();
            (0..all.len()).prop_map(move |i| all[i].clone())
        },
        check,
    )
}

pub struct Batch {
    pub ran: usize,
    pub nontrivial: usize,
    pub samples: Vec<serde_json::Value>,
    /// The case's number, and what Miri said.
    pub failed: Option<(usize, String)>,
    pub error: Option<String>,
}

/// Compiles and runs many.
pub fn batch(cases: &[String], procs: usize) -> Batch {
    let mut b = Batch {
        ran: 0,
        nontrivial: 0,
        samples: vec![],
        failed: None,
        error: None,
    };
    let progs: BTreeMap<usize, (String, usize)> = cases
        .iter()
        .enumerate()
        .map(|(i, c)| (i, source(&serde_json::from_str(c).unwrap())))
        .collect();
    let result = place("progs").and_then(|dir| {
        let all = progs.iter().map(|(i, p)| (*i, p.0.clone())).collect();
        let t = std::time::Instant::now();
        let left = accepted(&dir, all)?;
        if std::env::var_os("GV_KEEP").is_some() {
            eprintln!("{} accepted in {:?}", left.len(), t.elapsed());
        }
        Ok(execute(&dir, procs.min(left.len().max(1))))
    });
    match result {
        Err(e) => b.error = Some(e),
        Ok(r) => {
            b.ran = r.done.len() + r.failed.is_some() as usize;
            let mut distinct = std::collections::HashSet::new();
            for id in &r.done {
                if progs[id].1 > 1 && distinct.insert(&progs[id].0) {
                    b.nontrivial += 1;
                    if b.samples.len() < 3 {
                        b.samples.push(progs[id].0.clone().into());
                    }
                }
            }
            b.failed = r.failed;
            b.error = r.error;
        }
    }
    b
}
