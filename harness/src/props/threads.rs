//! E03: several threads on one allocator or world.
//!
//! Once with the threads left to the operating system, and once with a generated schedule: between
//! any two accesses of goggles' own atomics (if built with `--cfg goggles_verif`) and between any
//! two operations, the schedule says who goes on.

use std::{
    cell::RefCell,
    collections::{BTreeSet, HashSet},
    sync::{Arc, Barrier, Condvar, Mutex},
    time::Duration,
};

use goggles::Entity;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::entity::Target;
use crate::{
    engine::{catching, lax, Cx, Leg, Mode, Prop, R},
    ensure, ensure_eq,
};

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum Pre {
    Create(bool),
    Many(u8),
    Kill(u8),
    KillAtomic(u8),
    Merge,
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Create,
    /// Of those that were there before, of its own, or passed by others.
    Kill(u8),
    KillOwn(u8),
    KillStale(u8),
    Ask(u8),
    AskStale(u8),
    Pass(u8),
    Join,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    world: bool,
    pre: Vec<Pre>,
    /// Scripts of the threads; everything is merged between two phases.
    phases: Vec<Vec<Vec<Op>>>,
    /// How to go on: 0 is always whoever is running.
    schedule: Vec<u8>,
}

fn pre(max: usize) -> impl Strategy<Value = Vec<Pre>> {
    let op = prop_oneof![
        4 => any::<bool>().prop_map(Pre::Create),
        1 => (2u8..20).prop_map(Pre::Many),
        4 => any::<u8>().prop_map(Pre::Kill),
        2 => any::<u8>().prop_map(Pre::KillAtomic),
        1 => Just(Pre::Merge),
    ];
    prop::collection::vec(op, 0..max)
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        10 => Just(Op::Create),
        3 => any::<u8>().prop_map(Op::Kill),
        3 => any::<u8>().prop_map(Op::KillOwn),
        1 => any::<u8>().prop_map(Op::KillStale),
        2 => any::<u8>().prop_map(Op::Ask),
        1 => any::<u8>().prop_map(Op::AskStale),
        2 => any::<u8>().prop_map(Op::Pass),
        1 => Just(Op::Join),
    ]
}

fn scripts(threads: std::ops::Range<usize>, ops: usize) -> impl Strategy<Value = Vec<Vec<Vec<Op>>>> {
    let phase = prop::collection::vec(prop::collection::vec(op(), 1..ops), threads);
    prop::collection::vec(phase, 1..3)
}

fn scheduled() -> impl Strategy<Value = Case> {
    (
        any::<bool>(),
        pre(14),
        scripts(2..5, 6),
        prop::collection::vec(prop_oneof![2 => Just(0u8), 3 => any::<u8>()], 0..120),
    )
        .prop_map(|(world, pre, phases, schedule)| Case {
            world,
            pre,
            phases,
            schedule,
        })
}

fn native() -> impl Strategy<Value = Case> {
    (any::<bool>(), pre(40), scripts(2..9, 60)).prop_map(|(world, pre, phases)| Case {
        world,
        pre,
        phases,
        schedule: vec![],
    })
}

// The scheduler.

struct State {
    now: usize,
    alive: Vec<bool>,
    schedule: Vec<u8>,
    at: usize,
    switches: u64,
    failures: u64,
    /// No longer in charge: somebody waits for something else than its turn.
    gave_up: bool,
}

pub struct Sched {
    state: Mutex<State>,
    turn: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

#[allow(dead_code)]
fn hook(may_fail: bool) -> bool {
    let me = ME.try_with(|m| m.try_borrow().ok().and_then(|m| m.clone())).ok().flatten();
    me.map_or(false, |(s, me)| s.point(me, may_fail))
}

impl Sched {
    fn new(threads: usize, schedule: &[u8]) -> Arc<Sched> {
        Arc::new(Sched {
            state: Mutex::new(State {
                now: 0,
                alive: vec![true; threads],
                schedule: schedule.to_vec(),
                at: 0,
                switches: 0,
                failures: 0,
                gave_up: false,
            }),
            turn: Condvar::new(),
        })
    }

    fn wait(&self, me: usize, mut s: std::sync::MutexGuard<State>) {
        let (mut at, mut stuck) = (s.at, 0);
        while s.now != me && !s.gave_up {
            let (next, timeout) = self.turn.wait_timeout(s, Duration::from_millis(100)).unwrap();
            s = next;
            if timeout.timed_out() {
                stuck = if s.at == at { stuck + 1 } else { 0 };
                at = s.at;
                if stuck == 5 {
                    s.gave_up = true;
                    self.turn.notify_all();
                }
            }
        }
    }

    /// Lets the schedule decide. True if an operation should fail spuriously.
    fn point(&self, me: usize, may_fail: bool) -> bool {
        let mut s = self.state.lock().unwrap();
        if s.gave_up {
            return false;
        }
        let at = s.at;
        s.at += 1;
        let c = match s.schedule.get(at) {
            Some(c) => *c,
            // Nobody spins forever.
            None if at % 64 == 63 => 128 + 1 + me as u8,
            None => 0,
        };
        if may_fail && c >= 224 {
            s.failures += 1;
            return true;
        }
        if c < 96 {
            return false;
        }
        let alive: Vec<usize> = (0..s.alive.len()).filter(|i| s.alive[*i]).collect();
        let to = alive[c as usize % alive.len()];
        if to != me {
            s.switches += 1;
            s.now = to;
            self.turn.notify_all();
            self.wait(me, s);
        }
        false
    }

    fn finish(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.alive[me] = false;
        if s.now == me {
            if let Some(n) = s.alive.iter().position(|a| *a) {
                s.now = n;
            }
        }
        self.turn.notify_all();
    }
}

fn op_point() {
    hook(false);
}

// Running.

struct Before {
    live: Vec<Entity>,
    pending: BTreeSet<Entity>,
    stale: Vec<Entity>,
}

fn prepare(c: &Case) -> (Target, Before) {
    let mut t = Target::new(c.world);
    let mut b = Before {
        live: vec![],
        pending: BTreeSet::new(),
        stale: vec![],
    };
    for p in &c.pre {
        match p {
            Pre::Create(false) => b.live.push(t.create()),
            Pre::Create(true) => b.live.push(t.create_atomic()),
            Pre::Many(n) => b.live.extend((0..*n).map(|_| t.create())),
            Pre::Kill(k) if !b.live.is_empty() => {
                let e = b.live.remove(*k as usize % b.live.len());
                t.kill(e);
                b.pending.remove(&e);
                b.stale.push(e);
            }
            Pre::KillAtomic(k) if !b.live.is_empty() => {
                let e = b.live[*k as usize % b.live.len()];
                t.kill_atomic(e);
                b.pending.insert(e);
            }
            Pre::Merge => {
                t.merge(&[]);
                merged(&mut b);
            }
            _ => {}
        }
    }
    (t, b)
}

fn merged(b: &mut Before) {
    let p = std::mem::take(&mut b.pending);
    b.live.retain(|e| !p.contains(e));
    b.stale.extend(p);
}

struct Done {
    created: Vec<Entity>,
    killed: Vec<Entity>,
}

fn thread(t: &Target, b: &Before, passed: &Mutex<Vec<Entity>>, script: &[Op]) -> Result<Done, String> {
    let mut created: Vec<Entity> = vec![];
    let mut killed = vec![];
    let pick = |created: &[Entity], k: u8| -> Option<Entity> {
        let p = passed.lock().unwrap().clone();
        let n = b.live.len() + created.len() + p.len();
        if n == 0 {
            return None;
        }
        let k = k as usize % n;
        b.live.iter().chain(created).chain(&p).nth(k).copied()
    };
    for o in script {
        op_point();
        match o {
            Op::Create => {
                let e = t.create_atomic();
                created.push(e);
                op_point();
                ensure!(t.is_alive(e), "{e:?} is not alive when it is returned");
                ensure_eq!(t.entity(e.index()), Some(e), "entity at the index of {e:?}, just created");
                ensure!(t.bit(e.index()), "{e:?}, just created, is not in the set of live ones");
                ensure!(t.max() > e.index(), "{e:?}, just created, is above the greatest number of entities");
            }
            Op::Kill(k) => {
                if let Some(e) = pick(&created, *k) {
                    ensure!(t.kill_atomic(e), "deletion of {e:?} is refused, and it is alive");
                    killed.push(e);
                    ensure!(t.is_alive(e), "{e:?} is not alive before the merge");
                }
            }
            Op::KillOwn(k) => {
                if !created.is_empty() {
                    let e = created[*k as usize % created.len()];
                    ensure!(t.kill_atomic(e), "deletion of {e:?} is refused, and it is alive");
                    killed.push(e);
                    ensure!(t.is_alive(e), "{e:?} is not alive before the merge");
                }
            }
            Op::KillStale(k) => {
                if !b.stale.is_empty() {
                    let e = b.stale[*k as usize % b.stale.len()];
                    ensure!(!t.kill_atomic(e), "deletion of {e:?} is accepted, and it is dead");
                }
            }
            Op::Ask(k) => {
                if let Some(e) = pick(&created, *k) {
                    ensure!(t.is_alive(e), "{e:?} is not alive");
                    ensure_eq!(t.entity(e.index()), Some(e), "entity at the index of {e:?}");
                }
            }
            Op::AskStale(k) => {
                if !b.stale.is_empty() {
                    let e = b.stale[*k as usize % b.stale.len()];
                    ensure!(!t.is_alive(e), "{e:?} is alive, and it was killed");
                }
            }
            Op::Pass(k) => {
                if !created.is_empty() {
                    passed.lock().unwrap().push(created[*k as usize % created.len()]);
                }
            }
            Op::Join => {
                let known: Vec<Entity> = b.live.iter().chain(&created).copied().collect();
                let p = passed.lock().unwrap().clone();
                op_point();
                let all = t.join();
                ensure!(
                    all.windows(2).all(|w| w[0].index() < w[1].index()),
                    "a join gives entities out of order"
                );
                let all: HashSet<Entity> = all.into_iter().collect();
                for e in known.iter().chain(&p) {
                    ensure!(all.contains(e), "{e:?} is alive and not in a join");
                }
                for e in &b.stale {
                    ensure!(!all.contains(e), "{e:?} is dead and in a join");
                }
            }
        }
    }
    Ok(Done { created, killed })
}

fn run_threads(t: &Target, b: &Before, scripts: &[Vec<Op>], sched: Option<&Arc<Sched>>) -> Result<Vec<Done>, String> {
    let passed = Mutex::new(vec![]);
    let barrier = Barrier::new(scripts.len());
    std::thread::scope(|s| {
        let handles: Vec<_> = scripts
            .iter()
            .enumerate()
            .map(|(me, script)| {
                let (passed, barrier) = (&passed, &barrier);
                let sched = sched.cloned();
                s.spawn(move || {
                    if let Some(sc) = &sched {
                        ME.with(|m| *m.borrow_mut() = Some((sc.clone(), me)));
                        sc.wait(me, sc.state.lock().unwrap());
                    } else {
                        barrier.wait();
                    }
                    let r = catching(|| thread(t, b, passed, script));
                    ME.with(|m| *m.borrow_mut() = None);
                    if let Some(sc) = &sched {
                        sc.finish(me);
                    }
                    r.unwrap_or_else(|p| Err(format!("panic: {p}")))
                })
            })
            .collect();
        handles
            .into_iter()
            .enumerate()
            .map(|(n, h)| h.join().unwrap().map_err(|e| format!("thread {n}: {e}")))
            .collect()
    })
}

fn sorted(e: impl IntoIterator<Item = Entity>) -> Vec<Entity> {
    let mut v: Vec<Entity> = e.into_iter().collect();
    v.sort();
    v
}

fn check(c: &Case, with_schedule: bool, cx: &mut Cx) -> R {
    #[cfg(goggles_verif)]
    goggles::verif_atomic::set_hook(hook);
    let (mut t, mut b) = prepare(c);
    let (mut twin, _) = prepare(c);
    let mut ever: HashSet<Entity> = b.live.iter().chain(&b.stale).copied().collect();
    let (mut switches, mut failures, mut creators) = (0, 0, 0);
    for (n, scripts) in c.phases.iter().enumerate() {
        let free_before = b.stale.iter().map(|e| e.index()).collect::<BTreeSet<_>>();
        let sched = with_schedule.then(|| {
            // Each phase starts at another place in the schedule.
            let skip = c.schedule.len() * n / c.phases.len();
            Sched::new(scripts.len(), &c.schedule[skip..])
        });
        let done = run_threads(&t, &b, scripts, sched.as_ref()).map_err(|e| format!("phase {n}: {e}"))?;
        if let Some(s) = sched {
            let s = s.state.lock().unwrap();
            switches += s.switches;
            failures += s.failures;
            cx.label_if(s.gave_up, "schedule given up");
        }
        creators += (done.iter().filter(|d| !d.created.is_empty()).count() > 1) as usize;
        let created = sorted(done.iter().flat_map(|d| d.created.iter().copied()));
        for e in &created {
            ensure!(ever.insert(*e), "phase {n}: {e:?} was created twice, or is one of before");
        }
        // The same number, one after the other.
        let alone = sorted(created.iter().map(|_| twin.create_atomic()));
        ensure_eq!(created, alone, "phase {n}: entities created, compared with sequential creations");
        cx.label_if(
            created.iter().any(|e| free_before.contains(&e.index())) && created.iter().any(|e| !free_before.contains(&e.index())),
            "the free list runs out",
        );
        b.live.extend(&created);
        ensure_eq!(t.join(), sorted_by_index(&b.live), "phase {n}: live entities before the merge");
        ensure_eq!(t.max(), twin.max(), "phase {n}: the greatest number of entities");
        for e in done.iter().flat_map(|d| d.killed.iter()) {
            b.pending.insert(*e);
            ensure!(twin.kill_atomic(*e), "the twin refuses the deletion of {e:?}");
        }
        cx.label_if(!b.pending.is_empty(), "deletions");
        let report = t.merge(&[]);
        twin.merge(&[]);
        if let Some(r) = report {
            ensure_eq!(sorted(r), b.pending.iter().copied().collect::<Vec<_>>(), "phase {n}: entities killed by the merge");
        }
        merged(&mut b);
        ensure_eq!(t.join(), sorted_by_index(&b.live), "phase {n}: live entities after the merge");
        for e in &b.live {
            ensure!(t.is_alive(*e), "phase {n}: {e:?} is not alive after the merge");
        }
        for e in &b.stale {
            ensure!(!t.is_alive(*e), "phase {n}: {e:?} is alive after the merge");
        }
        ensure_eq!(t.max(), twin.max(), "phase {n}: the greatest number of entities after the merge");
    }
    // Everything that is free, and a few more.
    let count = t.max() as usize - b.live.len() + 3;
    let next: Vec<Entity> = (0..count)
        .map(|k| if k % 2 == 0 { t.create() } else { t.create_atomic() })
        .collect();
    let twins: Vec<Entity> = (0..count)
        .map(|k| if k % 2 == 0 { twin.create() } else { twin.create_atomic() })
        .collect();
    for e in &next {
        ensure!(ever.insert(*e), "{e:?}, created later, is one of before");
    }
    ensure_eq!(sorted(next), sorted(twins), "entities created later, compared with sequential requests");
    cx.label_if(switches > 0, "switched between threads");
    cx.label_if(failures > 0, "spurious failures");
    cx.label_if(c.world, "world");
    cx.nontrivial_if(creators > 0 && (!with_schedule || switches > 0));
    Ok(())
}

fn sorted_by_index(e: &[Entity]) -> Vec<Entity> {
    let mut v = e.to_vec();
    v.sort_by_key(|e| e.index());
    v
}

// The last indexes.

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Last {
    left: u32,
    threads: u8,
    each: u8,
    free: u8,
    schedule: Vec<u8>,
}

fn last() -> impl Strategy<Value = Last> {
    (
        0u32..8,
        2u8..5,
        1u8..6,
        0u8..4,
        prop::collection::vec(any::<u8>(), 0..80),
    )
        .prop_map(|(left, threads, each, free, schedule)| Last {
            left,
            threads,
            each,
            free,
            schedule,
        })
}

fn last_check(c: &Last, cx: &mut Cx) -> R {
    #[cfg(goggles_verif)]
    goggles::verif_atomic::set_hook(hook);
    const MAX: u32 = 1 << 24;
    let mut a = goggles::entity::Allocator::new();
    let mut first = vec![];
    for k in 0..MAX - c.left {
        let e = a.allocate();
        if k < c.free as u32 {
            first.push(e);
        }
    }
    for e in &first {
        a.kill(*e).unwrap();
    }
    let room = c.left as usize + first.len();
    let sched = Sched::new(c.threads as usize, &c.schedule);
    let got: Vec<Vec<Option<Entity>>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..c.threads as usize)
            .map(|me| {
                let (a, sc) = (&a, sched.clone());
                s.spawn(move || {
                    ME.with(|m| *m.borrow_mut() = Some((sc.clone(), me)));
                    sc.wait(me, sc.state.lock().unwrap());
                    let r = (0..c.each).map(|_| catching(|| a.allocate_atomic()).ok()).collect();
                    ME.with(|m| *m.borrow_mut() = None);
                    sc.finish(me);
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let made: Vec<Entity> = got.iter().flatten().flatten().copied().collect();
    let tried = c.threads as usize * c.each as usize;
    ensure_eq!(made.len(), tried.min(room), "entities created of {tried} with room for {room}");
    let set: HashSet<Entity> = made.iter().copied().collect();
    ensure_eq!(set.len(), made.len(), "distinct entities created");
    for e in &made {
        ensure!(a.is_alive(*e), "{e:?} is not alive");
        ensure!(e.index() < MAX, "{e:?} has an index that is too large");
    }
    let mut killed = vec![];
    for e in made.iter().take(3) {
        ensure!(a.kill_atomic(*e).is_ok(), "deletion of {e:?} is refused");
    }
    a.merge_atomic(&mut killed);
    ensure_eq!(sorted(killed), sorted(made.iter().take(3).copied()), "entities killed by the merge");
    let left = room - made.len() + made.len().min(3);
    for _ in 0..left {
        let e = a.allocate();
        ensure!(!set.contains(&e), "{e:?} was created again");
    }
    ensure!(catching(|| a.allocate()).is_err(), "more entities than indexes");
    cx.label_if(tried > room, "not enough for all");
    cx.nontrivial_if(tried > room && room > 0);
    Ok(())
}

/// For the sanitizers and Miri.
pub fn memory_legs() -> Vec<Leg> {
    const RULE: &str = "the concurrent histories of E03; non-trivial as there";
    let check = |c: &Case, cx: &mut Cx| check(c, false, cx);
    fn small() -> impl Strategy<Value = Case> {
        (any::<bool>(), pre(5), scripts(2..4, 6)).prop_map(|(world, pre, phases)| Case {
            world,
            pre,
            phases,
            schedule: vec![],
        })
    }
    vec![
        Leg::new("threads", RULE, (0, 0), native, lax(check))
            .workers(4)
            .also(Mode::Asan, 2_000, 100_000)
            .also(Mode::Tsan, 2_500, 150_000),
        Leg::new("threads small", RULE, (0, 0), small, lax(check)).also(Mode::Miri, 24, 1_500),
    ]
}

pub fn e03() -> Prop {
    Prop::new(
        "E03",
        vec![
            Leg::new(
                "schedules",
                "scripts of 2 to 4 threads creating, deleting, querying and passing entities, after a generated sequential history, under a generated schedule with a choice before every atomic access of goggles and every operation, and spurious failures; compared with sequential requests; non-trivial: at least two threads create, and the schedule switches between them",
                (120_000, 6_000_000),
                scheduled,
                |c, cx| check(c, true, cx),
            )
            .hang(120),
            Leg::new(
                "stress",
                "scripts of 2 to 8 threads of up to 60 operations, run by the operating system; non-trivial: at least two threads create",
                (30_000, 1_000_000),
                native,
                |c, cx| check(c, false, cx),
            )
            .workers(4),
            Leg::new(
                "last indexes",
                "2 to 4 threads creating entities with room for 0 to 11 of the 2^24, under a generated schedule; non-trivial: room for some but not for all",
                (20, 400),
                last,
                last_check,
            )
            .hang(300),
        ],
    )
    .assume("between the atomic accesses of the bitset library and of goggles' bitsets, only the operating system's schedules are explored")
}
