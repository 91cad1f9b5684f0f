//! Runs a property's cases in child processes, so that a crash or a hang of the code under test is
//! itself a result, and writes evidence, replay files and the verdict.

use std::{
    fs,
    os::unix::process::ExitStatusExt,
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    time::{Duration, Instant},
};

use serde_json::{json, Value};

use crate::props::progs;
use crate::engine::{CaseId, Journal, Leg, LegReport, Mode, Prop, Replay, WorkerReport};

enum End {
    Code(i32),
    Signal(i32),
    Timeout,
}

fn wait(child: &mut Child, limit: Duration, mut poll: impl FnMut() -> bool) -> End {
    let start = Instant::now();
    let mut nap = 1;
    loop {
        if let Some(st) = child.try_wait().expect("wait") {
            return match st.code() {
                Some(c) => End::Code(c),
                None => End::Signal(st.signal().unwrap_or(0)),
            };
        }
        if start.elapsed() > limit || poll() {
            let _ = child.kill();
            let _ = child.wait();
            return End::Timeout;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
    }
}

pub struct Dirs {
    pub verif: PathBuf,
    pub out: PathBuf,
}

fn dirs() -> Dirs {
    let verif = PathBuf::from(std::env::var("GV_VERIF").unwrap_or_else(|_| "/verif".into()));
    let out = verif.join("out");
    fs::create_dir_all(out.join("replays")).expect("out dir");
    fs::create_dir_all(verif.join("evidence")).expect("evidence dir");
    Dirs { verif, out }
}

fn bin(mode: Mode) -> Option<PathBuf> {
    match mode {
        Mode::Native => Some(std::env::current_exe().unwrap()),
        Mode::Miri => None,
        _ => std::env::var_os(format!("GV_{}_BIN", mode.name().to_uppercase())).map(PathBuf::from),
    }
}

/// This program, or its build with a sanitizer.
fn command(bin: &Path) -> Command {
    let mut c = Command::new(bin);
    c.env("ASAN_OPTIONS", "exitcode=66:detect_leaks=0:allocator_may_return_null=1")
        .env("MSAN_OPTIONS", "exitcode=66")
        .env("TSAN_OPTIONS", "exitcode=66:halt_on_error=1:report_signal_unsafe=0");
    c
}

/// The command that runs this program's `args` under Miri.
fn miri_command(args: &[&str], seed: u64) -> Option<Command> {
    let manifest = std::env::var("GV_MIRI_MANIFEST").ok()?;
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "-q", "--offline", "--manifest-path"])
        .arg(manifest)
        .arg("--")
        .args(args)
        .env(
            "MIRIFLAGS",
            format!(
                    "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-tree-borrows -Zmiri-seed={seed}"
            ),
        )
        .env("RAYON_NUM_THREADS", "2")
        .env_remove("RUSTFLAGS");
    if let Ok(f) = std::env::var("GV_MIRI_RUSTFLAGS") {
        c.env("RUSTFLAGS", f);
    }
    if let Ok(t) = std::env::var("GV_MIRI_TARGET") {
        c.env("CARGO_TARGET_DIR", t);
    }
    Some(c)
}

fn tail(text: &str) -> String {
    let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    let key = lines
        .iter()
        .find(|l| {
            l.contains("Undefined Behavior")
                || l.contains("Sanitizer:")
                || l.contains("unsafe precondition")
                || l.contains("attempt to")
        })
        .or(lines.first());
    key.map(|s| s.trim().to_string()).unwrap_or_default()
}

enum CaseEnd {
    Holds,
    /// The oracle, a crash, or a hang said so.
    Fails(String),
    Killed,
}

/// Runs one case alone in a child.
fn run_case(d: &Dirs, mode: Mode, prop: &str, leg: &Leg, json: &str, limit: Duration) -> CaseEnd {
    let tag = format!("{}-{}", std::process::id(), prop);
    let file = d.out.join(format!("case-{tag}.json"));
    let so = d.out.join(format!("case-{tag}.out"));
    let se = d.out.join(format!("case-{tag}.err"));
    fs::write(&file, json).unwrap();
    let args = ["case", prop, leg.name, file.to_str().unwrap()];
    let mut cmd = if mode == Mode::Miri {
        miri_command(&args, 0).expect("miri")
    } else {
        let mut c = command(&bin(mode).expect("binary"));
        c.args(args);
        c
    };
    cmd.stdout(fs::File::create(&so).unwrap())
        .stderr(fs::File::create(&se).unwrap());
    let mut child = cmd.spawn().expect("spawn");
    let end = wait(&mut child, limit, || false);
    let out = fs::read_to_string(&so).unwrap_or_default();
    let err = String::from_utf8_lossy(&fs::read(&se).unwrap_or_default()).into_owned();
    for f in [&file, &so, &se] {
        let _ = fs::remove_file(f);
    }
    match end {
        End::Code(0) => CaseEnd::Holds,
        End::Code(1) if !out.trim().is_empty() => CaseEnd::Fails(out.trim().into()),
        End::Code(c) => CaseEnd::Fails(format!("the process ended with code {c}: {}", tail(&err))),
        End::Signal(9) => CaseEnd::Killed,
        End::Signal(s) => CaseEnd::Fails(format!("the process died of signal {s}: {}", tail(&err))),
        End::Timeout => CaseEnd::Fails(format!(
            "the case did not finish within {} s",
            limit.as_secs()
        )),
    }
}

struct Outcome {
    legs: Vec<LegReport>,
    failure: Option<Replay>,
    error: Option<String>,
}

fn case_id(prop: &Prop, leg: &Leg, seed: u64, idx: u64) -> CaseId {
    CaseId {
        seed,
        prop: prop.id.into(),
        leg: leg.name.into(),
        idx,
    }
}

/// Confirms alone a case seen to crash or hang, and minimises it.
fn isolate(d: &Dirs, prop: &Prop, mode: Mode, leg: &Leg, seed: u64, idx: u64) -> Option<Replay> {
    let id = case_id(prop, leg, seed, idx);
    let json = leg.worker().case_json(&id);
    let limit = Duration::from_secs(leg.hang_s);
    let message = match run_case(d, mode, prop.id, leg, &json, limit) {
        CaseEnd::Fails(m) => m,
        _ => return None,
    };
    let hang = message.contains("did not finish");
    let each = if hang {
        Duration::from_secs(leg.hang_s.min(10))
    } else {
        limit
    };
    let budget = Duration::from_secs(match mode {
        Mode::Miri => 120,
        _ => 60,
    });
    let mut last = message;
    let (case, shrink_steps) = leg.shrink_isolated(
        &id,
        &mut |j| match run_case(d, mode, prop.id, leg, j, each) {
            CaseEnd::Fails(m) if m.contains("did not finish") == hang => {
                last = m;
                true
            }
            _ => false,
        },
        budget,
    );
    Some(Replay {
        property: prop.id.into(),
        leg: leg.name.into(),
        mode: mode.name().into(),
        seed,
        idx,
        message: last,
        shrink_steps,
        case: serde_json::from_str(&case).unwrap(),
    })
}

fn run_workers(d: &Dirs, prop: &Prop, mode: Mode, tier: &str, seed: u64, workers: usize) -> Outcome {
    let mut o = Outcome {
        legs: vec![],
        failure: None,
        error: None,
    };
    let Some(bin) = bin(mode) else {
        o.error = Some(format!("no {mode:?} binary"));
        return o;
    };
    let name = format!("{}-{}", prop.id, mode.name()).to_lowercase();
    let journal = d.out.join(format!("{name}.journal"));
    let result = d.out.join(format!("{name}.result"));
    let errs = d.out.join(format!("{name}.err"));
    let mut crashes: Vec<String> = vec![];
    for attempt in 0..2 {
        let _ = fs::remove_file(&result);
        let mut child = command(&bin)
            .arg("worker")
            .arg(prop.id)
            .arg(mode.name())
            .arg(tier)
            .arg(seed.to_string())
            .arg(workers.to_string())
            .arg(&journal)
            .arg(&result)
            .stdout(Stdio::null())
            .stderr(fs::File::create(&errs).unwrap())
            .spawn()
            .expect("spawn worker");
        // A case is stuck once the journal has shown it running for its leg's limit.
        let mut since: Vec<((u64, u64), Instant)> = vec![];
        let mut stuck: Vec<(u64, u64)> = vec![];
        let mut last_look = Instant::now();
        let jpath = journal.to_str().unwrap().to_string();
        let end = wait(&mut child, Duration::from_secs(6 * 3600), || {
            if last_look.elapsed() < Duration::from_millis(500) {
                return false;
            }
            last_look = Instant::now();
            let now = Journal::read(&jpath);
            since.retain(|(c, _)| now.contains(c));
            for c in now {
                if !since.iter().any(|(k, _)| *k == c) {
                    since.push((c, Instant::now()));
                }
            }
            stuck = since
                .iter()
                .filter(|((l, _), t)| {
                    prop.legs
                        .get(*l as usize)
                        .is_some_and(|l| t.elapsed().as_secs() > l.hang_s + 20)
                })
                .map(|(c, _)| *c)
                .collect();
            !stuck.is_empty()
        });
        let candidates = match end {
            End::Code(c @ (0 | 1)) => {
                let r: Option<WorkerReport> = fs::read(&result)
                    .ok()
                    .and_then(|b| serde_json::from_slice(&b).ok());
                match r {
                    Some(r) if r.failure.is_some() == (c == 1) => {
                        o.legs = r.legs;
                        o.failure = r.failure;
                        return o;
                    }
                    _ => {
                        o.error = Some("worker left no usable result".into());
                        return o;
                    }
                }
            }
            End::Code(c) if mode == Mode::Native => {
                o.error = Some(format!(
                    "worker ended with code {c}: {}",
                    tail(&fs::read_to_string(&errs).unwrap_or_default())
                ));
                return o;
            }
            End::Signal(s @ (9 | 15 | 2)) => {
                o.error = Some(format!("worker was killed by signal {s}"));
                return o;
            }
            End::Code(_) | End::Signal(_) => Journal::read(&jpath),
            End::Timeout => stuck.clone(),
        };
        let what = match end {
            End::Timeout => "hang".to_string(),
            End::Code(c) => format!("code {c}"),
            End::Signal(s) => format!("signal {s}"),
        };
        let err = tail(&fs::read_to_string(&errs).unwrap_or_default());
        crashes.push(format!("{what} {err} while running {candidates:?}"));
        for (l, i) in &candidates {
            let Some(leg) = prop.legs.get(*l as usize) else {
                continue;
            };
            for _ in 0..if attempt == 0 { 1 } else { 3 } {
                if let Some(r) = isolate(d, prop, mode, leg, seed, *i) {
                    o.failure = Some(r);
                    return o;
                }
            }
        }
        let reported = mode != Mode::Native && err.contains("Sanitizer");
        if (attempt == 1 || reported) && !matches!(end, End::Timeout) {
            // Twice, but by no single case alone: the memory was damaged earlier.
            let (l, i) = candidates.first().copied().unwrap_or((0, 0));
            if let Some(leg) = prop.legs.get(l as usize) {
                let json = leg.worker().case_json(&case_id(prop, leg, seed, i));
                o.failure = Some(Replay {
                    property: prop.id.into(),
                    leg: leg.name.into(),
                    mode: mode.name().into(),
                    seed,
                    idx: i,
                    message: format!(
                        "the process failed over many cases, or one of {candidates:?}, not over one alone: {}",
                        crashes.join("; ")
                    ),
                    shrink_steps: 0,
                    case: serde_json::from_str(&json).unwrap(),
                });
                return o;
            }
        }
    }
    o.error = Some(format!("crashes or hangs not reproduced: {}", crashes.join("; ")));
    o
}

/// Generates cases here and executes them under Miri, several processes at a time.
fn run_miri(d: &Dirs, prop: &Prop, thorough: bool, seed: u64, procs: usize) -> Outcome {
    let mut o = Outcome {
        legs: vec![],
        failure: None,
        error: None,
    };
    let start = Instant::now();
    let only = std::env::var("GV_LEG").ok();
    // Each process gets some of every leg.
    let mut batches: Vec<Vec<(usize, u64, String)>> = vec![vec![]; procs];
    let mut next = 0;
    for (l, leg) in prop.legs.iter().enumerate() {
        let total = leg.count(Mode::Miri, thorough);
        if total == 0 || only.as_ref().is_some_and(|o| o != leg.name) {
            continue;
        }
        let mut w = leg.worker();
        for idx in 0..total {
            let json = w.case_json(&case_id(prop, leg, seed, idx));
            batches[next % procs].push((l, idx, json));
            next += 1;
        }
    }
    for b in &mut batches {
        // What the budget cuts off is the end of every leg, not some of the legs.
        b.sort_by_key(|(l, idx, _)| (idx * 1000 / prop.legs[*l].count(Mode::Miri, thorough), *l));
    }
    batches.retain(|b| !b.is_empty());
    let budget = if thorough { 2 * 3600 } else { 80 };
    let mut children = vec![];
    for (b, cases) in batches.iter().enumerate() {
        let base = d.out.join(format!("{}-miri-{b}", prop.id));
        let file = base.with_extension("cases");
        let err = base.with_extension("err");
        let outp = base.with_extension("out");
        let text: String = cases
            .iter()
            .map(|(l, _, json)| format!("{}\t{json}\n", prop.legs[*l].name))
            .collect();
        fs::write(&file, text).unwrap();
        let args = ["cases", prop.id, file.to_str().unwrap(), &budget.to_string()];
        let Some(mut cmd) = miri_command(&args, b as u64) else {
            o.error = Some("no Miri".into());
            return o;
        };
        let child = cmd
            .stdout(fs::File::create(&outp).unwrap())
            .stderr(fs::File::create(&err).unwrap())
            .spawn()
            .expect("spawn miri");
        children.push((b, child, err, outp));
    }
    let mut reps: std::collections::BTreeMap<usize, (LegReport, std::collections::HashSet<&str>, u64)> =
        Default::default();
    let deadline = start + Duration::from_secs(budget + 240);
    for (b, mut child, err, outp) in children {
        let end = wait(
            &mut child,
            deadline.saturating_duration_since(Instant::now()),
            || false,
        );
        let text = String::from_utf8_lossy(&fs::read(&err).unwrap_or_default()).into_owned();
        let stdout = fs::read_to_string(&outp).unwrap_or_default();
        let held: Vec<&str> = text.lines().filter_map(|l| l.strip_prefix("HELD ")).collect();
        for ((l, _, json), h) in batches[b].iter().zip(&held) {
            let (rep, seen, ms) = reps.entry(*l).or_default();
            rep.evaluations += 1;
            let mut parts = h.splitn(3, ' ');
            *ms += parts.next().and_then(|p| p.parse().ok()).unwrap_or(0);
            if parts.next() == Some("1") {
                rep.nontrivial += 1;
                seen.insert(json);
                if rep.samples.is_empty() && json.len() < 1500 {
                    rep.samples.push(serde_json::from_str(json).unwrap());
                }
            }
            let labels: std::collections::BTreeMap<String, u64> = parts
                .next()
                .and_then(|p| serde_json::from_str(p).ok())
                .unwrap_or_default();
            for (k, v) in labels {
                *rep.labels.entry(k).or_insert(0) += v;
            }
        }
        if o.failure.is_some() {
            continue;
        }
        let at = batches[b].get(held.len());
        match (end, at) {
            (End::Code(0), _) if text.contains("CASES DONE") => {}
            (End::Code(_), Some((l, idx, json)))
                if text.contains("Undefined Behavior") || stdout.starts_with("FAIL") =>
            {
                let r = isolate(d, prop, Mode::Miri, &prop.legs[*l], seed, *idx);
                o.failure = Some(r.unwrap_or_else(|| Replay {
                    property: prop.id.into(),
                    leg: prop.legs[*l].name.into(),
                    mode: "miri".into(),
                    seed,
                    idx: *idx,
                    message: format!("{}{}", tail(&text), stdout),
                    shrink_steps: 0,
                    case: serde_json::from_str(json).unwrap(),
                }));
            }
            (End::Code(c), _) => o.error = Some(format!("Miri ended with {c}: {}", tail(&text))),
            (End::Signal(s), _) => o.error = Some(format!("Miri died of signal {s}")),
            (End::Timeout, _) => o.error = Some("Miri took too long".into()),
        }
    }
    for (l, (mut rep, seen, ms)) in reps {
        rep.leg = prop.legs[l].name.into();
        rep.mode = "miri".into();
        rep.rule = prop.legs[l].rule.into();
        rep.distinct_nontrivial = seen.len() as u64;
        rep.wall_s = ms as f64 / 1000.0;
        o.legs.push(rep);
    }
    o
}

/// How long the whole check has taken, the builds included.
fn since_start() -> Duration {
    let start = std::env::var("GV_START").ok().and_then(|s| s.parse().ok()).map(Duration::from_secs);
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
    start.map_or(Duration::ZERO, |s| now.saturating_sub(s))
}

/// Generated client programs, many at a time.
fn run_progs(prop: &Prop, thorough: bool, seed: u64, procs: usize) -> Outcome {
    let mut o = Outcome {
        legs: vec![],
        failure: None,
        error: None,
    };
    let start = Instant::now();
    let scale: f64 = std::env::var("GV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    // First what may cross threads, all of it.
    let mut table = LegReport {
        leg: progs::TRAITS.into(),
        mode: "compiler".into(),
        rule: prop.leg(progs::TRAITS).unwrap().rule.into(),
        ..Default::default()
    };
    match progs::trait_table() {
        Err(e) => o.error = Some(e),
        Ok(t) => {
            table.evaluations = t.checked as u64;
            table.nontrivial = t.nontrivial as u64;
            table.distinct_nontrivial = t.nontrivial as u64;
            table.labels.insert("accepted by the compiler".into(), t.accepted as u64);
            table.labels.insert("rejected with u32 too".into(), t.dead as u64);
            table.samples = t.samples;
            if let Some((c, message)) = t.failed {
                o.failure = Some(Replay {
                    property: prop.id.into(),
                    leg: progs::TRAITS.into(),
                    mode: "compiler".into(),
                    seed,
                    idx: 0,
                    message,
                    shrink_steps: 0,
                    case: serde_json::to_value(c).unwrap(),
                });
            }
        }
    }
    table.wall_s = start.elapsed().as_secs_f64();
    o.legs.push(table);
    if o.failure.is_some() || o.error.is_some() {
        return o;
    }
    // Then all pairs of calls, and last random programs.
    let pairs = progs::pairs();
    let (rounds, each) = if thorough { (60, 3000) } else { (3, 850) };
    let each = (each as f64 * scale) as usize;
    let all = (pairs.len() as f64 * scale.min(1.0)) as usize;
    for (name, rounds, each) in [(progs::PAIRS, all.div_ceil(4000), 4000), (progs::NAME, rounds, each)] {
        let leg = prop.leg(name).unwrap();
        let start = Instant::now();
        let mut w = leg.worker();
        let mut rep = LegReport {
            leg: leg.name.into(),
            mode: "miri".into(),
            rule: leg.rule.into(),
            ..Default::default()
        };
        for round in 0..rounds {
            // A quick check ends in time on a slow machine too.
            if !thorough && name == progs::NAME && round > 0 && since_start() > Duration::from_secs(560) {
                break;
            }
            let mut cases: Vec<String> = if name == progs::PAIRS {
                let part = pairs[..all].iter().skip(round * each).take(each);
                part.map(|p| serde_json::to_string(p).unwrap()).collect()
            } else {
                (0..each)
                    .map(|i| w.case_json(&case_id(prop, leg, seed, (round * each + i) as u64)))
                    .collect()
            };
            let b = progs::batch(&cases, procs);
            if std::env::var_os("GV_KEEP").is_some() {
                eprintln!("{name}: {} of {} in {:?}", b.ran, cases.len(), start.elapsed());
            }
            rep.evaluations += b.ran as u64;
            rep.nontrivial += b.nontrivial as u64;
            rep.distinct_nontrivial += b.nontrivial as u64;
            *rep.labels.entry("generated".into()).or_insert(0) += cases.len() as u64;
            *rep.labels.entry("accepted by the compiler and run".into()).or_insert(0) += b.ran as u64;
            if rep.samples.is_empty() {
                rep.samples = b.samples;
            }
            if let Some((i, m)) = b.failed {
                let id = case_id(prop, leg, seed, (round * each + i) as u64);
                let mut last = m;
                let mut case = cases.swap_remove(i);
                let mut shrink_steps = 0;
                if name == progs::NAME {
                    (case, shrink_steps) = leg.shrink_isolated(
                        &id,
                        &mut |j| match leg.replay(j) {
                            Ok((_, Err(m))) if m.contains("Undefined Behavior") => {
                                last = m;
                                true
                            }
                            _ => false,
                        },
                        Duration::from_secs(90),
                    );
                }
                o.failure = Some(Replay {
                    property: prop.id.into(),
                    leg: leg.name.into(),
                    mode: "miri".into(),
                    seed,
                    idx: id.idx,
                    message: last,
                    shrink_steps,
                    case: serde_json::from_str(&case).unwrap(),
                });
            }
            o.error = b.error;
            if o.failure.is_some() || o.error.is_some() {
                break;
            }
        }
        rep.wall_s = start.elapsed().as_secs_f64();
        o.legs.push(rep);
        if o.failure.is_some() || o.error.is_some() {
            break;
        }
    }
    o
}

/// Known findings, `finding: property=<id> id=<probe> <what fails>` per line.
fn findings(d: &Dirs, prop: &str) -> Vec<(String, String)> {
    let text = fs::read_to_string(d.verif.join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("property={prop} id="))?;
            let (id, what) = l.split_once(' ')?;
            Some((id.to_string(), what.to_string()))
        })
        .collect()
}

fn save_replay(d: &Dirs, r: &Replay) -> PathBuf {
    let p = d
        .out
        .join("replays")
        .join(format!("{}-{}-{}-{}.json", r.property, r.leg, r.mode, r.idx));
    fs::write(&p, serde_json::to_vec_pretty(r).unwrap()).unwrap();
    p
}

fn violation(prop: &str, path: &Path, message: &str) {
    for l in message.lines().take(12) {
        println!("  {l}");
    }
    println!("VIOLATION property={prop} replay={}", path.display());
}

pub fn run(prop: &Prop) -> i32 {
    let start = Instant::now();
    let d = dirs();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let workers = std::thread::available_parallelism().map_or(8, |n| n.get());

    let mut violations = 0;
    let mut errors: Vec<String> = vec![];
    let mut notes: Vec<Value> = vec![];
    let mut legs: Vec<LegReport> = vec![];

    // Recorded defects first: each is one fixed input.
    let known = findings(&d, prop.id);
    for probe in &prop.probes {
        let out = Command::new(std::env::current_exe().unwrap())
            .args(["probe", prop.id, probe.name])
            .output()
            .expect("probe");
        let what = match out.status.code() {
            Some(0) => None,
            Some(1) => Some(String::from_utf8_lossy(&out.stdout).trim().to_string()),
            _ => Some(format!("the process ended with {}", out.status)),
        };
        let listed = known.iter().find(|(id, _)| id == probe.name);
        match (&what, listed) {
            (None, _) => {}
            (Some(_), Some((_, text))) => {
                println!("KNOWN-FINDING: property={} {} {}", prop.id, probe.name, text)
            }
            (Some(w), None) => {
                violations += 1;
                let p = d.out.join("replays").join(format!("{}-probe-{}.txt", prop.id, probe.name));
                let _ = fs::write(&p, format!("gv probe {} {}\n{}\n", prop.id, probe.name, w));
                violation(prop.id, &p, w);
            }
        }
        notes.push(json!({"probe": probe.name, "fails": what, "known": listed.is_some()}));
    }

    // Saved inputs that once failed.
    let mut saved = 0u64;
    if let Ok(dir) = fs::read_dir(d.verif.join("regressions").join(prop.id)) {
        let mut files: Vec<PathBuf> = dir.filter_map(|e| e.ok().map(|e| e.path())).collect();
        files.sort();
        for f in files {
            let Some(r) = fs::read(&f)
                .ok()
                .and_then(|b| serde_json::from_slice::<Replay>(&b).ok())
            else {
                continue;
            };
            let Some(leg) = prop.leg(&r.leg) else {
                errors.push(format!("{}: no such leg", f.display()));
                continue;
            };
            saved += 1;
            match run_case(
                &d,
                Mode::Native,
                prop.id,
                leg,
                &r.case.to_string(),
                Duration::from_secs(leg.hang_s),
            ) {
                CaseEnd::Holds => {}
                CaseEnd::Killed => errors.push(format!("{}: killed", f.display())),
                CaseEnd::Fails(m) if m.contains("ended with code") => {
                    errors.push(format!("{}: {m}", f.display()))
                }
                CaseEnd::Fails(m) => {
                    violations += 1;
                    let path = save_replay(&d, &Replay { message: m.clone(), ..r });
                    violation(prop.id, &path, &m);
                }
            }
        }
    }

    if violations == 0 {
        let mut outcomes: Vec<Outcome> = vec![];
        let ok = |os: &Vec<Outcome>| os.iter().all(|o| o.failure.is_none() && o.error.is_none());
        let modes = std::env::var("GV_MODES").ok();
        let wanted = |m: Mode| modes.as_ref().is_none_or(|s| s.contains(m.name()));
        let any = |m: Mode| wanted(m) && prop.legs.iter().any(|l| l.count(m, tier == "thorough") > 0);
        for mode in [Mode::Native].into_iter().chain(Mode::SANITIZERS) {
            if ok(&outcomes) && any(mode) {
                outcomes.push(run_workers(&d, prop, mode, tier, seed, workers));
            }
        }
        if ok(&outcomes) && any(Mode::Miri) {
            outcomes.push(run_miri(&d, prop, tier == "thorough", seed, workers));
        }
        if ok(&outcomes) && wanted(Mode::Miri) && prop.leg(progs::NAME).is_some() {
            outcomes.push(run_progs(prop, tier == "thorough", seed, workers));
        }
        for o in outcomes {
            legs.extend(o.legs);
            if let Some(f) = o.failure {
                violations += 1;
                let path = save_replay(&d, &f);
                violation(prop.id, &path, &f.message);
            }
            errors.extend(o.error);
        }
    }

    let sum = |f: fn(&LegReport) -> u64| legs.iter().map(f).sum::<u64>();
    let samples: Vec<Value> = legs
        .iter()
        .flat_map(|l| {
            l.samples
                .iter()
                .map(|s| json!({"leg": l.leg, "mode": l.mode, "case": s}))
        })
        .collect();
    let rule = legs
        .iter()
        .map(|l| format!("[{} {}] {}", l.leg, l.mode, l.rule))
        .collect::<Vec<_>>()
        .join(" ");
    let per_leg: Vec<Value> = legs
        .iter()
        .map(|l| {
            json!({
                "leg": l.leg, "mode": l.mode, "evaluations": l.evaluations, "nontrivial": l.nontrivial,
                "distinct_nontrivial": l.distinct_nontrivial, "cases_reaching": l.labels,
                "wall_s": l.wall_s,
            })
        })
        .collect();
    let evidence = json!({
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(|l| l.evaluations),
            "distinct_nontrivial": sum(|l| l.distinct_nontrivial),
            "rule": rule,
            "samples": samples,
            "legs": per_leg,
            "saved_inputs_replayed": saved,
            "probes": notes,
        },
        "assumptions": prop.assumptions,
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations,
    });
    fs::write(
        d.verif.join("evidence").join(format!("{}.json", prop.id)),
        serde_json::to_vec_pretty(&evidence).unwrap(),
    )
    .unwrap();

    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s",
        prop.id,
        sum(|l| l.evaluations),
        sum(|l| l.distinct_nontrivial),
        start.elapsed().as_secs_f64()
    );
    if violations > 0 {
        1
    } else if !errors.is_empty() {
        for e in errors {
            eprintln!("error: {e}");
        }
        2
    } else {
        0
    }
}
