mod engine;
mod props;
mod supervise;

use std::process::exit;

use engine::{install_panic_hook, run_prop, Journal, Mode, Replay};

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| -> &str { args.get(i).map(|s| s.as_str()).unwrap_or("") };
    let prop = |id: &str| {
        props::get(id).unwrap_or_else(|| {
            eprintln!("no such property {id:?}");
            exit(2)
        })
    };
    install_panic_hook();
    match arg(0) {
        "list" => {
            for p in props::IDS {
                println!("{p}");
            }
        }
        "run" => exit(supervise::run(&prop(arg(1)))),
        "worker" => {
            let p = prop(arg(1));
            let mode = Mode::SANITIZERS
                .into_iter()
                .find(|m| m.name() == arg(2))
                .unwrap_or(Mode::Native);
            let workers = arg(5).parse().unwrap();
            let report = run_prop(
                &p,
                mode,
                arg(3) == "thorough",
                arg(4).parse().unwrap(),
                workers,
                &Journal::create(arg(6)),
            );
            let failed = report.failure.is_some();
            std::fs::write(arg(7), serde_json::to_vec(&report).unwrap()).unwrap();
            exit(failed as i32)
        }
        // Runs one case in this process; its end tells the caller how it went.
        "case" => {
            let p = prop(arg(1));
            let json = std::fs::read_to_string(arg(3)).unwrap();
            match p.leg(arg(2)).expect("leg").replay(&json).expect("case").1 {
                Ok(()) => exit(0),
                Err(e) => {
                    println!("{e}");
                    exit(1)
                }
            }
        }
        // Runs many cases, one per line after its leg's name, in this process, until time is up.
        "cases" => {
            let p = prop(arg(1));
            let text = std::fs::read_to_string(arg(2)).unwrap();
            let budget = std::time::Duration::from_secs(arg(3).parse().unwrap());
            let start = std::time::Instant::now();
            for line in text.lines() {
                let (leg, json) = line.split_once('\t').unwrap();
                let t = std::time::Instant::now();
                if t - start > budget {
                    break;
                }
                eprintln!("CASE {leg}");
                let (cx, r) = p.leg(leg).expect("leg").replay(json).expect("case");
                if let Err(e) = r {
                    println!("FAIL {e}");
                    exit(1)
                }
                let labels = serde_json::to_string(&cx.labels).unwrap();
                eprintln!("HELD {} {} {labels}", t.elapsed().as_millis(), cx.nontrivial as u8);
            }
            eprintln!("CASES DONE");
            exit(0)
        }
        "probe" => {
            let p = prop(arg(1));
            let probe = p.probes.iter().find(|x| x.name == arg(2)).expect("probe");
            match (probe.run)() {
                None => exit(0),
                Some(e) => {
                    println!("{e}");
                    exit(1)
                }
            }
        }
        "replay" => {
            let r: Replay =
                serde_json::from_str(&std::fs::read_to_string(arg(1)).unwrap()).unwrap();
            let p = prop(&r.property);
            println!("{} {} ({}): {}", r.property, r.leg, r.mode, r.case);
            match p.leg(&r.leg).expect("leg").replay(&r.case.to_string()) {
                Ok((_, Ok(()))) => {
                    println!("holds");
                    exit(0)
                }
                Ok((_, Err(e))) => {
                    println!("{e}");
                    exit(1)
                }
                Err(e) => {
                    println!("bad replay file: {e}");
                    exit(2)
                }
            }
        }
        "gen" => {
            let p = prop(arg(1));
            let leg = p.leg(arg(2)).expect("leg");
            let mut w = leg.worker();
            let seed = arg(4).parse().unwrap_or(1);
            for idx in 0..arg(3).parse().unwrap_or(3) {
                println!(
                    "{}",
                    w.case_json(&engine::CaseId {
                        seed,
                        prop: p.id.into(),
                        leg: leg.name.into(),
                        idx
                    })
                );
            }
        }
        _ => {
            eprintln!("usage: gv run|replay|gen|list ...");
            exit(2)
        }
    }
}
