mod clock;
#[macro_use]
mod exec;
mod fault;
mod dynp;
mod helper;
mod http;
mod val;
mod world;

use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufWriter, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Runs one scenario in a thread of its own and returns its events.
fn run_scenario(sc: Value, base: u32, exotic: bool) -> Vec<Value> {
    let t = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            if sc["meta"]["ty"].is_object() {
                return helper::run(&sc);
            }
            let mut w = world::World::default();
            for p in sc["procs"].as_array().unwrap_or(&vec![]) {
                w.schemas.push(Arc::new(dynp::Schema::parse(p)));
            }
            if let Some(o) = sc["plans"].as_object() {
                for (k, v) in o {
                    w.plans.insert(k.clone(), v.clone());
                }
            }
            for (i, p) in sc["proc_plans"].as_array().unwrap_or(&vec![]).iter().enumerate() {
                if !p.is_null() {
                    w.proc_plans.insert(i, p.clone());
                }
            }
            world::set_local(Some(w));
            clock::freeze();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut x = exec::Exec::new(base, exotic);
                x.run(sc["ops"].as_array().unwrap());
                let dead = x.dead;
                if dead {
                    // The scheduler must not be used any more after a panic.
                    std::mem::forget(x);
                }
            }));
            let w = world::set_local(None).unwrap();
            let mut log = w.log;
            if let Err(e) = r {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                log.push(json!({"e": "harness_error", "m": m}));
            }
            log
        })
        .unwrap();
    t.join().unwrap_or_else(|_| vec![json!({"e": "harness_error", "m": "thread"})])
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args[2], &args[3], args.get(4).map_or(8, |s| s.parse().unwrap())),
        _ => panic!("usage: run SCENARIOS TRACES [THREADS]"),
    }
}

/// Executes all scenarios and writes one trace per line as soon as it is complete, preceded by a
/// line for its start (so that a crash of the process can be attributed).
fn run(input: &str, output: &str, threads: usize) {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("HARNESS_VERBOSE").is_ok() {
            eprintln!("{i}");
        }
    }));
    let exotic = std::net::TcpListener::bind("127.77.77.77:21999").is_ok();
    let base: u32 = std::env::var("HARNESS_BASE").map_or(0, |s| s.parse().unwrap());
    let input = std::fs::File::open(input).unwrap();
    let scs: Vec<Value> = std::io::BufReader::new(input)
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect();
    let scs = Arc::new(scs);
    let next = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(BufWriter::new(std::fs::File::create(output).unwrap())));
    let running: Arc<Mutex<HashMap<usize, Instant>>> = Arc::new(Mutex::new(HashMap::new()));
    let live = Arc::new(AtomicUsize::new(threads));
    for _ in 0..threads {
        let (scs, next, out, running, live) =
            (scs.clone(), next.clone(), out.clone(), running.clone(), live.clone());
        std::thread::spawn(move || {
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                // After some exceeded time limits the rest is skipped.
                if i >= scs.len() || exec::HANGS.load(Ordering::SeqCst) >= 4 {
                    break;
                }
                {
                    let mut out = out.lock().unwrap();
                    writeln!(out, "{}", json!({"start": scs[i]["id"]})).unwrap();
                    out.flush().unwrap();
                }
                running.lock().unwrap().insert(i, Instant::now());
                let log = run_scenario(scs[i].clone(), base + i as u32, exotic);
                if running.lock().unwrap().remove(&i).is_none() {
                    return; // has been given up
                }
                let mut out = out.lock().unwrap();
                writeln!(out, "{}", json!({"id": scs[i]["id"], "events": log})).unwrap();
            }
            live.fetch_sub(1, Ordering::SeqCst);
        });
    }
    while live.load(Ordering::SeqCst) > 0 {
        std::thread::sleep(Duration::from_millis(5));
        let mut running = running.lock().unwrap();
        let late: Vec<usize> =
            running.iter().filter(|(_, t)| t.elapsed().as_secs() > 100).map(|(i, _)| *i).collect();
        for i in late {
            running.remove(&i);
            live.fetch_sub(1, Ordering::SeqCst);
            exec::HANGS.fetch_add(4, Ordering::SeqCst);
            let mut out = out.lock().unwrap();
            writeln!(out, "{}", json!({"id": scs[i]["id"], "events": [{"e": "stuck"}]})).unwrap();
        }
    }
    out.lock().unwrap().flush().unwrap();
    std::process::exit(0);
}
