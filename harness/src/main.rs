#![allow(non_local_definitions, dead_code, unused_imports)]
mod api;
mod dl;
mod fld;
mod oracle;
mod rngs;
mod sess;
mod toy;
mod wide;
use std::io::{BufRead, Write};

/// ripp-conform SCENARIOS OUTDIR SEED FIRST LANES STEP: executes every STEP-th scenario from
/// FIRST, FIRST + 1, ... FIRST + LANES - 1 on (each of these at the same time as the others, on
/// threads of its own) and writes the recorded events of scenarios of the same modulus to
/// OUTDIR/<P>-<number>.ndjson.  With LANES = 0: one scenario at a time, each in a process of its
/// own, on one thread.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let (scen, out, seed) = (&a[1], &a[2], a[3].parse::<u64>().unwrap());
    let (first, lanes, step) = (a[4].parse::<usize>().unwrap(), a[5].parse::<usize>().unwrap(), a[6].parse::<usize>().unwrap());
    if lanes <= 1 {
        oracle::ALONE.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    if lanes == 0 {
        return isolated(scen, out, seed, first, step);
    }
    std::thread::scope(|sc| {
        for l in 0..lanes {
            sc.spawn(move || {
                oracle::enter_lane(l);
                oracle::pool(3).install(|| lane(scen, out, seed, first + l, step))
            });
        }
    });
}
fn scenarios(scen: &str, first: usize, step: usize) -> impl Iterator<Item = serde_json::Value> {
    let f = std::io::BufReader::new(std::fs::File::open(scen).unwrap());
    f.lines().enumerate().filter(move |(i, _)| i % step == first).map(|(_, line)| serde_json::from_str(&line.unwrap()).unwrap())
}

fn lane(scen: &str, out: &str, seed: u64, first: usize, step: usize) {
    let mut files: std::collections::BTreeMap<i64, Vec<String>> = Default::default();
    for sc in scenarios(scen, first, step) {
        // progress: names the scenario if the code under test never returns
        std::fs::write(format!("{out}/at-{first}"), sc["id"].to_string()).unwrap();
        files.entry(sess::gi(&sc, "P")).or_default().extend(perform(&sc, seed));
    }
    for (p, lines) in files {
        let mut w = std::io::BufWriter::new(std::fs::File::create(format!("{out}/{p}-{first}.ndjson")).unwrap());
        for l in lines {
            writeln!(w, "{l}").unwrap();
        }
    }
    let _ = std::fs::remove_file(format!("{out}/at-{first}"));
}
fn perform(sc: &serde_json::Value, seed: u64) -> Vec<String> {
    let mut log = sess::Log { out: vec![], id: 0, calls: 0 };
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sess::run_pooled(sc, seed, &mut log))) {
        let s = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if s.contains("layout of proofs") {
            log.ev(serde_json::json!({"e": "layout"}));
            return log.out;
        }
        eprintln!("HARNESS ERROR in scenario {}: {s}", sc["id"]);
        std::process::exit(3);
    }
    log.out
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
}
fn isolated(scen: &str, out: &str, seed: u64, first: usize, step: usize) {
    oracle::APART.store(true, std::sync::atomic::Ordering::Relaxed);
    // tables of logarithms, used by all; nothing of the code under test has run
    for p in [7, 46337] {
        toy::warm(p);
    }
    for sc in scenarios(scen, first, step) {
        std::fs::write(format!("{out}/at-{first}"), sc["id"].to_string()).unwrap();
        let pid = unsafe { fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let lines = std::thread::spawn({
                let sc = sc.clone();
                move || {
                    oracle::enter_lane(0);
                    oracle::pool(1).install(|| perform(&sc, seed))
                }
            })
            .join()
            .unwrap();
            let path = format!("{out}/{}-{first}.ndjson", sess::gi(&sc, "P"));
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(path).unwrap();
            f.write_all((lines.join("\n") + "\n").as_bytes()).unwrap();
            std::process::exit(0);
        }
        let mut status = 0;
        unsafe { waitpid(pid, &mut status, 0) };
        if status != 0 {
            // exit code, or the number of the signal
            std::process::exit(if status & 127 == 0 { status >> 8 & 255 } else { 5 });
        }
    }
    let _ = std::fs::remove_file(format!("{out}/at-{first}"));
}
