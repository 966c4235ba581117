mod expr;
mod interp;
mod ir;
mod mem;
mod solver;

use interp::*;
use std::sync::atomic::*;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

/// entries in which something did not end
static HANGS: AtomicUsize = AtomicUsize::new(0);

fn main() {
    let mut ll = String::new();
    let mut entries: Vec<(String, Vec<u64>)> = vec![];
    let mut jobs = 8usize;
    let mut par = 1usize;
    let mut max_paths = u64::MAX;
    let mut timeout = 600u64;
    let mut out = String::new();
    let mut max_viol = 4usize;
    let mut limit = 50_000_000u64;
    let mut dump: Option<String> = None;
    let mut dump_every = 1u64;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--ll" => ll = v(),
            "--entry" => {
                let e = v();
                let mut p = e.splitn(2, ':');
                let n = p.next().unwrap().to_string();
                let args = p.next().map(|s| s.split(',').map(|x| x.parse().expect("arg")).collect()).unwrap_or_default();
                entries.push((n, args));
            }
            "--par" => par = v().parse().unwrap(),
            "--jobs" => jobs = v().parse().unwrap(),
            "--max-paths" => max_paths = v().parse().unwrap(),
            "--timeout" => timeout = v().parse().unwrap(),
            "--max-viol" => max_viol = v().parse().unwrap(),
            "--limit" => limit = v().parse().unwrap(),
            "--out" => out = v(),
            "--dump" => dump = Some(v()),
            "--dump-every" => dump_every = v().parse().unwrap(),
            _ => {
                eprintln!("unknown option {}", a);
                std::process::exit(2);
            }
        }
    }
    let m = match ir::Module::load(&ll) {
        Ok(m) => Arc::new(m),
        Err(e) => {
            eprintln!("{}", e);
            std::process::exit(2);
        }
    };
    let deadline = Instant::now() + Duration::from_secs(timeout);
    let nent = entries.len();
    let results: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; nent]));
    let queue = Arc::new(Mutex::new(entries.into_iter().enumerate().collect::<std::collections::VecDeque<_>>()));
    let mut pool = vec![];
    for _ in 0..par.min(nent).max(1) {
        let (m, results, queue, dump) = (m.clone(), results.clone(), queue.clone(), dump.clone());
        pool.push(std::thread::spawn(move || loop {
        let (slot, (entry, args)) = match queue.lock().unwrap().pop_front() {
            Some(x) => x,
            None => return,
        };
        let t0 = Instant::now();
        let sh = Arc::new(Shared {
            q: Mutex::new((vec![Job::root()], 0, false)),
            cv: Condvar::new(),
            hungry: AtomicBool::new(false),
            stop: AtomicBool::new(false),
            paths: AtomicU64::new(0),
            nworkers: AtomicUsize::new(jobs),
            deadline,
            max_paths,
            max_viol,
            viol_keys: Mutex::new(Default::default()),
            total_steps: AtomicU64::new(0),
        });
        let mut hs = vec![];
        let skip = HANGS.load(Ordering::Relaxed) >= 3;
        for i in 0..if skip { 0 } else { jobs } {
            let (m, sh, entry, args, dump) = (m.clone(), sh.clone(), entry.clone(), args.clone(), dump.clone());
            hs.push(
                std::thread::Builder::new()
                    .stack_size(1 << 28)
                    .spawn(move || {
                        let mut e = match Engine::new(m, sh.clone(), i, limit) {
                            Ok(e) => e,
                            Err(s) => {
                                sh.stop.store(true, Ordering::Relaxed);
                                let mut r = Report::default();
                                r.errors.push(s);
                                return r;
                            }
                        };
                        e.sv.dump = dump;
                        e.sv.dump_every = dump_every;
                        e.work(&entry, &args);
                        e.rep
                    })
                    .unwrap(),
            );
        }
        let mut tot = Report::default();
        tot.incomplete = skip;
        for h in hs {
            match h.join() {
                Ok(r) => {
                    tot.paths += r.paths;
                    tot.completed += r.completed;
                    tot.killed += r.killed;
                    tot.panics_ok += r.panics_ok;
                    tot.steps += r.steps;
                    tot.forks += r.forks;
                    tot.asserts += r.asserts;
                    tot.assert_queries += r.assert_queries;
                    for (k, v) in r.covers {
                        *tot.covers.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in r.violations {
                        tot.violations.entry(k).or_insert(v);
                    }
                    tot.funcs.extend(r.funcs);
                    tot.errors.extend(r.errors);
                    tot.max_vars = tot.max_vars.max(r.max_vars);
                    tot.max_span = tot.max_span.max(r.max_span);
                    tot.queries += r.queries;
                    tot.sat += r.sat;
                    tot.unsat += r.unsat;
                    tot.cached += r.cached;
                    tot.solver_us += r.solver_us;
                    tot.max_query_us = tot.max_query_us.max(r.max_query_us);
                    tot.incomplete |= r.incomplete;
                    tot.sample.extend(r.sample);
                }
                Err(p) => {
                    sh.stop.store(true, Ordering::Relaxed);
                    let s = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    tot.errors.push(format!("engine panic: {}", s));
                }
            }
        }
        if tot.violations.values().any(|v| v.kind == "steps") {
            HANGS.fetch_add(1, Ordering::Relaxed);
        }
        
        let mut s = String::from("{");
        s.push_str(&format!("\"entry\":{},\"args\":{:?},", esc(&entry), args));
        s.push_str(&format!(
            "\"paths\":{},\"completed\":{},\"killed\":{},\"panics_ok\":{},\"instructions\":{},\"forks\":{},\"asserts\":{},\"assert_queries\":{},\"max_vars\":{},\"max_span\":{},",
            tot.paths, tot.completed, tot.killed, tot.panics_ok, tot.steps, tot.forks, tot.asserts, tot.assert_queries, tot.max_vars, tot.max_span
        ));
        s.push_str(&format!(
            "\"queries\":{},\"sat\":{},\"unsat\":{},\"cached\":{},\"solver_seconds\":{:.3},\"max_query_ms\":{:.1},\"incomplete\":{},\"seconds\":{:.2},\"z3\":{},",
            tot.queries,
            tot.sat,
            tot.unsat,
            tot.cached,
            tot.solver_us as f64 / 1e6,
            tot.max_query_us as f64 / 1e3,
            tot.incomplete,
            t0.elapsed().as_secs_f64(),
            esc(&solver::version())
        ));
        s.push_str("\"covers\":{");
        s.push_str(&tot.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
        s.push_str("},\"violations\":[");
        s.push_str(
            &tot.violations
                .values()
                .map(|v| {
                    format!(
                        "{{\"kind\":{},\"key\":{},\"msg\":{},\"inputs\":[{}]}}",
                        esc(v.kind),
                        esc(&v.key),
                        esc(&v.msg),
                        v.inputs.iter().map(|(i, w, x)| format!("[{},{},{}]", i, w, x)).collect::<Vec<_>>().join(",")
                    )
                })
                .collect::<Vec<_>>()
                .join(","),
        );
        s.push_str("],\"errors\":[");
        s.push_str(&tot.errors.iter().take(10).map(|e| esc(e)).collect::<Vec<_>>().join(","));
        s.push_str("],\"samples\":[");
        s.push_str(
            &tot.sample
                .iter()
                .map(|(i, o)| {
                    format!(
                        "{{\"inputs\":[{}],\"observed\":{:?}}}",
                        i.iter().map(|(i, w, x)| format!("[{},{},{}]", i, w, x)).collect::<Vec<_>>().join(","),
                        o
                    )
                })
                .collect::<Vec<_>>()
                .join(","),
        );
        s.push_str("],\"functions\":[");
        s.push_str(&tot.funcs.iter().map(|e| esc(e)).collect::<Vec<_>>().join(","));
        s.push_str("]}");
        results.lock().unwrap()[slot] = Some(s);
        }));
    }
    for t in pool {
        t.join().expect("worker");
    }
    let results: Vec<String> = results.lock().unwrap().iter().map(|r| r.clone().unwrap_or_default()).collect();
    let doc = format!("[{}]\n", results.join(",\n"));
    if out.is_empty() {
        print!("{}", doc);
    } else {
        std::fs::write(&out, doc).expect("write");
    }
}
