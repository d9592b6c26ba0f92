mod exec;
mod externs;
mod ir;
mod mem;
mod parse;
mod solver;
mod term;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Job {
    h: usize,
    start: exec::Start,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jinputs(v: &[(String, u32, u128)]) -> String {
    format!("[{}]", v.iter().map(|(n, w, x)| format!("[{},{},{}]", js(n), w, js(&x.to_string()))).collect::<Vec<_>>().join(","))
}

#[derive(Default)]
struct Agg {
    paths: u64,
    pruned: u64,
    forks: u64,
    insts: u64,
    asserts: u64,
    asserts_proved: u64,
    max_path: u64,
    jobs: u64,
    viol: Vec<Violation>,
    viol_counts: BTreeMap<String, u64>,
    errors: BTreeMap<String, u64>,
    covers: BTreeMap<String, u64>,
    cover_inputs: BTreeMap<String, Vec<(String, u32, u128)>>,
    funcs: BTreeSet<usize>,
    samples: Vec<Vec<(String, u32, u128)>>,
    st: solver::Stats,
    wall: f64,
}

static GRACE: Mutex<Option<Instant>> = Mutex::new(None);

fn main() {
    let mut ll = String::new();
    let mut entries: Vec<String> = vec![];
    let mut out = String::new();
    let mut threads = 8usize;
    let mut timeout = 600u64;
    let mut grace_s = 25u64;
    let mut max_steps = 50_000_000u64;
    let mut qto = 20_000u32;
    let mut max_viol = 6usize;
    let mut max_samples = 12usize;
    let mut trace_calls = false;
    let mut tier_arg = 0u64;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--ll" => ll = v(),
            "--entry" => entries.push(v()),
            "--out" => out = v(),
            "--threads" => threads = v().parse().unwrap(),
            "--grace" => grace_s = v().parse().unwrap(),
            "--timeout" => timeout = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--query-timeout" => qto = v().parse().unwrap(),
            "--max-violations" => max_viol = v().parse().unwrap(),
            "--max-samples" => max_samples = v().parse().unwrap(),
            "--trace-calls" => trace_calls = true,
            "--tier" => tier_arg = v().parse().unwrap(),
            x => panic!("argument {}", x),
        }
    }
    let t0 = Instant::now();
    let src = std::fs::read(&ll).expect("read ll");
    let module = match ir::Module::load(src) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("parse error: {}", e);
            std::process::exit(3);
        }
    };
    let load = t0.elapsed().as_secs_f64();
    let deadline = Instant::now() + Duration::from_secs(timeout);
    let mut ids = vec![];
    for e in &entries {
        match module.fn_by_name.get(e) {
            Some(&i) => ids.push(i),
            None => {
                eprintln!("no such entry {}", e);
                std::process::exit(3);
            }
        }
    }
    let queue: Mutex<VecDeque<Job>> = Mutex::new(ids.iter().enumerate().map(|(h, _)| Job { h, start: Default::default() }).collect());
    let active = AtomicUsize::new(0);
    let idle_wanted = AtomicUsize::new(0);
    let aggs: Vec<Mutex<Agg>> = entries.iter().map(|_| Mutex::new(Agg::default())).collect();
    let stopped: Vec<AtomicBool> = entries.iter().map(|_| AtomicBool::new(false)).collect();
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || {
                    loop {
                        let job = {
                            let mut q = queue.lock().unwrap();
                            let j = q.pop_front();
                            if j.is_some() {
                                active.fetch_add(1, Ordering::SeqCst);
                            }
                            j
                        };
                        let job = match job {
                            Some(j) => j,
                            None => {
                                if active.load(Ordering::SeqCst) == 0 {
                                    return;
                                }
                                idle_wanted.fetch_add(1, Ordering::SeqCst);
                                std::thread::sleep(Duration::from_millis(3));
                                idle_wanted.fetch_sub(1, Ordering::SeqCst);
                                continue;
                            }
                        };
                        let h = job.h;
                        if stopped[h].load(Ordering::SeqCst) {
                            active.fetch_sub(1, Ordering::SeqCst);
                            continue;
                        }
                        let js = Instant::now();
                        let wanted = || queue.lock().unwrap().len() < threads && idle_wanted.load(Ordering::Relaxed) > 0;
                        let give = |steps: u64, vals: Vec<u128>, split_at: Vec<u64>| queue.lock().unwrap().push_back(Job { h, start: exec::Start { steps, vals, split_at } });
                        let mut ex = Exec {
                            m: &module,
                            ar: term::Arena::new(),
                            sv: solver::Solver::new(qto),
                            fns: Default::default(),
                            base: None,
                            work: vec![],
                            rep: Report::default(),
                            lim: Limits { max_steps, max_violations: max_viol, max_samples, deadline, grace: &GRACE, grace_s },
                            wanted: &wanted,
                            give: &give,
                            start: job.start,
                            pause_at: u64::MAX,
                            trace_calls,
                            args: vec![tier_arg],
                        };
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.explore(ids[h])));
                        let mut a = aggs[h].lock().unwrap();
                        if r.is_err() {
                            *a.errors.entry("executor panicked".into()).or_insert(0) += 1;
                        }
                        let rep = std::mem::take(&mut ex.rep);
                        a.paths += rep.paths;
                        a.pruned += rep.pruned;
                        a.forks += rep.forks;
                        a.insts += rep.insts;
                        a.asserts += rep.asserts;
                        a.asserts_proved += rep.asserts_proved;
                        a.max_path = a.max_path.max(rep.max_path_insts);
                        a.jobs += 1;
                        for v in rep.violations {
                            if a.viol.iter().filter(|x| x.msg == v.msg).count() < 2 {
                                a.viol.push(v);
                            }
                        }
                        for (k, n) in rep.viol_counts {
                            *a.viol_counts.entry(k).or_insert(0) += n;
                        }
                        for (k, v) in rep.errors {
                            *a.errors.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in rep.covers {
                            *a.covers.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in rep.cover_inputs {
                            a.cover_inputs.entry(k).or_insert(v);
                        }
                        a.funcs.extend(rep.funcs);
                        if a.samples.len() < max_samples {
                            a.samples.extend(rep.samples.into_iter().take(2));
                        }
                        let s = &ex.sv.stats;
                        a.st.queries += s.queries;
                        a.st.sat += s.sat;
                        a.st.unsat += s.unsat;
                        a.st.unknown += s.unknown;
                        a.st.cache_hits += s.cache_hits;
                        a.st.time += s.time;
                        a.st.max_time = a.st.max_time.max(s.max_time);
                        a.wall += js.elapsed().as_secs_f64();
                        if a.viol.iter().filter(|v| !v.msg.starts_with("[K:")).count() >= max_viol {
                            stopped[h].store(true, Ordering::SeqCst);
                        }
                        drop(a);
                        active.fetch_sub(1, Ordering::SeqCst);
                    }
                })
                .unwrap();
        }
    });
    let mut o = String::new();
    o.push_str(&format!("{{\"solver\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"harnesses\":[", js(&solver::version()), load, t0.elapsed().as_secs_f64()));
    for (i, e) in entries.iter().enumerate() {
        let a = aggs[i].lock().unwrap();
        if i > 0 {
            o.push(',');
        }
        let repo_fns: BTreeSet<String> = a
            .funcs
            .iter()
            .map(|&f| &module.funcs[f].name)
            .filter(|n| n.contains("polodb") || n.contains("h_"))
            .map(|n| demangle(n))
            .collect();
        o.push_str(&format!(
            "{{\"entry\":{},\"paths\":{},\"pruned\":{},\"forks\":{},\"insts\":{},\"asserts\":{},\"asserts_proved\":{},\"max_path_insts\":{},\"jobs\":{},\"stopped\":{},\"cpu_s\":{:.2},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},",
            js(e), a.paths, a.pruned, a.forks, a.insts, a.asserts, a.asserts_proved, a.max_path, a.jobs,
            stopped[i].load(Ordering::SeqCst), a.wall, a.st.queries, a.st.sat, a.st.unsat, a.st.unknown, a.st.cache_hits, a.st.time, a.st.max_time
        ));
        o.push_str(&format!("\"errors\":{{{}}},", a.errors.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
        o.push_str(&format!("\"covers\":{{{}}},", a.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
        o.push_str(&format!("\"cover_inputs\":{{{}}},", a.cover_inputs.iter().map(|(k, v)| format!("{}:{}", js(k), jinputs(v))).collect::<Vec<_>>().join(",")));
        o.push_str(&format!("\"viol_counts\":{{{}}},", a.viol_counts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
        o.push_str(&format!("\"nfuncs\":{},\"funcs\":[{}],", a.funcs.len(), repo_fns.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
        o.push_str(&format!("\"samples\":[{}],", a.samples.iter().map(|s| jinputs(s)).collect::<Vec<_>>().join(",")));
        o.push_str(&format!(
            "\"violations\":[{}]}}",
            a.viol
                .iter()
                .map(|v| format!(
                    "{{\"kind\":{},\"msg\":{},\"trace\":[{}],\"inputs\":{}}}",
                    js(&v.kind),
                    js(&v.msg),
                    v.trace.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                    jinputs(&v.inputs)
                ))
                .collect::<Vec<_>>()
                .join(",")
        ));
    }
    o.push_str("]}\n");
    if out.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(&out, o).unwrap();
    }
    // skip tearing down large structures
    std::process::exit(0);
}
