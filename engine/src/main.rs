//! symex: symbolic execution of LLVM IR (as emitted by rustc for the harness crate and the
//! contracts it links) with SMT-decided branches and obligations.
mod big;
mod interp;
mod ir;
mod link;
mod parse;
mod sha;
mod solve;
mod term;

use big::Big;
use interp::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}
fn jmodel(m: &[(String, Big)]) -> String {
    format!("{{{}}}", m.iter().map(|(a, b)| format!("{}:\"{}\"", js(a), b)).collect::<Vec<_>>().join(","))
}

#[derive(Default)]
struct Agg {
    paths: u64,
    forks: u64,
    infeasible: u64,
    reverts: u64,
    finished: u64,
    insts: u64,
    max_depth: usize,
    checks: BTreeMap<String, u64>,
    unknown: Vec<String>,
    limits: BTreeMap<String, u64>,
    unsupported: BTreeMap<String, u64>,
    violations: Vec<Violation>,
    reached: BTreeMap<String, Option<Vec<(String, Big)>>>,
    observed: Vec<(String, String)>,
    panics: BTreeMap<String, u64>,
    us: u64,
}
struct Q {
    work: Vec<(usize, Vec<Dec>)>,
    busy: usize,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map(|s| s.parse().expect(k)).unwrap_or(d);
    let ll = get("--ll").expect("--ll FILE");
    let entries: Vec<String> = get("--entry").expect("--entry NAMES").split(',').map(|s| s.to_string()).collect();
    let threads = num("--threads", 8) as usize;
    let t0 = Instant::now();
    let text = std::fs::read(&ll).expect("read IR");
    let m = match parse::P::new(&text).module() {
        Ok(m) => m,
        Err(e) => {
            eprintln!("IR parse error: {}", e);
            std::process::exit(3)
        }
    };
    drop(text);
    let prog = link::link(m);
    let load_ms = t0.elapsed().as_millis();
    eprintln!("loaded {} functions in {} ms", prog.funcs.len(), load_ms);
    let concrete = get("--concrete").map(|f| {
        let mut h = HashMap::new();
        for l in std::fs::read_to_string(f).expect("concrete file").lines() {
            if let Some((a, b)) = l.split_once('=') {
                h.insert(a.trim().to_string(), Big::parse(b.trim()).expect("number"));
            }
        }
        h
    });
    let cfg = Cfg {
        max_insts: num("--max-insts", 60_000_000),
        lin_ms: num("--lin-ms", 10_000),
        nia_ms: num("--nia-ms", 20_000),
        feas_ms: num("--feas-ms", 1_000),
        concrete,
        deadline: Instant::now() + Duration::from_secs(num("--time", 600)),
        witnessed: Mutex::new(HashSet::new()),
        violated: Mutex::new(HashMap::new()),
        only: get("--checks").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default(),
        trace: args.iter().any(|a| a == "--trace"),
    };
    let max_paths = num("--max-paths", u64::MAX);
    let shared = Arc::new(solve::Shared { stats: Default::default(), cache: Mutex::new(HashMap::new()) });
    let ents: Vec<u32> = entries
        .iter()
        .map(|e| {
            *prog.fidx.get(e.as_str()).unwrap_or_else(|| {
                eprintln!("no such entry {}", e);
                std::process::exit(3)
            })
        })
        .collect();
    let q = Mutex::new(Q { work: (0..ents.len()).rev().map(|i| (i, vec![])).collect(), busy: 0 });
    let cv = Condvar::new();
    let aggs: Mutex<Vec<Agg>> = Mutex::new((0..ents.len()).map(|_| Agg::default()).collect());
    let seen: Mutex<Vec<bool>> = Mutex::new(vec![false; prog.funcs.len()]);
    let verbose = args.iter().any(|a| a == "--verbose");
    std::thread::scope(|s| {
        for _ in 0..threads {
            let (prog, cfg, q, cv, aggs, seen, ents, shared) = (&prog, &cfg, &q, &cv, &aggs, &seen, &ents, &shared);
            let entries = &entries;
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, move || {
                    let mut mem = Mem::new(prog);
                    let mut solver = solve::Solver::new(shared.clone());
                    let mut seen_fn = vec![false; prog.funcs.len()];
                    loop {
                        let (e, prefix) = {
                            let mut g = q.lock().unwrap();
                            loop {
                                if let Some(w) = g.work.pop() {
                                    g.busy += 1;
                                    break w;
                                }
                                if g.busy == 0 {
                                    cv.notify_all();
                                    drop(g);
                                    let mut s = seen.lock().unwrap();
                                    for (i, b) in seen_fn.iter().enumerate() {
                                        if *b {
                                            s[i] = true;
                                        }
                                    }
                                    return;
                                }
                                g = cv.wait(g).unwrap();
                            }
                        };
                        let plen = prefix.len();
                        let pt = Instant::now();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            let mut p = Path::new(prog, cfg, &mut mem, &mut solver, &mut seen_fn, prefix);
                            let mut stop = match p.call(ents[e], &[]) {
                                Ok(_) => None,
                                Err(s) => Some(s),
                            };
                            if let Some(Stop::Panic(m)) = &stop {
                                let m = m.clone();
                                if let Err(s) = p.on_panic(&m) {
                                    stop = Some(s);
                                }
                            }
                            p.out.stop = stop;
                            std::mem::take(&mut p.out)
                        }));
                        mem.reset(prog);
                        let mut out = match r {
                            Ok(o) => o,
                            Err(_) => {
                                let mut o = PathOut::default();
                                o.stop = Some(Stop::Unsupported("internal engine panic".into()));
                                o
                            }
                        };
                        {
                            let mut g = q.lock().unwrap();
                            g.busy -= 1;
                            for w in out.pending.drain(..) {
                                g.work.push((e, w));
                            }
                        }
                        cv.notify_all();
                        let mut ag = aggs.lock().unwrap();
                        let a = &mut ag[e];
                        a.paths += 1;
                        a.us += pt.elapsed().as_micros() as u64;
                        if plen > 0 {
                            a.forks += 1;
                        }
                        a.insts += out.insts;
                        a.max_depth = a.max_depth.max(out.decisions);
                        for (c, _) in out.checks {
                            *a.checks.entry(c).or_default() += 1;
                        }
                        for u in out.unknown {
                            if a.unknown.len() < 50 {
                                if verbose {
                                    eprintln!("[{}] unknown: {}", entries[e], u);
                                }
                                a.unknown.push(u)
                            }
                        }
                        for v in out.violations {
                            if verbose {
                                eprintln!("[{}] VIOLATION {} {:?} {:?}", entries[e], v.check, v.model, v.notes);
                            }
                            a.violations.push(v)
                        }
                        for (r, m) in out.reached {
                            let x = a.reached.entry(r).or_insert(None);
                            if m.is_some() {
                                *x = m;
                            }
                        }
                        a.observed.extend(out.observed);
                        if verbose {
                            eprintln!("[{}] path {} ({} insts, {} ms) stop {:?}", entries[e], a.paths, out.insts, pt.elapsed().as_millis(), out.stop);
                        }
                        match out.stop {
                            None | Some(Stop::Halt) => a.finished += 1,
                            Some(Stop::Panic(m)) => {
                                a.reverts += 1;
                                *a.panics.entry(m).or_default() += 1;
                            }
                            Some(Stop::Infeasible) => a.infeasible += 1,
                            Some(Stop::Limit(m)) => *a.limits.entry(m).or_default() += 1,
                            Some(Stop::Unsupported(m)) => *a.unsupported.entry(m).or_default() += 1,
                        }
                        if a.paths >= max_paths {
                            *a.limits.entry("path budget".into()).or_default() += 1;
                            let mut g = q.lock().unwrap();
                            g.work.retain(|w| w.0 != e);
                        }
                    }
                })
                .unwrap();
        }
    });
    let aggs = aggs.into_inner().unwrap();
    let seen = seen.into_inner().unwrap();
    let mut o = String::from("{\n");
    let st = &shared.stats;
    let _ = write!(
        o,
        "\"load_ms\":{},\"wall_ms\":{},\"threads\":{},\"stats\":{{\"lin_queries\":{},\"nia_queries\":{},\"cached\":{},\"unknown\":{},\"solver_ms\":{},\"obligations\":{},\"by_interval\":{}}},\n",
        load_ms,
        t0.elapsed().as_millis(),
        threads,
        st.lin.load(Relaxed),
        st.nia.load(Relaxed),
        st.cached.load(Relaxed),
        st.unknown.load(Relaxed),
        st.us.load(Relaxed) / 1000,
        st.discharged.load(Relaxed),
        st.by_interval.load(Relaxed)
    );
    let fns: Vec<String> = prog.funcs.iter().zip(&seen).filter(|x| *x.1).map(|x| demangle(&x.0.name)).collect();
    let _ = write!(o, "\"functions\":{},\n\"entries\":[\n", jlist(&fns));
    for (i, a) in aggs.iter().enumerate() {
        if i > 0 {
            o.push_str(",\n");
        }
        let jm = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        let _ = write!(
            o,
            "{{\"entry\":{},\"paths\":{},\"finished\":{},\"reverts\":{},\"infeasible\":{},\"insts\":{},\"cpu_ms\":{},\"forks\":{},\"max_decisions\":{},\"checks\":{},\"unknown\":{},\"limits\":{},\"unsupported\":{},\"panics\":{},",
            js(&entries[i]),
            a.paths,
            a.finished,
            a.reverts,
            a.infeasible,
            a.insts,
            a.us / 1000,
            a.forks,
            a.max_depth,
            jm(&a.checks),
            jlist(&a.unknown),
            jm(&a.limits),
            jm(&a.unsupported),
            jm(&a.panics)
        );
        let rs: Vec<String> = a.reached.iter().map(|(k, m)| format!("{}:{}", js(k), m.as_ref().map(|m| jmodel(m)).unwrap_or("null".into()))).collect();
        let vs: Vec<String> = a
            .violations
            .iter()
            .map(|v| format!("{{\"check\":{},\"validated\":{},\"model\":{},\"notes\":{},\"trace\":{}}}", js(&v.check), v.validated, jmodel(&v.model), jlist(&v.notes), jlist(&v.trace)))
            .collect();
        let os: Vec<String> = a.observed.iter().map(|(k, v)| format!("[{},{}]", js(k), js(v))).collect();
        let _ = write!(o, "\"reached\":{{{}}},\"violations\":[{}],\"observed\":[{}]}}", rs.join(","), vs.join(","), os.join(","));
    }
    o.push_str("\n]}\n");
    match get("--out") {
        Some(f) => std::fs::write(f, o).expect("write"),
        None => print!("{}", o),
    }
}
