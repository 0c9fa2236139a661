//! Runs the harnesses of a property, replays candidates natively, reports.
use crate::cx::{Cx, Sc, St};
use crate::explore::*;
use crate::sym::{self, Sym};
use std::collections::{BTreeMap, HashMap};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone)]
pub struct Harness {
    pub prop: &'static str,
    pub name: &'static str,
    pub sym: fn(&mut Cx<Sym>),
    pub f64: fn(&mut Cx<f64>),
    pub f32: Option<fn(&mut Cx<f32>)>,
    pub cfg: Cfg,
    /// thorough tier only
    pub deep: bool,
    /// native cross-check runs
    pub cross: u32,
    /// what is encoded and the bound, for the evidence
    pub note: &'static str,
}

/// `h!(PROP, function, "functions encoded; bounds" [, cfg tweak])`
#[macro_export]
macro_rules! h {
    ($p:expr, $f:ident, $note:expr) => {
        $crate::Harness {
            prop: $p,
            name: stringify!($f),
            sym: $f::<$crate::Sym>,
            f64: $f::<f64>,
            f32: None,
            cfg: $crate::Cfg::default(),
            deep: false,
            cross: 24,
            note: $note,
        }
    };
    ($p:expr, $f:ident, $note:expr, |$c:ident| $b:expr) => {{
        let mut x = $crate::h!($p, $f, $note);
        {
            let $c = &mut x;
            $b;
        }
        x
    }};
}

#[derive(Default, Clone)]
struct Out {
    name: String,
    stats: Stats,
    reproduced: Vec<(Candidate, St, Vec<String>)>,
    unreproduced: Vec<Candidate>,
    errors: Vec<String>,
    complete: bool,
    unfinished: bool,
    wall: f64,
    cross_ok: u32,
    cross_bad: Vec<String>,
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> Result<PathEnd, String> {
    match e.downcast::<PathEnd>() {
        Ok(p) => Ok(*p),
        Err(e) => Err(if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }),
    }
}

fn short(s: &str) -> String {
    s.chars().take(120).collect()
}

/// Native run; Ok(state) or Err(reason it does not count).
fn native(h: &Harness, st: St) -> Result<St, ()> {
    fn go<S: Sc>(f: fn(&mut Cx<S>), st: St) -> Result<St, ()> {
        let mut cx = Cx::<S>::new(st);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
        match r {
            Ok(()) => Ok(cx.st),
            Err(e) => match panic_text(e) {
                Ok(PathEnd::Infeasible) => {
                    // checks before the path ended still count
                    if cx.st.failures.is_empty() { Err(()) } else { Ok(cx.st) }
                }
                Ok(_) => Err(()),
                Err(m) => {
                    cx.st.failures.push(format!("panic: {}", short(&m)));
                    Ok(cx.st)
                }
            },
        }
    }
    match (h.f32, h.cfg.fp) {
        (Some(f), Some((8, _))) => go::<f32>(f, st),
        _ => go::<f64>(h.f64, st),
    }
}
fn label_of(f: &str) -> String {
    if f.starts_with("panic: ") { f.to_string() } else { f.split(": ").next().unwrap_or("").to_string() }
}

fn replay(h: &Harness, c: &Candidate, thorough: bool) -> Option<(St, Vec<String>)> {
    let tol = if h.cfg.fp.is_some() { 0.0 } else { h.cfg.check_tol };
    let want = c.label.clone();
    let mut rng: u64 = 0x1234_5678_9abc_def1;
    for i in 0..h.cfg.replay_tries {
        let mut vars = c.vars.clone();
        if i > 0 && i < 60 {
            for v in vars.values_mut() {
                match i % 4 {
                    0 => *v = (*v * 8.0).round() / 8.0,
                    1 => *v *= 1.0 + (nice(&mut rng, -0.05, 0.05)),
                    2 => *v += nice(&mut rng, -0.1, 0.1),
                    _ => *v = (*v * 1024.0).round() / 1024.0,
                }
            }
        } else if i >= 60 {
            vars.clear();
        }
        let st = St {
            vars,
            choices: c.choices.clone(),
            tol,
            rng: rng ^ 0x5555_aaaa,
            tier_thorough: thorough,
            random_choices: i > 1500,
            wide: i % 2 == 1,
            ..St::default()
        };
        let st = if i > 1500 { St { choices: vec![], ..st } } else { st };
        next_rand(&mut rng);
        if let Ok(r) = native(h, st) {
            let hit: Vec<String> = r.failures.iter().filter(|f| label_of(f) == want || (i >= 20)).cloned().collect();
            if !hit.is_empty() {
                return Some((r, hit));
            }
        }
        if h.cfg.fp.is_some() && i > 60 && i < 1000 && c.vars.len() > 6 {
            continue;
        }
    }
    None
}

fn run_one(h: &Harness, tier: Tier, seed: u64, deadline: Instant) -> Out {
    let t0 = Instant::now();
    let mut out = Out { name: h.name.to_string(), ..Out::default() };
    let thorough = tier == Tier::Thorough;
    let mut cfg = h.cfg.clone();
    cfg.seed = seed;
    if thorough {
        cfg.max_paths *= 10;
        cfg.max_secs = 720.0;
        cfg.check_ms *= 3;
        cfg.feas_ms *= 2;
    }
    let limit = cfg.max_secs;
    ENG.with(|e| *e.borrow_mut() = Some(Engine::new(cfg.clone())));
    let mut work: Vec<Vec<Dec>> = vec![vec![]];
    let mut complete = true;
    while let Some(prefix) = work.pop() {
        if eng(|e| e.stats.paths) as usize >= cfg.max_paths || t0.elapsed().as_secs_f64() > limit || Instant::now() > deadline {
            complete = false;
            break;
        }
        let plen = prefix.len();
        eng(|e| {
            e.fp.clear();
            e.begin_path(prefix)
        });
        sym::reset(&cfg);
        let mut cx = Cx::<Sym>::new(St { tier_thorough: thorough, ..St::default() });
        let r = catch_unwind(AssertUnwindSafe(|| (h.sym)(&mut cx)));
        eng(|e| {
            e.stats.paths += 1;
            e.stats.max_depth = e.stats.max_depth.max(e.trace.len() as u64);
            if e.trace.len() < plen {
                e.stats.errors.push("decision replay came up short".into());
            }
        });
        match r {
            Ok(()) => {}
            Err(e) => match panic_text(e) {
                Ok(PathEnd::Infeasible) => eng(|e| e.stats.paths_infeasible += 1),
                Ok(PathEnd::TooBig(s)) => eng(|e| e.stats.errors.push(format!("expression too large ({s})"))),
                Ok(PathEnd::Budget) => eng(|e| e.stats.errors.push("budget".into())),
                Ok(PathEnd::Unsupported(s)) => eng(|e| e.stats.errors.push(format!("unsupported: {s}"))),
                Err(m) => eng(|e| e.panic_candidate(&short(&m))),
            },
        }
        if std::env::var("SYMEX_PATHS").is_ok() {
            eng(|e| eprintln!("{} path {} depth {} t={:.1} q={} ", h.name, e.stats.paths, e.trace.len(), t0.elapsed().as_secs_f64(), e.pool.queries));
        }
        work.extend(eng(|e| std::mem::take(&mut e.work)));
        if eng(|e| e.stats.errors.len() > 40) {
            complete = false;
            break;
        }
        // a reproduced violation settles the harness
        let cands: Vec<Candidate> = eng(|e| std::mem::take(&mut e.cands));
        for c in cands {
            if out.reproduced.len() >= 3 || out.unreproduced.iter().filter(|u| u.label == c.label).count() > 3 || out.reproduced.iter().any(|r| r.0.label == c.label) {
                if !out.reproduced.iter().any(|r| r.0.label == c.label) {
                    out.unreproduced.push(c);
                }
                continue;
            }
            match replay(h, &c, thorough) {
                Some((st, hit)) => out.reproduced.push((c, st, hit)),
                None => out.unreproduced.push(c),
            }
        }
        if !out.reproduced.is_empty() && t0.elapsed().as_secs_f64() > 20.0 {
            complete = false;
            break;
        }
    }
    eng(|e| {
        e.stats.solver_queries = e.pool.queries;
        e.stats.solver_time = e.pool.time;
        e.stats.answers = e.pool.by_answer;
        e.stats.solver_errors = e.pool.errors;
        out.stats = e.stats.clone();
    });
    ENG.with(|e| *e.borrow_mut() = None);
    // native cross-check of the encoding
    let mut rng: u64 = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let tol = if h.cfg.fp.is_some() { 0.0 } else { h.cfg.check_tol.max(1e-6) };
    for _ in 0..h.cross * 6 {
        if out.cross_ok >= h.cross {
            break;
        }
        next_rand(&mut rng);
        let st = St { tol, rng, random_choices: true, tier_thorough: thorough, ..St::default() };
        if let Ok(r) = native(h, st) {
            if r.failures.is_empty() {
                if !r.passed.is_empty() {
                    out.cross_ok += 1;
                }
            } else if out.cross_bad.len() < 3 {
                out.cross_bad.push(format!("{} with {:?} choices {:?}", r.failures[0], r.vars, r.used_choices));
            }
        }
    }
    out.complete = complete;
    out.errors = out.stats.errors.clone();
    out.wall = t0.elapsed().as_secs_f64();
    out
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

fn usage() -> ! {
    eprintln!("usage: BIN PROPERTY [quick|thorough] [--only NAME] | BIN --replay FILE");
    std::process::exit(2)
}

/// Entry point of a harness binary.
pub fn main_with(all: Vec<Harness>) {
    let args: Vec<String> = std::env::args().collect();
    let verbose = std::env::var("SYMEX_PANIC").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        if verbose && i.payload().downcast_ref::<PathEnd>().is_none() {
            eprintln!("{i}");
        }
    }));
    if args.len() < 2 {
        usage();
    }
    if args[1] == "--list" {
        for h in &all {
            println!("{} {} {}", h.prop, h.name, h.note);
        }
        return;
    }
    if args[1] == "--replay" {
        std::process::exit(replay_file(&all, args.get(2).map(|s| s.as_str()).unwrap_or_else(|| usage())));
    }
    let prop = args[1].clone();
    let tier = match args.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let only = args.iter().position(|a| a == "--only").map(|i| args[i + 1].clone());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let hs: Vec<Harness> = all
        .into_iter()
        .filter(|h| h.prop == prop && (tier == Tier::Thorough || !h.deep) && only.as_ref().is_none_or(|o| h.name == o))
        .collect();
    if hs.is_empty() {
        eprintln!("no harness for {prop}");
        std::process::exit(2);
    }
    let t0 = Instant::now();
    let secs: u64 = std::env::var("SYMEX_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 420 } else { 740 });
    let deadline = t0 + std::time::Duration::from_secs(secs);
    let queue = Mutex::new((0..hs.len()).collect::<Vec<_>>());
    let results: Mutex<BTreeMap<usize, Out>> = Mutex::new(BTreeMap::new());
    // a path whose arithmetic outgrows the time limit cannot be interrupted: report without it
    let hard = deadline + std::time::Duration::from_secs(60);
    let done = std::sync::atomic::AtomicUsize::new(0);
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8).min(hs.len());
    std::thread::scope(|s| {
        let (results_w, hs_w, done_w, prop_w) = (&results, &hs, &done, &prop);
        let partial = only.is_some();
        s.spawn(move || {
            while done_w.load(std::sync::atomic::Ordering::SeqCst) < nthreads {
                std::thread::sleep(std::time::Duration::from_millis(20));
                if Instant::now() > hard {
                    let mut r = std::mem::take(&mut *results_w.lock().unwrap());
                    for (i, h) in hs_w.iter().enumerate() {
                        r.entry(i).or_insert_with(|| Out { name: h.name.into(), unfinished: true, ..Out::default() });
                    }
                    let code = report(prop_w, tier, seed, hs_w, &r, t0.elapsed().as_secs_f64(), partial);
                    std::process::exit(code);
                }
            }
        });
        let done = &done;
        for _ in 0..nthreads {
            let (queue, results, hs) = (&queue, &results, &hs);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let i = {
                            let mut q = queue.lock().unwrap();
                            if q.is_empty() {
                                done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                                break;
                            }
                            q.remove(0)
                        };
                        let o = match catch_unwind(AssertUnwindSafe(|| run_one(&hs[i], tier, seed, deadline))) {
                            Ok(o) => o,
                            Err(e) => Out {
                                name: hs[i].name.into(),
                                errors: vec![format!("driver failure: {}", panic_text(e).err().unwrap_or_default())],
                                ..Out::default()
                            },
                        };
                        eprintln!(
                            "[{}] {} paths={} checks={} (normal {}, solver {}) q={} st={:.1}s wall={:.1}s cross={} viol={} unrep={} unk={} err={}{}",
                            hs[i].prop,
                            o.name,
                            o.stats.paths,
                            o.stats.checks,
                            o.stats.discharged_normal,
                            o.stats.discharged_solver,
                            o.stats.solver_queries,
                            o.stats.solver_time,
                            o.wall,
                            o.cross_ok,
                            o.reproduced.len(),
                            o.unreproduced.len(),
                            o.stats.unknown.len(),
                            o.errors.len(),
                            if o.complete { "" } else { " TRUNCATED" }
                        );
                        results.lock().unwrap().insert(i, o);
                    }
                })
                .unwrap();
        }
    });
    let results = results.into_inner().unwrap();
    let code = report(&prop, tier, seed, &hs, &results, t0.elapsed().as_secs_f64(), only.is_some());
    std::process::exit(code);
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn report(prop: &str, tier: Tier, seed: u64, hs: &[Harness], results: &BTreeMap<usize, Out>, wall: f64, partial: bool) -> i32 {
    let dir = verif_dir();
    let known: Vec<(String, String, String)> = std::fs::read_to_string(format!("{dir}/known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.to_string();
            let h = it.next()?.strip_prefix("at=")?.to_string();
            Some((p, h, it.next().unwrap_or("").to_string()))
        })
        .collect();
    let mut violations = 0;
    let mut inconclusive: Vec<String> = vec![];
    // what was left out of the exploration: reported as a bound, not as an answer
    let mut left_out: Vec<String> = vec![];
    let mut lines: Vec<String> = vec![];
    for (i, o) in results {
        for (k, (c, st, hit)) in o.reproduced.iter().enumerate() {
            let at = format!("{}/{}", o.name, label_of(&hit[0]).replace(' ', "_"));
            if let Some(kf) = known.iter().find(|f| f.0 == prop && f.1 == at) {
                lines.push(format!("KNOWN-FINDING: property={prop} {} {}", kf.1, kf.2));
                continue;
            }
            violations += 1;
            let rp = format!("{dir}/evidence/replay");
            let _ = std::fs::create_dir_all(&rp);
            let path = format!("{rp}/{prop}-{}-{k}.txt", o.name);
            let mut t = format!("property {prop}\nharness {}\nlabel {}\nwhy {}\nencodes {}\n", o.name, c.label, c.why, hs[*i].note);
            t.push_str(&format!("thorough {}\n", tier == Tier::Thorough));
            for (n, v) in &st.vars {
                t.push_str(&format!("var {} {:e} {:#018x}\n", n, v, v.to_bits()));
            }
            t.push_str(&format!("choices {}\n", st.used_choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")));
            for f in hit {
                t.push_str(&format!("native-failure {f}\n"));
            }
            t.push_str(&format!("# replay with: bash {dir}/check.sh --replay {path}\n"));
            let _ = std::fs::write(&path, t);
            println!("VIOLATION property={prop} replay={path}");
            println!("  {} :: {}", o.name, hit[0]);
        }
        if o.reproduced.is_empty() {
            for c in &o.unreproduced {
                inconclusive.push(format!("{}: counterexample did not reproduce natively: {} ({}) {:?} choices {:?}", o.name, c.label, c.why, c.vars, c.choices));
            }
        }
        let few = o.stats.unknown.len() as u64 * 20 <= o.stats.checks as u64;
        for u in &o.stats.unknown {
            let t = format!("{}: {u}", o.name);
            if few { left_out.push(t) } else { inconclusive.push(t) }
        }
        for e in &o.errors {
            inconclusive.push(format!("{}: {e}", o.name));
        }
        if o.unfinished {
            left_out.push(format!("{}: not finished within the time limit", o.name));
            continue;
        }
        if !o.complete && o.reproduced.is_empty() {
            left_out.push(format!("{}: exploration stopped at its limit after {} paths", o.name, o.stats.paths));
        }
        if o.reproduced.is_empty() {
            if o.stats.witnessed.is_empty() && o.errors.is_empty() {
                inconclusive.push(format!("{}: vacuous, no check was reached with a witness", o.name));
            }
            for l in o.stats.unwitnessed.keys() {
                if !o.stats.witnessed.contains_key(l) {
                    left_out.push(format!("{}: check {l} never reached with a concrete witness", o.name));
                }
            }
            for b in &o.cross_bad {
                inconclusive.push(format!("{}: native run disagrees with the encoding: {b}", o.name));
            }
            if o.stats.solver_errors > 0 {
                inconclusive.push(format!("{}: {} solver errors", o.name, o.stats.solver_errors));
            }
        }
    }
    lines.sort();
    lines.dedup();
    for l in &lines {
        println!("{l}");
    }
    // evidence
    let sum = |f: &dyn Fn(&Out) -> u64| results.values().map(|o| f(o)).sum::<u64>();
    let paths = sum(&|o| o.stats.paths - o.stats.paths_infeasible);
    let decs = sum(&|o| o.stats.decisions);
    let checks = sum(&|o| o.stats.checks);
    let mut assumptions: Vec<String> = vec![];
    if hs.iter().any(|h| h.cfg.fp.is_none()) {
        assumptions.push("real mode: the library's generic code is executed in exact real arithmetic; rounding, overflow and underflow of f32/f64 are outside the claim".into());
    }
    if hs.iter().any(|h| h.cfg.fp.is_some()) {
        assumptions.push("floating-point mode: IEEE-754 round-to-nearest semantics (SMT-LIB QF_FP) of the stated width".into());
    }
    if results.values().any(|o| o.stats.div_assumed > 0) {
        assumptions.push("harnesses marked so assume divisors nonzero where the library divides without a test".into());
    }
    let mut hj = vec![];
    for (i, o) in results {
        let labels: HashMap<&String, &u64> = o.stats.witnessed.iter().collect();
        hj.push(format!(
            "{{\"harness\": {}, \"encodes\": {}, \"mode\": {}, \"paths\": {}, \"infeasible\": {}, \"max_decisions_on_a_path\": {}, \"checks\": {}, \"by_normal_form\": {}, \"of_which_confirmed_by_z3_on_the_raw_terms\": {}, \"by_solver\": {}, \"labels_witnessed\": {}, \"solver_queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"solver_s\": {:.2}, \"native_crosschecks\": {}, \"div_assumed\": {}, \"wall_s\": {:.2}}}",
            js(&o.name),
            js(hs[*i].note),
            js(&match hs[*i].cfg.fp {
                None => "exact real (QF_NRA)".to_string(),
                Some((8, _)) => "IEEE binary32 (QF_FP)".to_string(),
                Some(_) => format!("IEEE binary64 (QF_FP){}", if hs[*i].cfg.fp_havoc { ", arithmetic results arbitrary" } else { "" }),
            }),
            o.stats.paths,
            o.stats.paths_infeasible,
            o.stats.max_depth,
            o.stats.checks,
            o.stats.discharged_normal,
            o.stats.confirmed,
            o.stats.discharged_solver,
            labels.len(),
            o.stats.solver_queries,
            o.stats.answers[0],
            o.stats.answers[1],
            o.stats.answers[2],
            o.stats.solver_time,
            o.cross_ok,
            o.stats.div_assumed,
            o.wall
        ));
    }
    let samples: Vec<String> = results.values().flat_map(|o| o.stats.sample_desc.iter().take(2).cloned()).take(24).collect();
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let ev = format!(
        "{{\n\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n\"coverage\": {{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"obligations\": {}, \"discharged\": {}, \"discharged_by_solver\": {}, \"discharged_by_normal_form\": {}, \"normal_form_confirmed_by_z3\": {}, \"solver_queries\": {}, \"solver_s\": {:.2}, \"explanation\": {},\n\"samples\": {},\n\"harnesses\": [\n{}\n],\n\"left_out\": {},\n\"inconclusive\": {}}},\n\"assumptions\": {},\n\"violations\": {}, \"wall_s\": {:.2}\n}}\n",
        js(prop),
        js(tier_s),
        seed,
        paths,
        decs,
        results.values().map(|o| o.cross_ok as u64).sum::<u64>(),
        checks,
        sum(&|o| o.stats.discharged_normal + o.stats.discharged_solver),
        sum(&|o| o.stats.discharged_solver),
        sum(&|o| o.stats.discharged_normal),
        sum(&|o| o.stats.confirmed),
        sum(&|o| o.stats.solver_queries),
        results.values().map(|o| o.stats.solver_time).sum::<f64>(),
        js("states = feasible symbolic paths of the library code, transitions = symbolic branch decisions, traces_validated_against_impl = native runs of the same harness whose checks all agreed; obligations are decided per path for all input values in the stated bounds"),
        jlist(&samples),
        hj.join(",\n"),
        jlist(&left_out.iter().take(40).cloned().collect::<Vec<_>>()),
        jlist(&inconclusive.iter().take(40).cloned().collect::<Vec<_>>()),
        jlist(&assumptions),
        violations,
        wall
    );
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    if !partial {
        let _ = std::fs::write(format!("{dir}/evidence/{prop}.json"), ev);
    }
    for l in left_out.iter().take(20) {
        println!("BOUND {l}");
    }
    for l in inconclusive.iter().take(20) {
        eprintln!("INCONCLUSIVE {l}");
    }
    if violations > 0 {
        1
    } else if !inconclusive.is_empty() {
        2
    } else {
        println!("OK property={prop} paths={paths} obligations={checks} wall={wall:.1}s");
        0
    }
}

fn replay_file(all: &[Harness], path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let mut st = St::default();
    let mut name = String::new();
    for l in t.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "harness" => name = w[1].into(),
            "thorough" => st.tier_thorough = w[1] == "true",
            "var" => {
                let b = u64::from_str_radix(w[3].trim_start_matches("0x"), 16).unwrap();
                st.vars.insert(w[1].into(), f64::from_bits(b));
            }
            "choices" => st.choices = w.get(1).unwrap_or(&"").split(',').filter_map(|x| x.parse().ok()).collect(),
            _ => {}
        }
    }
    let Some(h) = all.iter().find(|h| h.name == name) else {
        eprintln!("harness {name} not in this binary");
        return 2;
    };
    st.tol = if h.cfg.fp.is_some() { 0.0 } else { h.cfg.check_tol };
    match native(h, st) {
        Ok(r) if !r.failures.is_empty() => {
            for f in &r.failures {
                println!("reproduced: {f}");
            }
            1
        }
        _ => {
            println!("does not fail");
            0
        }
    }
}
