//! Path exploration, witness validation, counterexample replay and reporting.
use crate::rat::{Rat, Val};
use crate::solver::Solver;
use crate::sym::*;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

pub struct Case {
    pub name: String,
    pub f: Box<dyn Fn() + Send + Sync>,
    pub max_paths: u64,
}

pub fn case(name: impl Into<String>, f: impl Fn() + Send + Sync + 'static) -> Case {
    Case { name: name.into(), f: Box::new(f), max_paths: 20_000 }
}

impl Case {
    pub fn limit(mut self, n: u64) -> Case {
        self.max_paths = n;
        self
    }
}

enum End {
    Done,
    Abandoned,
    Failed,
    Panicked(String),
    Internal(String),
}

fn run_once(f: &(dyn Fn() + Send + Sync), cx: Cx) -> (Cx, End) {
    install(cx);
    let r = catch_unwind(AssertUnwindSafe(f));
    let cx = uninstall();
    let end = match r {
        Ok(()) => End::Done,
        Err(p) => match p.downcast::<Unwind>() {
            Ok(u) => match *u {
                Unwind::Abandon => End::Abandoned,
                Unwind::Stop => End::Failed,
            },
            Err(p) => {
                let m = message(&*p);
                if m.starts_with("symx:") {
                    End::Internal(m)
                } else {
                    End::Panicked(m)
                }
            }
        },
    };
    (cx, end)
}

/// Runs the case on concrete inputs. Returns what failed, and the branch trace.
fn replay(
    f: &(dyn Fn() + Send + Sync),
    inputs: &[(String, Val)],
    choices: &[usize],
    solver: Solver,
) -> (Option<String>, Vec<Step>, bool, bool, Solver) {
    let mut cx = Cx::new(solver, vec![], 0);
    cx.replay = Some(inputs.iter().cloned().collect());
    cx.replay_choices = choices.to_vec();
    let (cx, end) = run_once(f, cx);
    let (failed, abandoned) = match end {
        End::Done => (None, false),
        End::Abandoned => (None, true),
        End::Failed => (Some(cx.failures.last().map(|f| f.label.clone()).unwrap_or_default()), false),
        End::Panicked(m) => (Some(format!("panic: {m}")), false),
        End::Internal(_) => (None, true),
    };
    (failed, cx.trace, cx.approx_used, abandoned, cx.solver)
}

#[derive(Default)]
struct CaseStats {
    paths: u64,
    abandoned: u64,
    validated: u64,
    incomparable: u64,
    /// attempts to find a witness
    asked: u64,
    truncated: bool,
    seconds: f64,
}

#[derive(Default)]
struct Totals {
    paths: u64,
    abandoned: u64,
    branches: u64,
    choices: u64,
    distinct: BTreeSet<u64>,
    obligations: u64,
    discharged: u64,
    syntactic: u64,
    undecided: u64,
    expected_panics: u64,
    unknown_branches: u64,
    validated: u64,
    incomparable: u64,
    mismatched: Vec<String>,
    queries: u64,
    sat: u64,
    unsat: u64,
    unknown: u64,
    fallback: u64,
    solver_s: f64,
    slowest: f64,
    solver_errors: Vec<String>,
    internal: Vec<String>,
    unreproduced: Vec<String>,
    violations: Vec<(String, String, String)>,
    /// failures listed as known findings: case, label, replay
    known: Vec<(String, String, String)>,
    apis: BTreeSet<String>,
    samples: Vec<String>,
    vars_max: usize,
    terms: u64,
}

struct Work {
    stack: Vec<(usize, Vec<Step>)>,
    active: usize,
    stop: bool,
    stats: Vec<CaseStats>,
    tot: Totals,
    /// per worker: case and start time of the current path
    now: Vec<Option<(usize, Instant)>>,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn jlist<'a>(v: impl Iterator<Item = &'a String>) -> String {
    let q: Vec<String> = v.map(|s| format!("\"{}\"", esc(s))).collect();
    format!("[{}]", q.join(", "))
}

fn show_inputs(inputs: &[(String, Val)]) -> String {
    inputs.iter().map(|(n, v)| format!("{n}={}", v.text())).collect::<Vec<_>>().join(" ")
}

fn write_replay(dir: &str, prop: &str, n: usize, case: &str, label: &str, f: &Failure) -> String {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{prop}-{n}.replay");
    let mut s = String::new();
    let _ = writeln!(s, "property {prop}");
    let _ = writeln!(s, "case {case}");
    let _ = writeln!(s, "label {}", label.replace('\n', " "));
    let ch: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
    let _ = writeln!(s, "choices {}", ch.join(" "));
    for (n, v) in &f.inputs {
        let _ = writeln!(s, "input {n} {}", v.text());
    }
    let _ = std::fs::write(&path, s);
    path
}

/// Runs the case on concrete inputs, made up in several ways, in processes of their own. Returns the
/// inputs on which it is still running after a time that any ordinary run takes a fraction of.
fn hangs_concretely(dir: &str, prop: &str, case: &str) -> Option<String> {
    let mut running = vec![];
    for k in 0..8usize {
        let f = Failure { label: "does not terminate".into(), kind: "hang", inputs: vec![("*".into(), Val::X(Rat::new(k as i128, 1).unwrap()))], choices: vec![] };
        let p = write_replay(dir, prop, 900 + k, case, &f.label, &f);
        let ch = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", &p])
            .stdout(std::process::Stdio::null())
            .spawn()
            .ok()?;
        running.push((p, ch));
    }
    let s = Instant::now();
    while s.elapsed() < Duration::from_secs(30) {
        std::thread::sleep(Duration::from_millis(50));
        if running.iter_mut().all(|(_, ch)| ch.try_wait().map_or(true, |x| x.is_some())) {
            break;
        }
    }
    let mut found = None;
    for (p, mut ch) in running {
        if ch.try_wait().map_or(false, |x| x.is_none()) {
            found.get_or_insert(p);
        }
        let _ = ch.kill();
        let _ = ch.wait();
    }
    found
}

fn replay_file(path: &str, cases: Vec<Case>) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let (mut name, mut choices, mut inputs) = (String::new(), vec![], vec![]);
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("case ") {
            name = r.to_string();
        } else if let Some(r) = l.strip_prefix("choices") {
            choices = r.split_whitespace().map(|x| x.parse().unwrap()).collect();
        } else if let Some(r) = l.strip_prefix("input ") {
            let (n, v) = r.rsplit_once(' ').unwrap();
            inputs.push((n.to_string(), Val::parse(v).expect("value")));
        }
    }
    let Some(c) = cases.iter().find(|c| c.name == name) else {
        println!("no case named {name}");
        return 3;
    };
    println!("case {name}");
    println!("inputs {}", show_inputs(&inputs));
    let (failed, ..) = replay(&*c.f, &inputs, &choices, Solver::new(1000));
    match failed {
        Some(l) => {
            println!("FAILS: {l}");
            1
        }
        None => {
            println!("does not fail");
            0
        }
    }
}

/// The machinery itself is checked first: a false claim must be refuted with a replayable model, a
/// branch that only one input takes must be found, a true identity must be proved.
fn self_test(timeout: u64) -> Result<(), String> {
    let run = |f: &(dyn Fn() + Send + Sync)| run_once(f, Cx::new(Solver::new(timeout), vec![], 1));
    let f = || prove("control", (any("x") * any("y")).eqs(any("y") * any("x") + any("x")));
    let (cx, end) = run(&f);
    if !matches!(end, End::Failed) || cx.failures.len() != 1 {
        return Err("false claim not refuted".into());
    }
    let (r, ..) = replay(&f, &cx.failures[0].inputs, &[], Solver::new(timeout));
    if r.is_none() {
        return Err("counterexample to a false claim does not replay".into());
    }
    let g = || {
        if any("x") * any("x") == int(49) {
            if any("x").lts(int(0)).is_true() {
                panic!("found");
            }
        }
    };
    let mut stack = vec![vec![]];
    let (mut found, mut paths) = (0, 0);
    while let Some(p) = stack.pop() {
        let n = p.len();
        let (cx, end) = run_once(&g, Cx::new(Solver::new(timeout), p, 1));
        stack.extend(alternatives(&cx.trace, n));
        paths += 1;
        if let End::Panicked(_) = end {
            found += 1;
        }
    }
    if found != 1 || paths != 3 {
        return Err(format!("exploration control: {found} panics on {paths} paths"));
    }
    let h = || {
        let (x, y) = (any("x"), any("y"));
        prove("control", ((x + y) * (x - y)).eqs(x * x - y * y));
        assume(x.pos());
        let s = sqrt(x);
        prove("control", (s * s * s * s).eqs(x * x));
    };
    let (cx, end) = run(&h);
    if !matches!(end, End::Done) || cx.stats.discharged != 2 {
        return Err("true identity not proved".into());
    }
    Ok(())
}

fn alternatives(trace: &[Step], from: usize) -> Vec<Vec<Step>> {
    let mut out = vec![];
    for i in (from..trace.len()).rev() {
        match trace[i] {
            Step::Branch(r, true) => {
                let mut p = trace[..i].to_vec();
                p.push(Step::Branch(!r, true));
                out.push(p);
            }
            Step::Choose(r, n) => {
                for k in (r + 1..n).rev() {
                    let mut p = trace[..i].to_vec();
                    p.push(Step::Choose(k, n));
                    out.push(p);
                }
            }
            _ => {}
        }
    }
    out
}

fn trace_eq(a: &[Step], b: &[Step]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (Step::Branch(p, _), Step::Branch(q, _)) => p == q,
            (Step::Choose(p, _), Step::Choose(q, _)) => p == q,
            _ => false,
        })
}

fn hash_trace(case: usize, t: &[Step]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    case.hash(&mut h);
    for s in t {
        match s {
            Step::Branch(r, _) => (0u8, *r as usize).hash(&mut h),
            Step::Choose(r, _) => (1u8, *r).hash(&mut h),
        }
    }
    h.finish()
}

fn lcg(s: &mut u64) -> u64 {
    *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    *s >> 33
}

pub fn main(prop: &str, make: impl Fn(Tier) -> Vec<Case>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    std::panic::set_hook(Box::new(|info| {
        if std::env::var("SYMX_PANICS").is_ok() {
            eprintln!("{info}");
        }
    }));
    if args.first().map(|s| s.as_str()) == Some("replay") {
        let mut cs = make(Tier::Quick);
        cs.extend(make(Tier::Thorough));
        std::process::exit(replay_file(&args[1], cs));
    }
    let tier = if opt("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = opt("--out");
    let dir = opt("--replay-dir").unwrap_or_else(|| "/tmp/symx-replay".into());
    let budget = Duration::from_secs(opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(300));
    let threads: usize = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let timeout: u64 = opt("--timeout").and_then(|s| s.parse().ok()).unwrap_or(tier.pick(20_000, 60_000));
    let validate: u64 = opt("--validate").and_then(|s| s.parse().ok()).unwrap_or(tier.pick(3, 10));
    // lines "case<TAB>label" of failures that are recorded as findings
    let known: Vec<(String, String)> = match opt("--known") {
        Some(f) => std::fs::read_to_string(f)
            .expect("known findings")
            .lines()
            .filter_map(|l| l.split_once('\t').map(|(a, b)| (a.into(), b.into())))
            .collect(),
        None => vec![],
    };
    let known = &known;
    let mut cases = make(tier);
    if let Some(o) = opt("--only") {
        cases.retain(|c| c.name.contains(&o));
    }
    let t0 = Instant::now();
    if let Err(e) = self_test(timeout) {
        eprintln!("symx self test failed: {e}");
        std::process::exit(3);
    }
    let mut names = BTreeSet::new();
    cases.retain(|c| names.insert(c.name.clone()));
    let mut stack: Vec<(usize, Vec<Step>)> = (0..cases.len()).map(|i| (i, vec![])).collect();
    stack.reverse();
    let work = Mutex::new(Work {
        stack,
        active: 0,
        stop: false,
        stats: cases.iter().map(|_| CaseStats::default()).collect(),
        tot: Totals::default(),
        now: vec![None; threads],
    });
    let cv = Condvar::new();
    let (work, cv, cases) = (&work, &cv, &cases);
    let dir = &dir;
    let mut stuck: Vec<usize> = vec![];
    let mut first_violation: Option<Instant> = None;
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for w in 0..threads {
            hs.push(
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        worker(w, prop, cases, work, cv, dir, seed, timeout, validate, known);
                    })
                    .unwrap(),
            );
        }
        // watchdog
        loop {
            std::thread::sleep(Duration::from_millis(20));
            let mut g = work.lock().unwrap();
            if hs.iter().all(|h| h.is_finished()) {
                break;
            }
            if t0.elapsed() > budget && !g.stop {
                g.stop = true;
                let left: Vec<usize> = g.stack.drain(..).map(|(c, _)| c).collect();
                for c in left {
                    g.stats[c].truncated = true;
                }
                cv.notify_all();
            }
            if first_violation.is_none() && !g.tot.violations.is_empty() {
                first_violation = Some(Instant::now());
            }
            // the verdict is known, or the time is up: do not wait for paths still being explored
            if first_violation.is_some_and(|t| t.elapsed() > Duration::from_secs(20))
                || t0.elapsed() > budget + Duration::from_secs(90)
            {
                let left: Vec<usize> = g.stack.drain(..).map(|(c, _)| c).collect();
                let running: Vec<usize> = g.now.iter().flatten().map(|x| x.0).collect();
                for c in left.into_iter().chain(running) {
                    g.stats[c].truncated = true;
                }
                let code = report(prop, tier, seed, &g, cases, t0, &out);
                std::process::exit(code);
            }
            let limit = Duration::from_secs(10) + Duration::from_millis(4 * timeout);
            let late = limit.max(Duration::from_secs(120));
            let h = g.now.iter().enumerate().find_map(|(w, x)| x.filter(|(_, t)| t.elapsed() > late && !stuck.contains(&w)).map(|x| (w, x.0)));
            drop(g);
            if let Some((w, c)) = h {
                if crate::sym::in_solver_recently() && t0.elapsed() < budget + limit {
                    continue;
                }
                // does the case hang on concrete inputs too?
                stuck.push(w);
                let found = hangs_concretely(dir, prop, &cases[c].name);
                let mut g = work.lock().unwrap();
                g.stats[c].truncated = true;
                if let Some(p) = found {
                    let n = cases[c].name.clone();
                    g.tot.violations.push((n, "the code does not terminate".into(), p));
                } else if !stuck.iter().all(|w| g.now[*w].is_some()) || stuck.len() < threads && (g.active > stuck.len() || !g.stack.is_empty()) {
                    // the other workers go on
                    continue;
                }
                let left: Vec<usize> = g.stack.drain(..).map(|(c, _)| c).collect();
                for c in left {
                    g.stats[c].truncated = true;
                }
                let code = report(prop, tier, seed, &g, cases, t0, &out);
                std::process::exit(code);
            }
            let mut g = work.lock().unwrap();
            stuck.retain(|w| g.now[*w].is_some());
            if !stuck.is_empty() && g.active <= stuck.len() && (g.stack.is_empty() || stuck.len() == threads) {
                let left: Vec<usize> = g.stack.drain(..).map(|(c, _)| c).collect();
                for c in left {
                    g.stats[c].truncated = true;
                }
                let code = report(prop, tier, seed, &g, cases, t0, &out);
                std::process::exit(code);
            }
        }
    });
    let g = work.lock().unwrap();
    let code = report(prop, tier, seed, &g, cases, t0, &out);
    std::process::exit(code);
}

#[allow(clippy::too_many_arguments)]
fn worker(
    w: usize,
    prop: &str,
    cases: &[Case],
    work: &Mutex<Work>,
    cv: &Condvar,
    dir: &str,
    seed: u64,
    timeout: u64,
    validate: u64,
    known: &[(String, String)],
) {
    let mut solver = Solver::new(timeout);
    loop {
        let (ci, prefix) = {
            let mut g = work.lock().unwrap();
            let mut item = None;
            loop {
                if g.stop {
                    break;
                }
                if let Some(x) = g.stack.pop() {
                    if g.stats[x.0].paths >= cases[x.0].max_paths {
                        g.stats[x.0].truncated = true;
                        continue;
                    }
                    g.stats[x.0].paths += 1;
                    g.active += 1;
                    g.now[w] = Some((x.0, Instant::now()));
                    item = Some(x);
                    break;
                }
                if g.active == 0 {
                    g.stop = true;
                    cv.notify_all();
                    break;
                }
                g = cv.wait(g).unwrap();
            }
            if item.is_none() {
                let t = &mut g.tot;
                t.queries += solver.queries;
                t.sat += solver.sat;
                t.unsat += solver.unsat;
                t.unknown += solver.unknown;
                t.fallback += solver.fallback;
                t.solver_s += solver.seconds;
                t.slowest = t.slowest.max(solver.slowest);
                t.solver_errors.extend(solver.errors.drain(..));
                return;
            }
            item.unwrap()
        };
        let started = Instant::now();
        let from = prefix.len();
        let c = &cases[ci];
        let cx = Cx::new(solver, prefix, seed.wrapping_mul(31).wrapping_add(ci as u64));
        let (mut cx, end) = run_once(&*c.f, cx);
        let alts = alternatives(&cx.trace, from);
        let mut fails = std::mem::take(&mut cx.failures);
        let mut internal = None;
        let mut extra_undecided = 0;
        match &end {
            End::Panicked(m) => {
                cx.stats.obligations += 1;
                let (a, inputs) = cx.model(&[]);
                match a {
                    crate::solver::Answer::Sat => fails.push(Failure {
                        label: format!("panic: {m}"),
                        kind: "panic",
                        inputs,
                        choices: choices_of(&cx.trace),
                    }),
                    // the path was kept only because a branch could not be decided
                    crate::solver::Answer::Unsat => cx.stats.obligations -= 1,
                    crate::solver::Answer::Unknown => extra_undecided += 1,
                }
            }
            End::Internal(m) => internal = Some(m.clone()),
            _ => {}
        }
        // witness of this path, run on the real code with concrete numbers
        let mut witness = None;
        let want = {
            let mut g = work.lock().unwrap();
            let st = &mut g.stats[ci];
            let want = matches!(end, End::Done) && cx.inputs.len() <= 40_000 && st.validated + st.incomparable < validate && st.asked < 4 * validate;
            st.asked += want as u64;
            want
        };
        if want {
            let (a, inputs) = cx.model(&[]);
            if a == crate::solver::Answer::Sat {
                witness = Some(inputs);
            }
        }
        let trace = std::mem::take(&mut cx.trace);
        let stats = cx.stats.clone();
        let apis = std::mem::take(&mut cx.apis);
        let (unk, trunc, nin) = (cx.unknown_branches, cx.truncated, cx.inputs.len());
        let names = cx.inputs.clone();
        let nterms = cx.nodes.len() as u64;
        solver = cx.solver;
        let mut valid = None;
        if let Some(inp) = &witness {
            let choices = choices_of(&trace);
            let (f, t2, approx, aband, s) = replay(&*c.f, inp, &choices, solver);
            solver = s;
            valid = Some(if f.is_none() && !aband && trace_eq(&trace, &t2) {
                Ok(())
            } else {
                Err((approx, f))
            });
        }
        // counterexamples must fail when run
        let mut confirmed = vec![];
        let mut unrep = vec![];
        for mut f in fails {
            let (r, _, _, _, s) = replay(&*c.f, &f.inputs, &f.choices, solver);
            solver = s;
            let mut got = r;
            if got.is_none() {
                // the model may rely on a value of a transcendental function that the solver was
                // free to choose; look for other concrete inputs near it
                let mut rng = seed ^ 0x9e3779b97f4a7c15;
                for round in 0..400 {
                    let inputs: Vec<(String, Val)> = names
                        .iter()
                        .map(|n| {
                            let old = f.inputs.iter().find(|x| &x.0 == n).map(|x| x.1);
                            if round % 2 == 0 && lcg(&mut rng) % 3 != 0 {
                                if let Some(v) = old {
                                    return (n.clone(), v);
                                }
                            }
                            let d = [1i128, 1, 2, 4][(lcg(&mut rng) % 4) as usize];
                            let v = (lcg(&mut rng) % 17) as i128 - 8;
                            (n.clone(), Val::X(Rat::new(v, d).unwrap()))
                        })
                        .collect();
                    let (r, _, _, _, s) = replay(&*c.f, &inputs, &f.choices, solver);
                    solver = s;
                    if r.is_some() {
                        got = r;
                        f.inputs = inputs;
                        break;
                    }
                }
            }
            match got {
                Some(l) => confirmed.push((l, f)),
                None => unrep.push(format!("{}: {}: {}", c.name, f.label, show_inputs(&f.inputs))),
            }
        }
        let mut g = work.lock().unwrap();
        let g = &mut *g;
        g.now[w] = None;
        g.active -= 1;
        let st = &mut g.stats[ci];
        st.seconds += started.elapsed().as_secs_f64();
        st.truncated |= trunc;
        let t = &mut g.tot;
        t.paths += 1;
        if let End::Abandoned = end {
            st.abandoned += 1;
            t.abandoned += 1;
        }
        t.distinct.insert(hash_trace(ci, &trace));
        for s in &trace[from.min(trace.len())..] {
            match s {
                Step::Branch(..) => t.branches += 1,
                Step::Choose(..) => t.choices += 1,
            }
        }
        t.obligations += stats.obligations;
        t.discharged += stats.discharged;
        t.syntactic += stats.syntactic;
        t.undecided += stats.undecided + extra_undecided;
        t.expected_panics += stats.expected_panics;
        t.unknown_branches += unk;
        t.vars_max = t.vars_max.max(nin);
        t.terms += nterms;
        t.apis.extend(apis);
        match valid {
            Some(Ok(())) => {
                st.validated += 1;
                t.validated += 1;
                if t.samples.len() < 12 && (st.validated == 1) {
                    t.samples.push(format!(
                        "{}: {} decisions, witness {}",
                        c.name,
                        trace.len(),
                        show_inputs(witness.as_ref().unwrap()).chars().take(300).collect::<String>()
                    ));
                }
            }
            Some(Err((approx, f))) => {
                if approx && f.is_none() {
                    st.incomparable += 1;
                    t.incomparable += 1;
                } else {
                    st.incomparable += 1;
                    t.mismatched.push(format!(
                        "{}: {:?} with {}",
                        c.name,
                        f,
                        show_inputs(witness.as_ref().unwrap())
                    ));
                }
            }
            None => {}
        }
        if let Some(m) = internal {
            t.internal.push(format!("{}: {m}", c.name));
        }
        t.unreproduced.extend(unrep);
        for (l, f) in confirmed {
            if known.iter().any(|(k, m)| *k == c.name && *m == l) {
                let n = 1000 + t.known.len();
                let p = write_replay(dir, prop, n, &c.name, &l, &f);
                t.known.push((c.name.clone(), l, p));
                continue;
            }
            if t.violations.len() < 20 {
                let n = t.violations.len() + 1;
                let p = write_replay(dir, prop, n, &c.name, &l, &f);
                t.violations.push((c.name.clone(), format!("{l} [{}]", show_inputs(&f.inputs)), p));
            }
        }
        if t.violations.len() >= 5 {
            // enough to report
            for (c, _) in g.stack.drain(..) {
                g.stats[c].truncated = true;
            }
            g.stop = true;
        }
        if !g.stop {
            for a in alts.into_iter() {
                g.stack.push((ci, a));
            }
        }
        cv.notify_all();
    }
}

fn report(prop: &str, tier: Tier, seed: u64, g: &Work, cases: &[Case], t0: Instant, out: &Option<String>) -> i32 {
    let t = &g.tot;
    let mut s = String::new();
    let _ = writeln!(s, "{{");
    let _ = writeln!(s, "\"property\": \"{prop}\", \"tier\": \"{:?}\", \"seed\": {seed},", tier);
    let _ = writeln!(s, "\"cases\": {}, \"paths\": {}, \"distinct_paths\": {},", cases.len(), t.paths, t.distinct.len());
    let _ = writeln!(s, "\"abandoned_paths\": {}, \"branch_decisions\": {}, \"environment_choices\": {},", t.abandoned, t.branches, t.choices);
    let _ = writeln!(
        s,
        "\"obligations\": {}, \"discharged\": {}, \"discharged_by_simplification\": {}, \"undecided\": {}, \"expected_panics\": {}, \"undecided_branches\": {},",
        t.obligations, t.discharged, t.syntactic, t.undecided, t.expected_panics, t.unknown_branches
    );
    let _ = writeln!(s, "\"witnesses_validated\": {}, \"witnesses_incomparable\": {},", t.validated, t.incomparable);
    let _ = writeln!(
        s,
        "\"solver_queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"second_attempts\": {}, \"solver_seconds\": {:.2}, \"slowest_query_seconds\": {:.2},",
        t.queries, t.sat, t.unsat, t.unknown, t.fallback, t.solver_s, t.slowest
    );
    let _ = writeln!(s, "\"max_symbolic_inputs\": {}, \"symbolic_terms\": {},", t.vars_max, t.terms);
    let tr: Vec<String> = cases.iter().zip(&g.stats).filter(|(_, x)| x.truncated).map(|(c, _)| c.name.clone()).collect();
    let _ = writeln!(s, "\"truncated_cases\": {},", tr.len());
    let _ = writeln!(s, "\"truncated_names\": {},", jlist(tr.iter().take(20)));
    let _ = writeln!(s, "\"functions\": {},", jlist(t.apis.iter()));
    let _ = writeln!(s, "\"case_names\": {},", jlist(cases.iter().map(|c| &c.name)));
    let _ = writeln!(s, "\"samples\": {},", jlist(t.samples.iter()));
    let _ = writeln!(s, "\"mismatched\": {},", jlist(t.mismatched.iter().take(10)));
    let _ = writeln!(s, "\"unreproduced\": {},", jlist(t.unreproduced.iter().take(10)));
    let _ = writeln!(s, "\"internal_errors\": {},", jlist(t.internal.iter().take(10)));
    let _ = writeln!(s, "\"solver_errors\": {},", jlist(t.solver_errors.iter().take(5)));
    let list = |v: &[(String, String, String)]| {
        v.iter()
            .map(|(c, l, p)| format!("{{\"case\": \"{}\", \"what\": \"{}\", \"replay\": \"{}\"}}", esc(c), esc(l), esc(p)))
            .collect::<Vec<_>>()
            .join(", ")
    };
    let _ = writeln!(s, "\"violations\": [{}],", list(&t.violations));
    let _ = writeln!(s, "\"known_findings\": [{}],", list(&t.known));
    let _ = writeln!(s, "\"wall_s\": {:.2}", t0.elapsed().as_secs_f64());
    let _ = writeln!(s, "}}");
    if let Some(o) = out {
        std::fs::write(o, &s).expect("write output");
    }
    println!(
        "{prop}: {} cases, {} paths, {} decisions, {} obligations ({} discharged, {} undecided), {} queries, {:.1} s solver, {} witnesses validated, {:.1} s",
        cases.len(), t.paths, t.branches + t.choices, t.obligations, t.discharged, t.undecided, t.queries, t.solver_s, t.validated, t0.elapsed().as_secs_f64()
    );
    for m in t.mismatched.iter().take(5) {
        println!("  witness mismatch: {m}");
    }
    for m in t.unreproduced.iter().take(5) {
        println!("  unreproduced: {m}");
    }
    for m in t.internal.iter().chain(&t.solver_errors).take(5) {
        println!("  error: {m}");
    }
    if !tr.is_empty() {
        println!("  truncated: {} cases, e.g. {}", tr.len(), tr[0]);
    }
    if std::env::var("SYMX_TIMES").is_ok() {
        let mut v: Vec<_> = cases.iter().zip(&g.stats).collect();
        v.sort_by(|a, b| b.1.seconds.partial_cmp(&a.1.seconds).unwrap());
        for (c, s) in v.iter().take(12) {
            println!("  {:8.2}s {:6} paths {}", s.seconds, s.paths, c.name);
        }
    }
    for (c, l, _) in &t.known {
        println!("  known finding in {c}: {l}");
    }
    for (c, l, p) in &t.violations {
        println!("  violation in {c}: {l} ({p})");
    }
    if !t.violations.is_empty() {
        1
    } else if !t.internal.is_empty() || !t.solver_errors.is_empty() {
        3
    } else {
        0
    }
}
