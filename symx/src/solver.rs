//! One z3 process per worker thread, driven over SMT-LIB2 text.
use crate::rat::{Rat, Val};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub static BUSY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Answer {
    Sat,
    Unsat,
    Unknown,
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

impl Proc {
    fn start(cmd: &str, args: &[&str]) -> Proc {
        let mut child = Command::new(cmd)
            .args(args)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start {cmd}: {e}"));
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Proc { child, inp, out }
    }
    fn ask(&mut self, text: &str) -> std::io::Result<Vec<String>> {
        self.inp.write_all(text.as_bytes())?;
        self.inp.write_all(b"\n(echo \"@@done\")\n")?;
        self.inp.flush()?;
        let mut lines = vec![];
        loop {
            let mut l = String::new();
            if self.out.read_line(&mut l)? == 0 {
                return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "solver died"));
            }
            let t = l.trim_end();
            if t.contains("@@done") {
                return Ok(lines);
            }
            lines.push(t.to_string());
        }
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub struct Solver {
    main: Option<Proc>,
    pub timeout_ms: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub fallback: u64,
    pub seconds: f64,
    pub errors: Vec<String>,
    pub slowest: f64,
}

pub struct Reply {
    pub answer: Answer,
    /// values of the requested variables (only when sat)
    pub values: Vec<Option<Val>>,
}

impl Solver {
    pub fn new(timeout_ms: u64) -> Solver {
        Solver {
            main: None,
            timeout_ms,
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            fallback: 0,
            seconds: 0.0,
            errors: vec![],
            slowest: 0.0,
        }
    }

    /// `body` is everything up to but excluding (check-sat); `vars` are names to evaluate.
    pub fn check(&mut self, body: &str, vars: &[String]) -> Reply {
        let t0 = Instant::now();
        self.queries += 1;
        BUSY.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let mut r = self.once(body, vars, "(check-sat)", self.timeout_ms);
        if r.answer == Answer::Unknown {
            self.fallback += 1;
            r = self.once(body, vars, "(check-sat-using (then simplify solve-eqs (using-params qfnra-nlsat :seed 7)))", self.timeout_ms);
        }
        if r.answer == Answer::Unknown {
            r = self.alt(body, vars);
        }
        BUSY.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
        let dt = t0.elapsed().as_secs_f64();
        self.seconds += dt;
        if dt > self.slowest {
            self.slowest = dt;
        }
        match r.answer {
            Answer::Sat => self.sat += 1,
            Answer::Unsat => self.unsat += 1,
            Answer::Unknown => self.unknown += 1,
        }
        r
    }

    fn once(&mut self, body: &str, vars: &[String], check: &str, timeout: u64) -> Reply {
        let text = format!(
            "(reset)\n(set-option :timeout {timeout})\n(set-option :produce-models true)\n(set-logic QF_NRA)\n{body}{check}"
        );
        if std::env::var("SYMX_DUMP").is_ok() {
            eprintln!("{text}\n");
        }
        let p = self.main.get_or_insert_with(|| Proc::start("z3-new", &["-in"]));
        let lines = match p.ask(&text) {
            Ok(l) => l,
            Err(_) => {
                self.main = None;
                return Reply { answer: Answer::Unknown, values: vec![] };
            }
        };
        let mut ans = Answer::Unknown;
        for l in &lines {
            match l.as_str() {
                "sat" => ans = Answer::Sat,
                "unsat" => ans = Answer::Unsat,
                "unknown" | "timeout" => ans = Answer::Unknown,
                _ => {
                    if l.starts_with("(error") {
                        self.errors.push(l.clone());
                        ans = Answer::Unknown;
                        break;
                    }
                }
            }
        }
        let mut values = vec![];
        if ans == Answer::Sat && !vars.is_empty() {
            values = self.get_values(vars);
        }
        Reply { answer: ans, values }
    }

    fn get_values(&mut self, vars: &[String]) -> Vec<Option<Val>> {
        let q = format!("(get-value ({}))", vars.join(" "));
        let run = |p: &mut Proc, pre: &str| -> Option<Vec<Sx>> {
            let ls = p.ask(&format!("{pre}{q}")).ok()?;
            let t = ls.join(" ");
            if t.contains("(error") {
                return None;
            }
            match parse(&t)?.into_iter().next()? {
                Sx::L(v) => Some(v),
                _ => None,
            }
        };
        let p = self.main.as_mut().unwrap();
        let exact = run(p, "(set-option :pp.decimal false)\n");
        let dec = run(p, "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n");
        let _ = p.ask("(set-option :pp.decimal false)");
        let val = |v: &Option<Vec<Sx>>, i: usize| -> Option<Sx> {
            match v.as_ref()?.get(i)? {
                Sx::L(kv) => kv.get(1).cloned(),
                _ => None,
            }
        };
        (0..vars.len())
            .map(|i| {
                if let Some(s) = val(&exact, i) {
                    if let Some(r) = to_rat(&s) {
                        return Some(Val::X(r));
                    }
                }
                val(&dec, i).and_then(|s| to_f64(&s)).map(Val::A)
            })
            .collect()
    }

    /// Second solver, used only when the first gives no answer. No models asked of it unless sat.
    fn alt(&mut self, body: &str, vars: &[String]) -> Reply {
        let mut p = Proc::start("cvc5", &["--lang=smt2", "--produce-models", &format!("--tlimit={}", self.timeout_ms)]);
        let text = format!("(set-logic QF_NRA)\n{body}(check-sat)\n(exit)\n");
        let body_ok = p.inp.write_all(text.as_bytes()).is_ok() && p.inp.flush().is_ok();
        let mut ans = Answer::Unknown;
        if body_ok {
            let mut l = String::new();
            while p.out.read_line(&mut l).unwrap_or(0) > 0 {
                match l.trim() {
                    "unsat" => ans = Answer::Unsat,
                    "sat" => ans = Answer::Sat,
                    _ => {}
                }
                if l.starts_with("(error") {
                    ans = Answer::Unknown;
                    break;
                }
                l.clear();
            }
        }
        let _ = vars;
        Reply { answer: ans, values: vec![] }
    }
}

#[derive(Clone, Debug)]
pub enum Sx {
    A(String),
    L(Vec<Sx>),
}

pub fn parse(s: &str) -> Option<Vec<Sx>> {
    let mut stack: Vec<Vec<Sx>> = vec![vec![]];
    let mut tok = String::new();
    let flush = |tok: &mut String, stack: &mut Vec<Vec<Sx>>| {
        if !tok.is_empty() {
            stack.last_mut().unwrap().push(Sx::A(std::mem::take(tok)));
        }
    };
    for c in s.chars() {
        match c {
            '(' => {
                flush(&mut tok, &mut stack);
                stack.push(vec![]);
            }
            ')' => {
                flush(&mut tok, &mut stack);
                let v = stack.pop()?;
                stack.last_mut()?.push(Sx::L(v));
            }
            c if c.is_whitespace() => flush(&mut tok, &mut stack),
            c => tok.push(c),
        }
    }
    flush(&mut tok, &mut stack);
    if stack.len() != 1 {
        return None;
    }
    stack.pop()
}

fn to_rat(s: &Sx) -> Option<Rat> {
    match s {
        Sx::A(a) => {
            let a = a.strip_suffix(".0").unwrap_or(a);
            if let Some((i, f)) = a.split_once('.') {
                if f.ends_with('?') || f.len() > 18 {
                    return None;
                }
                let d = 10i128.checked_pow(f.len() as u32)?;
                let n: i128 = format!("{i}{f}").parse().ok()?;
                return Rat::new(n, d);
            }
            a.parse().ok().map(Rat::int)
        }
        Sx::L(v) => match v.as_slice() {
            [Sx::A(m), x] if m == "-" => to_rat(x).map(|r| r.neg()),
            [Sx::A(m), x, y] if m == "/" => to_rat(x)?.div(to_rat(y)?),
            _ => None,
        },
    }
}

fn to_f64(s: &Sx) -> Option<f64> {
    match s {
        Sx::A(a) => a.trim_end_matches('?').parse().ok(),
        Sx::L(v) => match v.as_slice() {
            [Sx::A(m), x] if m == "-" => to_f64(x).map(|r| -r),
            [Sx::A(m), x, y] if m == "/" => Some(to_f64(x)? / to_f64(y)?),
            _ => None,
        },
    }
}
