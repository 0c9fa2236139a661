//! SMT solver processes driven over pipes.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{Receiver, RecvTimeoutError, channel};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Which {
    Z3New,
    Z3Old,
    Cvc5,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Sat(Vec<(String, String)>),
    Unsat,
    Unknown,
}

pub struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

impl Proc {
    pub fn spawn(w: Which) -> std::io::Result<Proc> {
        let mut c = match w {
            Which::Z3New => {
                let mut c = Command::new("z3-new");
                c.args(["-in", "-memory:3000"]);
                c
            }
            Which::Z3Old => {
                let mut c = Command::new("z3");
                c.args(["-in", "-memory:3000"]);
                c
            }
            Which::Cvc5 => {
                let mut c = Command::new("cvc5");
                c.args(["--lang=smt2", "--incremental", "--produce-models", "--fp-exp"]);
                c
            }
        };
        let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Ok(Proc { child, stdin, rx })
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Default)]
pub struct Pool {
    procs: std::collections::HashMap<Which, Proc>,
    pub queries: u64,
    pub time: f64,
    pub by_answer: [u64; 3],
    pub errors: u64,
    pub logdir: Option<String>,
}

impl Pool {
    /// `body`: declarations and assertions. `vals`: terms to read back on sat.
    pub fn run(&mut self, w: Which, logic: &str, body: &str, vals: &[String], timeout_ms: u64) -> Ans {
        let t0 = Instant::now();
        self.queries += 1;
        let a = self.run_inner(w, logic, body, vals, timeout_ms);
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        let ix = match a {
            Ans::Sat(_) => 0,
            Ans::Unsat => 1,
            Ans::Unknown => 2,
        };
        self.by_answer[ix] += 1;
        if let Some(d) = &self.logdir {
            let n = self.queries;
            let _ = std::fs::write(
                format!("{}/q{:?}_{:05}_{:?}_{}ms_{}.smt2", d, std::thread::current().id(), n, w, (dt * 1000.0) as u64, ["sat", "unsat", "unknown"][ix]),
                format!("(set-logic {})\n{}\n(check-sat)\n", logic, body),
            );
        }
        a
    }
    fn run_inner(&mut self, w: Which, logic: &str, body: &str, vals: &[String], timeout_ms: u64) -> Ans {
        if !self.procs.contains_key(&w) {
            match Proc::spawn(w) {
                Ok(p) => {
                    self.procs.insert(w, p);
                }
                Err(_) => {
                    self.errors += 1;
                    return Ans::Unknown;
                }
            }
        }
        let p = self.procs.get_mut(&w).unwrap();
        let mut s = String::with_capacity(body.len() + 200);
        s.push_str("(reset)\n");
        match w {
            Which::Cvc5 => s.push_str(&format!("(set-option :tlimit-per {})\n(set-option :produce-models true)\n", timeout_ms)),
            _ => s.push_str(&format!("(set-option :timeout {})\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n", timeout_ms)),
        }
        s.push_str(&format!("(set-logic {})\n", logic));
        s.push_str(body);
        s.push_str("\n(check-sat)\n(echo \"<<done>>\")\n");
        if p.stdin.write_all(s.as_bytes()).is_err() || p.stdin.flush().is_err() {
            self.procs.remove(&w);
            self.errors += 1;
            return Ans::Unknown;
        }
        let deadline = Instant::now() + Duration::from_millis(timeout_ms + timeout_ms / 2 + 1500);
        let mut res = Ans::Unknown;
        let mut err = false;
        loop {
            let left = deadline.saturating_duration_since(Instant::now());
            match p.rx.recv_timeout(left) {
                Ok(l) => {
                    let t = l.trim().trim_matches('"');
                    if t == "<<done>>" {
                        break;
                    }
                    match t {
                        "sat" => res = Ans::Sat(vec![]),
                        "unsat" => res = Ans::Unsat,
                        _ => {
                            if t.starts_with("(error") && !t.contains("timeout") {
                                if std::env::var("SYMEX_DEBUG").is_ok() {
                                    eprintln!("solver error: {t}");
                                }
                                err = true;
                            }
                        }
                    }
                }
                Err(RecvTimeoutError::Timeout) | Err(RecvTimeoutError::Disconnected) => {
                    self.procs.remove(&w);
                    return Ans::Unknown;
                }
            }
        }
        if err {
            self.errors += 1;
            return Ans::Unknown;
        }
        if let Ans::Sat(m) = &mut res {
            if !vals.is_empty() {
                let q = format!("(get-value ({}))\n(echo \"<<done>>\")\n", vals.join(" "));
                if p.stdin.write_all(q.as_bytes()).is_err() || p.stdin.flush().is_err() {
                    self.procs.remove(&w);
                    return res;
                }
                let mut text = String::new();
                let deadline = Instant::now() + Duration::from_millis(5000);
                loop {
                    match p.rx.recv_timeout(deadline.saturating_duration_since(Instant::now())) {
                        Ok(l) => {
                            if l.trim().trim_matches('"') == "<<done>>" {
                                break;
                            }
                            text.push_str(&l);
                            text.push(' ');
                        }
                        Err(_) => {
                            self.procs.remove(&w);
                            return res;
                        }
                    }
                }
                *m = parse_values(&text);
            }
        }
        res
    }
}

/// S-expression.
#[derive(Clone, Debug)]
pub enum Sx {
    A(String),
    L(Vec<Sx>),
}
pub fn parse_sx(s: &str) -> Vec<Sx> {
    let mut stack: Vec<Vec<Sx>> = vec![vec![]];
    let mut cur = String::new();
    for ch in s.chars() {
        match ch {
            '(' | ')' | ' ' | '\n' | '\t' => {
                if !cur.is_empty() {
                    stack.last_mut().unwrap().push(Sx::A(std::mem::take(&mut cur)));
                }
                if ch == '(' {
                    stack.push(vec![]);
                } else if ch == ')' {
                    if stack.len() > 1 {
                        let l = stack.pop().unwrap();
                        stack.last_mut().unwrap().push(Sx::L(l));
                    }
                }
            }
            _ => cur.push(ch),
        }
    }
    if !cur.is_empty() {
        stack.last_mut().unwrap().push(Sx::A(cur));
    }
    stack.swap_remove(0)
}
fn show(s: &Sx) -> String {
    match s {
        Sx::A(a) => a.clone(),
        Sx::L(l) => format!("({})", l.iter().map(show).collect::<Vec<_>>().join(" ")),
    }
}
fn parse_values(t: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    for top in parse_sx(t) {
        if let Sx::L(ps) = top {
            for p in ps {
                if let Sx::L(kv) = p {
                    if kv.len() == 2 {
                        out.push((show(&kv[0]), show(&kv[1])));
                    }
                }
            }
        }
    }
    out
}
/// Numeric value of an SMT real/int/FP constant.
pub fn value_f64(v: &str) -> Option<f64> {
    fn ev(s: &Sx) -> Option<f64> {
        match s {
            Sx::A(a) => {
                let a = a.trim_end_matches('?');
                if let Ok(f) = a.parse::<f64>() {
                    return Some(f);
                }
                if let Some(b) = a.strip_prefix("#b") {
                    return u64::from_str_radix(b, 2).ok().map(|x| x as f64);
                }
                if let Some(b) = a.strip_prefix("#x") {
                    return u64::from_str_radix(b, 16).ok().map(|x| x as f64);
                }
                None
            }
            Sx::L(l) => {
                let head = match l.first()? {
                    Sx::A(a) => a.as_str(),
                    _ => return None,
                };
                match head {
                    "-" if l.len() == 2 => Some(-ev(&l[1])?),
                    "/" => Some(ev(&l[1])? / ev(&l[2])?),
                    "fp" => {
                        let bits = |s: &Sx| -> Option<String> {
                            match s {
                                Sx::A(a) => {
                                    if let Some(b) = a.strip_prefix("#b") {
                                        Some(b.to_string())
                                    } else {
                                        let h = a.strip_prefix("#x")?;
                                        let mut o = String::new();
                                        for c in h.chars() {
                                            o.push_str(&format!("{:04b}", c.to_digit(16)?));
                                        }
                                        Some(o)
                                    }
                                }
                                _ => None,
                            }
                        };
                        let (s, e, m) = (bits(&l[1])?, bits(&l[2])?, bits(&l[3])?);
                        fp_bits(&s, &e, &m)
                    }
                    "_" => {
                        let k = show(&l[1]);
                        match k.as_str() {
                            "+oo" => Some(f64::INFINITY),
                            "-oo" => Some(f64::NEG_INFINITY),
                            "NaN" => Some(f64::NAN),
                            "+zero" => Some(0.0),
                            "-zero" => Some(-0.0),
                            _ => None,
                        }
                    }
                    _ => None,
                }
            }
        }
    }
    parse_sx(v).first().and_then(ev)
}
fn fp_bits(s: &str, e: &str, m: &str) -> Option<f64> {
    let sgn = if s == "1" { -1.0 } else { 1.0 };
    let ev = i64::from_str_radix(e, 2).ok()?;
    let mv = u64::from_str_radix(m, 2).ok()?;
    let bias = (1i64 << (e.len() - 1)) - 1;
    let frac = mv as f64 / (1u64 << m.len()) as f64;
    if ev == (1i64 << e.len()) - 1 {
        return Some(if mv == 0 { sgn * f64::INFINITY } else { f64::NAN });
    }
    if ev == 0 {
        let mut v = frac;
        let mut k = 1 - bias;
        while k < -1000 {
            v *= 2f64.powi(-1000);
            k += 1000;
        }
        return Some(sgn * v * 2f64.powi(k as i32));
    }
    let mut v = 1.0 + frac;
    let mut k = ev - bias;
    while k < -1000 {
        v *= 2f64.powi(-1000);
        k += 1000;
    }
    Some(sgn * v * 2f64.powi(k as i32))
}
