//! Incremental SMT solver processes (z3 and cvc5), QF_NRA.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Answer {
    Sat,
    Unsat,
    Unknown,
}

pub struct Proc {
    name: &'static str,
    cmd: Vec<String>,
    child: Option<(Child, ChildStdin, Receiver<String>)>,
    limit_ms: u64,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time: f64,
}

impl Proc {
    pub fn z3(limit_ms: u64) -> Proc {
        Proc::new("z3", vec!["z3".into(), "-in".into(), "-smt2".into(), format!("-t:{}", limit_ms)], limit_ms)
    }
    pub fn cvc5(limit_ms: u64) -> Proc {
        Proc::new(
            "cvc5",
            vec!["cvc5".into(), "--lang=smt2".into(), "--incremental".into(), format!("--tlimit-per={}", limit_ms)],
            limit_ms,
        )
    }
    fn new(name: &'static str, cmd: Vec<String>, limit_ms: u64) -> Proc {
        Proc { name, cmd, child: None, limit_ms, queries: 0, unsat: 0, sat: 0, unknown: 0, time: 0.0 }
    }
    fn start(&mut self) -> bool {
        if self.child.is_some() {
            return true;
        }
        let ch = Command::new(&self.cmd[0])
            .args(&self.cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn();
        let mut ch = match ch {
            Ok(c) => c,
            Err(_) => return false,
        };
        let si = ch.stdin.take().unwrap();
        let so = ch.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.child = Some((ch, si, rx));
        self.send("(set-logic QF_NRA)\n");
        true
    }
    pub fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    fn send(&mut self, s: &str) -> bool {
        if let Some((_, si, _)) = &mut self.child {
            si.write_all(s.as_bytes()).and_then(|_| si.flush()).is_ok()
        } else {
            false
        }
    }
    fn line(&mut self, d: Duration) -> Option<String> {
        self.child.as_ref().and_then(|(_, _, rx)| rx.recv_timeout(d).ok())
    }
    /// Runs one query (declarations, definitions and assertions without push/pop).
    /// With `want`, on sat, returns the values of those symbols.
    pub fn check(&mut self, body: &str, want: &[String]) -> (Answer, Vec<(String, String)>) {
        self.check_for(body, want, self.limit_ms)
    }
    pub fn check_for(&mut self, body: &str, want: &[String], ms: u64) -> (Answer, Vec<(String, String)>) {
        let t0 = Instant::now();
        self.queries += 1;
        let r = self.check_inner(body, want, ms.min(self.limit_ms));
        self.time += t0.elapsed().as_secs_f64();
        match r.0 {
            Answer::Sat => self.sat += 1,
            Answer::Unsat => self.unsat += 1,
            Answer::Unknown => self.unknown += 1,
        }
        r
    }
    fn check_inner(&mut self, body: &str, want: &[String], ms: u64) -> (Answer, Vec<(String, String)>) {
        if !self.start() {
            return (Answer::Unknown, vec![]);
        }
        let q = format!("(push 1)\n{}(check-sat)\n", body);
        if !self.send(&q) {
            self.kill();
            return (Answer::Unknown, vec![]);
        }
        let wait = Duration::from_millis(ms + 1000);
        let ans = loop {
            match self.line(wait) {
                None => {
                    self.kill();
                    return (Answer::Unknown, vec![]);
                }
                Some(l) => {
                    let l = l.trim();
                    if l == "sat" {
                        break Answer::Sat;
                    } else if l == "unsat" {
                        break Answer::Unsat;
                    } else if l.is_empty() || l == "success" {
                        continue;
                    } else {
                        // unknown, timeout or an error: inconclusive, restart the process
                        let _ = self.name;
                        self.kill();
                        return (Answer::Unknown, vec![]);
                    }
                }
            }
        };
        let mut vals = vec![];
        if ans == Answer::Sat && !want.is_empty() {
            for w in want {
                self.send(&format!("(get-value ({}))\n", w));
                let mut s = String::new();
                loop {
                    match self.line(Duration::from_millis(2000)) {
                        None => {
                            self.kill();
                            return (ans, vec![]);
                        }
                        Some(l) => {
                            s.push_str(&l);
                            s.push(' ');
                            let open = s.matches('(').count();
                            let close = s.matches(')').count();
                            if open == close {
                                break;
                            }
                        }
                    }
                }
                vals.push((w.clone(), s));
            }
        }
        self.send("(pop 1)\n");
        (ans, vals)
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        self.kill();
    }
}
