//! z3 as a child process; every query is self-contained (`(reset)` first).
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub enum Ans {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    child: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub timeout_ms: u32,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let mut child = Command::new("z3")
            .arg("-in")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("z3");
        let i = child.stdin.take().unwrap();
        let o = BufReader::new(child.stdout.take().unwrap());
        Solver { child, i, o, queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, timeout_ms }
    }
    fn line(&mut self) -> String {
        let mut s = String::new();
        self.o.read_line(&mut s).expect("z3 answer");
        s.trim().to_string()
    }
    /// `script`: declarations and assertions; `vars`: bytes wanted in the model
    pub fn check(&mut self, script: &str, vars: &[u32]) -> Ans {
        let st = Instant::now();
        self.queries += 1;
        let mut q = format!(
            "(reset)\n(set-option :timeout {})\n(set-logic QF_BV)\n{script}(check-sat)\n",
            self.timeout_ms
        );
        q.push_str("(echo \"--\")\n");
        self.i.write_all(q.as_bytes()).expect("z3");
        self.i.flush().expect("z3");
        let mut r = String::new();
        loop {
            let l = self.line();
            if l == "--" {
                break;
            }
            if l.contains("error") {
                eprintln!("z3: {l}");
                r = "unknown".into();
            } else if r.is_empty() {
                r = l;
            }
        }
        let a = match r.as_str() {
            "unsat" => {
                self.unsat += 1;
                Ans::Unsat
            }
            "sat" => {
                self.sat += 1;
                let mut m = vec![];
                if !vars.is_empty() {
                    let mut g = String::from("(get-value (");
                    for v in vars {
                        g.push_str(&format!("v{v} "));
                    }
                    g.push_str("))\n(echo \"--\")\n");
                    self.i.write_all(g.as_bytes()).expect("z3");
                    self.i.flush().expect("z3");
                    let mut t = String::new();
                    loop {
                        let l = self.line();
                        if l == "--" {
                            break;
                        }
                        t.push_str(&l);
                        t.push(' ');
                    }
                    // ((v1 #x00) (v2 #xff))
                    for part in t.split('(') {
                        let part = part.trim().trim_end_matches(')').trim().trim_end_matches(')');
                        let mut w = part.split_whitespace();
                        if let (Some(n), Some(v)) = (w.next(), w.next()) {
                            if let (Some(n), Some(v)) = (n.strip_prefix('v'), v.strip_prefix("#x")) {
                                let v = v.trim_end_matches(')');
                                if let (Ok(n), Ok(v)) = (n.parse(), u8::from_str_radix(v, 16)) {
                                    m.push((n, v));
                                }
                            }
                        }
                    }
                }
                Ans::Sat(m)
            }
            _ => {
                self.unknown += 1;
                Ans::Unknown
            }
        };
        let el = st.elapsed().as_secs_f64();
        if el > 0.2 && std::env::var("LSYM_SLOW").is_ok() {
            let _ = std::fs::write(format!("{}/{}.smt2", std::env::var("LSYM_SLOW").unwrap(), self.queries), &q);
        }
        self.time += el;
        a
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
