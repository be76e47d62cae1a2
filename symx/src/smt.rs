//! One persistent solver process, spoken to in SMT-LIB.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ans {
    Sat,
    Unsat,
    Unknown,
}

pub struct Smt {
    bin: String,
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub timeout_ms: u64,
}

impl Smt {
    pub fn new(timeout_ms: u64) -> Smt {
        Self::with_bin("z3", timeout_ms)
    }

    pub fn with_bin(bin: &str, timeout_ms: u64) -> Smt {
        let (child, tx, rx) = Self::spawn(bin);
        let mut s = Smt {
            bin: bin.to_string(),
            child,
            tx,
            rx,
            queries: 0,
            unsat: 0,
            sat: 0,
            unknown: 0,
            secs: 0.0,
            timeout_ms,
        };
        s.init();
        s
    }

    fn spawn(bin: &str) -> (Child, ChildStdin, BufReader<ChildStdout>) {
        let mut child = Command::new(bin)
            .args(["-in", "-smt2", "smt.arith.solver=2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("solver starts");
        let tx = child.stdin.take().unwrap();
        let rx = BufReader::new(child.stdout.take().unwrap());
        (child, tx, rx)
    }

    fn init(&mut self) {
        let t = self.timeout_ms;
        self.send(&format!("(set-option :timeout {t})\n"));
    }

    pub fn send(&mut self, s: &str) {
        self.tx.write_all(s.as_bytes()).expect("solver alive");
    }

    /// run the commands and return every line the solver printed
    pub fn ask(&mut self, s: &str) -> Vec<String> {
        self.send(s);
        self.send("\n(echo \"@@done\")\n");
        self.tx.flush().expect("solver alive");
        let mut out = Vec::new();
        loop {
            let mut l = String::new();
            let n = self.rx.read_line(&mut l).expect("solver alive");
            assert!(n > 0, "solver died");
            let l = l.trim().to_string();
            if l == "@@done" || l == "\"@@done\"" {
                return out;
            }
            if !l.is_empty() {
                out.push(l);
            }
        }
    }

    /// check `decls` (inside a push/pop); optionally fetch values of `vals`
    pub fn check(&mut self, decls: &str, vals: &str) -> (Ans, Vec<String>) {
        let t = Instant::now();
        let r = self.ask(&format!("(reset)\n(set-option :timeout {})\n{decls}\n(check-sat)", self.timeout_ms));
        let ans = if r.iter().any(|l| l.starts_with("(error")) || r.len() != 1 {
            Ans::Unknown
        } else {
            match r[0].as_str() {
                "sat" => Ans::Sat,
                "unsat" => Ans::Unsat,
                _ => Ans::Unknown,
            }
        };
        if std::env::var("SYMX_DEBUG").is_ok() && ans == Ans::Unknown {
            eprintln!("unknown: {r:?}\n{decls}");
        }
        let model = if ans == Ans::Sat && !vals.is_empty() {
            self.ask(vals)
        } else {
            Vec::new()
        };
        if let Ok(d) = std::env::var("SYMX_DUMP") {
            let e = t.elapsed().as_secs_f64();
            if e > 1.0 {
                std::fs::write(format!("{d}/q{}_{:.0}.smt2", self.queries, e), format!("{decls}\n(check-sat)\n")).unwrap();
            }
        }
        self.queries += 1;
        self.secs += t.elapsed().as_secs_f64();
        match ans {
            Ans::Sat => self.sat += 1,
            Ans::Unsat => self.unsat += 1,
            Ans::Unknown => self.unknown += 1,
        }
        (ans, model)
    }
}

impl Drop for Smt {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = &self.bin;
    }
}
