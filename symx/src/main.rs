//! Native symbolic-domain execution of the real crate: see /verif/DESIGN.md.
#[path = "../../scen/scen.rs"]
mod scen;
mod adv;
mod fork;
mod jobs;
mod lin;
mod obl;
mod smt;

use cosmian_bls12_381::sym;
use jobs::Job;
use scen::{Spec, Verdict};
use serde_json::{json, Value};
use smt::{Ans, Smt};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static ENTRY: RefCell<u32> = const { RefCell::new(0) };
}

/// matrix entry of the `span` family
pub fn entry(t: &str) -> cosmian_bls12_381::Scalar {
    if t == "?" {
        let n = ENTRY.with(|e| {
            *e.borrow_mut() += 1;
            *e.borrow()
        });
        cosmian_bls12_381::Scalar::from_handle(sym::fresh_var(&format!("e_{n}")))
    } else {
        let (n, d) = t.split_once('/').unwrap_or((t, "1"));
        cosmian_bls12_381::Scalar::from_handle(sym::rational(sym::Rat::new(
            n.parse().unwrap(),
            d.parse().unwrap(),
        )))
    }
}

#[derive(Default)]
pub struct Out {
    pub violations: Vec<Value>,
    pub inconclusive: Vec<String>,
    pub count: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub secs: f64,
}

impl Out {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.count.entry(k.to_string()).or_insert(0) += n;
    }
    fn merge(&mut self, o: Out) {
        self.violations.extend(o.violations);
        self.inconclusive.extend(o.inconclusive);
        for (k, n) in o.count {
            self.add(&k, n);
        }
        if self.samples.len() < 6 {
            self.samples.extend(o.samples.into_iter().take(2));
        }
        self.secs += o.secs;
    }
    pub fn violation(&mut self, kind: &str, spec: &str, what: &str, extra: Value) {
        self.violations
            .push(json!({"kind": kind, "spec": spec, "what": what, "extra": extra}));
    }
}

/// run a scenario; a panic of the code under test becomes a failed verdict
fn guarded(spec: &Spec) -> Result<Vec<Verdict>, String> {
    ENTRY.with(|e| *e.borrow_mut() = 0);
    PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(|| scen::run(spec)))
        .map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

fn check_eq(
    smt: &mut Smt,
    out: &mut Out,
    conds: &[(sym::Poly, bool)],
    a: u32,
    b: u32,
) -> (Ans, Vec<String>) {
    let (text, vals) = sym::read(|ar| {
        let mut e = obl::Emit::default();
        fork::emit_conds(&mut e, ar, conds);
        let x = e.node(ar, ar.vals[a as usize].0);
        let y = e.node(ar, ar.vals[b as usize].0);
        let mut t = e.text;
        t.push_str(&format!("(assert (not (= {x} {y})))\n"));
        let vs: Vec<String> = ar
            .vars
            .iter()
            .enumerate()
            .filter(|(i, v)| v.name.starts_with("e_") && t.contains(&format!("(declare-const v{i} ")))
            .map(|(i, _)| format!("v{i}"))
            .collect();
        let g = if vs.is_empty() { String::new() } else { format!("(get-value ({}))", vs.join(" ")) };
        (t, g)
    });
    out.add("solver_obligations", 1);
    smt.check(&text, &vals)
}

fn settle(
    smt: &mut Smt,
    out: &mut Out,
    spec: &Spec,
    conds: &[(sym::Poly, bool)],
    vs: &[Verdict],
    witness: bool,
) {
    for v in vs {
        match v {
            Verdict::Must { what, ok } => {
                out.add("structural_verdicts", 1);
                if !ok {
                    let w = path_witness(smt, conds);
                    out.violation("verdict", &spec.text(), what, w);
                }
            }
            Verdict::Eq { what, got, want } => {
                let (ans, model) = check_eq(smt, out, conds, got.handle(), want.handle());
                match ans {
                    Ans::Unsat => out.add("equalities_proved", 1),
                    Ans::Sat => out.violation("equality", &spec.text(), what, json!(named(&model))),
                    Ans::Unknown => out
                        .inconclusive
                        .push(format!("{what}: solver gave no answer")),
                }
                if witness {
                    // the same obligation, wrong by one: must be refuted
                    let wrong = sym::add(want.handle(), 1);
                    match check_eq(smt, out, conds, got.handle(), wrong).0 {
                        Ans::Sat => out.add("vacuity_witnesses", 1),
                        Ans::Unsat => out.inconclusive.push(format!("{what}: VACUOUS")),
                        Ans::Unknown => {}
                    }
                }
            }
            Verdict::NoSol { what, rows } => {
                let text = sym::read(|ar| {
                    let mut e = obl::Emit::default();
                    fork::emit_conds(&mut e, ar, conds);
                    let cols = rows.first().map_or(0, Vec::len);
                    let mut t = String::new();
                    let names: Vec<Vec<String>> = rows
                        .iter()
                        .map(|r| r.iter().map(|x| e.node(ar, ar.vals[x.handle() as usize].0)).collect())
                        .collect();
                    for i in 0..rows.len() {
                        t.push_str(&format!("(declare-const b{i} Real)\n"));
                    }
                    for j in 0..cols {
                        let s: Vec<String> =
                            (0..rows.len()).map(|i| format!("(* b{i} {})", names[i][j])).collect();
                        t.push_str(&format!("(assert (= (+ 0.0 {}) 1.0))\n", s.join(" ")));
                    }
                    e.text + &t
                });
                out.add("solver_obligations", 1);
                match smt.check(&text, "").0 {
                    Ans::Unsat => out.add("refusals_proved", 1),
                    Ans::Sat => {
                        let w = path_witness(smt, conds);
                        out.violation("refusal", &spec.text(), what, w);
                    }
                    Ans::Unknown => out
                        .inconclusive
                        .push(format!("{what}: solver gave no answer")),
                }
            }
        }
    }
    encodings(smt, out, spec, conds);
}

/// solver names -> names of the symbolic inputs
fn named(lines: &[String]) -> Vec<String> {
    let text = lines.join(" ");
    let mut out = String::new();
    let mut rest = text.as_str();
    while let Some(i) = rest.find("(v") {
        out.push_str(&rest[..i + 1]);
        rest = &rest[i + 2..];
        let n = rest.bytes().take_while(u8::is_ascii_digit).count();
        match rest[..n].parse::<usize>() {
            Ok(v) => out.push_str(&sym::read(|a| a.vars[v].name.clone())),
            Err(_) => out.push_str(&format!("v{}", &rest[..n])),
        }
        rest = &rest[n..];
    }
    out.push_str(rest);
    vec![out]
}

/// values of the symbolic inputs that follow this path
fn path_witness(smt: &mut Smt, conds: &[(sym::Poly, bool)]) -> Value {
    if conds.is_empty() {
        return json!([]);
    }
    let (t, vals) = sym::read(|a| {
        let mut e = obl::Emit::default();
        fork::emit_conds(&mut e, a, conds);
        let vs: Vec<String> = a
            .vars
            .iter()
            .enumerate()
            .filter(|(_, v)| v.name.starts_with("e_"))
            .map(|(i, _)| e.var(a, i as u32))
            .collect();
        let g = if vs.is_empty() { String::new() } else { format!("(get-value ({}))", vs.join(" ")) };
        (e.text, g)
    });
    json!(named(&smt.check(&t, &vals).1))
}

/// every value whose bytes were taken: the canonical form used for the bytes
/// must equal the computed value
fn encodings(smt: &mut Smt, out: &mut Out, spec: &Spec, conds: &[(sym::Poly, bool)]) {
    let n = sym::read(|a| a.encoded.len());
    for i in 0..n {
        let text = sym::read(|a| {
            let h = a.encoded[i];
            let (node, poly) = a.vals[h as usize];
            if let sym::Node::Poly(p) = &a.nodes[node as usize] {
                if *p == poly {
                    return None;
                }
            }
            let mut e = obl::Emit::default();
            fork::emit_conds(&mut e, a, conds);
            let x = e.node(a, node);
            let y = e.poly(a, poly);
            Some(e.text + &format!("(assert (not (= {x} {y})))\n"))
        });
        let Some(text) = text else { continue };
        out.add("encoding_obligations", 1);
        match smt.check(&text, "").0 {
            Ans::Unsat => out.add("encodings_proved", 1),
            Ans::Sat => out
                .inconclusive
                .push(format!("{}: canonical form is wrong (engine fault)", spec.text())),
            Ans::Unknown => out
                .inconclusive
                .push(format!("{}: encoding obligation undecided", spec.text())),
        }
    }
}

fn run_job(job: &Job, smt: &Rc<RefCell<Smt>>, out: &mut Out, no: usize) {
    match job {
        Job::Scen(spec) => {
            sym::reset();
            sym::set_oracle(None);
            out.add("executions", 1);
            match guarded(spec) {
                Ok(vs) => {
                    let s = &mut smt.borrow_mut();
                    settle(s, out, spec, &[], &vs, no % 40 == 0);
                    if out.samples.len() < 2 {
                        let (ops, nodes, vars) =
                            sym::read(|a| (a.op_count, a.nodes.len(), a.vars.len()));
                        out.samples.push(json!({"scenario": spec.text(),
                            "symbolic_operations": ops, "dag_nodes": nodes, "symbolic_variables": vars,
                            "verdicts": vs.len()}));
                    }
                }
                Err(p) if p.contains("symbls:") => {
                    out.inconclusive.push(format!("{}: {p}", spec.text()));
                }
                Err(p) => out.violation("panic", &spec.text(), &format!("panics: {p}"), json!([])),
            }
        }
        Job::Fork(spec) => {
            let o = RefCell::new(std::mem::take(out));
            let (paths, complete, unk, generic) = fork::explore(
                smt.clone(),
                40000,
                || guarded(spec),
                |r, path, s| {
                    let out = &mut *o.borrow_mut();
                    match r {
                        Ok(vs) => settle(s, out, spec, &path.conds, &vs, no % 4 == 0),
                        Err(p) if p.contains("symbls:") => {
                            out.inconclusive.push(format!("{}: {p}", spec.text()));
                        }
                        Err(p) => {
                            let w = path_witness(s, &path.conds);
                            out.violation("panic", &spec.text(), &format!("panics: {p}"), w);
                        }
                    }
                },
            );
            *out = o.into_inner();
            out.add("paths", paths as u64);
            out.add("branch_queries_unknown_both_sides_kept", unk);
            out.add("generic_nonzero_assumptions", generic);
            if !complete {
                out.inconclusive.push(format!("{}: path limit", spec.text()));
            }
            if out.samples.len() < 2 {
                out.samples.push(json!({"scenario": spec.text(), "paths": paths}));
            }
        }
        Job::Lin(f) => lin::job(f, &mut smt.borrow_mut(), out),
        Job::World(spec) => {
            sym::reset();
            sym::set_oracle(None);
            adv::job(spec, &mut smt.borrow_mut(), out, no % 8 == 0);
            encodings(&mut smt.borrow_mut(), out, spec, &[]);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (prop, tier, dest) = (&args[1], &args[2], &args[3]);
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {at}"));
    }));
    let jobs = if prop == "one" {
        let s = Spec::parse(tier);
        vec![if s.get("family") == "world" {
            Job::World(s)
        } else if s.get("m").contains('?') {
            Job::Fork(s)
        } else {
            Job::Scen(s)
        }]
    } else {
        jobs::list(prop, tier == "thorough")
    };
    let budget: f64 = std::env::var("SYMX_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(700.0);
    let next = AtomicUsize::new(0);
    let total = Mutex::new(Out::default());
    let t0 = std::time::Instant::now();
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || {
                    let smt = Rc::new(RefCell::new(Smt::new(20_000)));
                    let mut out = Out::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= jobs.len() {
                            break;
                        }
                        if t0.elapsed().as_secs_f64() > budget {
                            out.add("jobs_not_run_out_of_time", 1);
                            continue;
                        }
                        let t = std::time::Instant::now();
                        run_job(&jobs[i], &smt, &mut out, i);
                        if std::env::var("SYMX_SLOW").is_ok() && t.elapsed().as_secs_f64() > 2.0 {
                            eprintln!("{:.1}s {:?}", t.elapsed().as_secs_f64(), jobs[i]);
                        }
                    }
                    let s = smt.borrow();
                    out.add("solver_queries", s.queries);
                    out.add("solver_unsat", s.unsat);
                    out.add("solver_sat", s.sat);
                    out.add("solver_unknown", s.unknown);
                    out.secs += s.secs;
                    total.lock().unwrap().merge(out);
                })
                .unwrap();
        }
    });
    let mut o = total.into_inner().unwrap();
    o.add("jobs", jobs.len() as u64);
    let j = json!({"violations": o.violations, "inconclusive": o.inconclusive, "count": o.count,
        "samples": o.samples, "solver_s": o.secs, "wall_s": t0.elapsed().as_secs_f64()});
    std::fs::write(dest, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    println!(
        "symx {prop}: {} jobs, {} violations, {} inconclusive, {:.1}s wall, {:.1}s solver",
        jobs.len(),
        o.violations.len(),
        o.inconclusive.len(),
        t0.elapsed().as_secs_f64(),
        o.secs
    );
}
