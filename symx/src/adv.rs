//! Generic-group adversary: can any linear combination of everything a
//! coalition can compute (pairings of all key-side with all ciphertext-side
//! elements, and all target-group elements) isolate a plaintext that none of
//! its keys is entitled to?
use crate::scen::{self, Spec, F};
use crate::smt::{Ans, Smt};
use crate::Out;
use cosmian_bls12_381::sym::{self, Mono, Poly, Rat};
use serde_json::json;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn formula(f: &F, c: usize) -> String {
    match f {
        F::L(v) => format!("g{c}_{v}"),
        F::And(a, b) => format!("(and {} {})", formula(a, c), formula(b, c)),
        F::Or(a, b) => format!("(or {} {})", formula(a, c), formula(b, c)),
    }
}

pub fn job(spec: &Spec, smt: &mut Smt, out: &mut Out, witness: bool) {
    out.add("worlds", 1);
    let w = match catch_unwind(AssertUnwindSafe(|| scen::world(spec))) {
        Ok(w) => w,
        Err(_) => {
            let p = crate::PANIC.with(|p| p.borrow().clone());
            if p.contains("symbls:") {
                out.inconclusive.push(format!("{}: {p}", spec.text()));
            } else {
                out.violation("panic", &spec.text(), &format!("panics: {p}"), json!([]));
            }
            return;
        }
    };
    // every term the coalition can form: (name, guard, poly)
    let mut terms: Vec<(String, Option<(usize, u32)>, Poly)> = Vec::new();
    sym::read(|a| {
        for (i, d) in w.d.iter().enumerate() {
            for (j, e) in w.e.iter().enumerate() {
                let p = sym::p_mul(a.poly(d.handle()), a.poly(e.handle()));
                terms.push((format!("x{i}_{j}"), w.guard[j], p));
            }
        }
        for (k, g) in w.gt.iter().enumerate() {
            terms.push((format!("y{k}"), None, a.poly(g.handle()).clone()));
        }
    });
    out.add("adversary_terms", terms.len() as u64);
    let targets: Vec<Poly> =
        sym::read(|a| w.targets.iter().map(|m| a.poly(m.handle()).clone()).collect());
    // soundness of the model: every plaintext must be an independent draw
    for t in 0..targets.len() {
        let mut by: BTreeMap<&Mono, Vec<(Rat, &str)>> = BTreeMap::new();
        for (n, _, p) in &terms {
            for (m, c) in p {
                by.entry(m).or_default().push((*c, n));
            }
        }
        let names: Vec<String> = (0..targets.len()).map(|j| format!("l{j}")).collect();
        for (j, p) in targets.iter().enumerate() {
            for (m, c) in p {
                by.entry(m).or_default().push((c.neg(), &names[j]));
            }
        }
        let mut q = String::new();
        for c in 0..targets.len() {
            for a in &w.universe {
                let _ = writeln!(q, "(declare-const g{c}_{a} Bool)");
            }
        }
        for (n, g, _) in &terms {
            let _ = writeln!(q, "(declare-const {n} Real)");
            if let Some((c, a)) = g {
                let _ = writeln!(q, "(assert (or g{c}_{a} (= {n} 0.0)))");
            }
        }
        for n in &names {
            let _ = writeln!(q, "(declare-const {n} Real)");
        }
        let _ = writeln!(q, "(assert (= l{t} 1.0))");
        for cs in by.values() {
            let s: Vec<String> = cs.iter().map(|(c, n)| format!("(* {} {n})", c.smt())).collect();
            let _ = writeln!(q, "(assert (= (+ 0.0 {}) 0.0))", s.join(" "));
        }
        let mut deny = String::new();
        for f in &w.held {
            let _ = writeln!(deny, "(assert (not {}))", formula(f, t));
        }
        let vals: Vec<String> = terms
            .iter()
            .map(|(n, _, _)| n.clone())
            .chain(names.iter().cloned())
            .chain((0..targets.len()).flat_map(|c| {
                w.universe.iter().map(move |a| format!("g{c}_{a}")).collect::<Vec<_>>()
            }))
            .collect();
        out.add("solver_obligations", 1);
        match smt.check(&format!("{q}{deny}"), &format!("(get-value ({}))", vals.join(" "))) {
            (Ans::Unsat, _) => out.add("secrecy_proved", 1),
            (Ans::Sat, m) => out.violation(
                "attack",
                &spec.text(),
                &format!("an unauthorised coalition computes plaintext {t}"),
                json!({"target": t, "model": m.join(" ")}),
            ),
            (Ans::Unknown, _) => out
                .inconclusive
                .push(format!("{}: secrecy query undecided", spec.text())),
        }
        // twin without the entitlement condition: the attack must then exist
        if witness && !w.held.is_empty() {
            match smt.check(&q, "").0 {
                Ans::Sat => out.add("vacuity_witnesses", 1),
                Ans::Unsat => out.inconclusive.push(format!("{}: VACUOUS", spec.text())),
                Ans::Unknown => {}
            }
        }
    }
    if out.samples.len() < 2 {
        out.samples.push(json!({"world": spec.text(), "terms": terms.len(),
            "held": w.held.iter().map(F::text).collect::<Vec<_>>()}));
    }
}
