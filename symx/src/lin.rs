//! The span program of a formula, against every set of attributes at once.
use crate::scen::F;
use crate::smt::{Ans, Smt};
use crate::Out;
use cosmian_bls12_381::sym;
use serde_json::json;
use std::fmt::Write;

fn formula(f: &F) -> String {
    match f {
        F::L(v) => format!("s{v}"),
        F::And(a, b) => format!("(and {} {})", formula(a), formula(b)),
        F::Or(a, b) => format!("(or {} {})", formula(a), formula(b)),
    }
}

fn num(x: i32) -> String {
    if x < 0 {
        format!("(- {}.0)", x.unsigned_abs())
    } else {
        format!("{x}.0")
    }
}

pub fn job(f: &F, smt: &mut Smt, out: &mut Out) {
    sym::reset();
    let spec = format!("family=lin;f={}", f.text());
    out.add("span_programs", 1);
    let m = match std::panic::catch_unwind(|| f.node().to_msp()) {
        Ok(Ok(m)) => m,
        // (an attribute used twice is documented as unsupported)
        Ok(Err(_)) if f.leaves().len() > f.leaves().into_iter().collect::<std::collections::BTreeSet<u32>>().len() => {
            out.add("formulas_refused", 1);
            return;
        }
        Ok(Err(e)) => {
            out.violation("lin", &spec, &format!("formula refused: {e}"), json!([]));
            return;
        }
        Err(_) => {
            out.violation("lin", &spec, "to_msp panics", json!([]));
            return;
        }
    };
    let mut leaves = f.leaves();
    leaves.sort_unstable();
    leaves.dedup();
    let mut head = String::new();
    for l in &leaves {
        let _ = writeln!(head, "(declare-const s{l} Bool)");
    }
    let (rows, cols) = (m.rows(), m.cols());
    if rows != m.matrix().len() || m.matrix().iter().any(|r| r.len() != cols) {
        out.violation("lin", &spec, "the span program's matrix does not have the announced size", json!([]));
        return;
    }
    let get = format!(
        "(get-value ({}))",
        leaves.iter().map(|l| format!("s{l}")).collect::<Vec<_>>().join(" ")
    );
    // soundness: a combination exists although the formula is false
    let mut t = head.clone();
    for i in 0..rows {
        let a = m.get_attr_from_row(i);
        if !leaves.contains(&a) {
            out.violation("lin", &spec, "the span program speaks of an attribute that the formula does not", json!([]));
            return;
        }
        let _ = writeln!(t, "(declare-const a{i} Real)\n(assert (or s{a} (= a{i} 0.0)))");
    }
    for j in 0..cols {
        let s: Vec<String> = (0..rows)
            .map(|i| format!("(* {} a{i})", num(m.matrix()[i][j])))
            .collect();
        let _ = writeln!(t, "(assert (= (+ 0.0 {}) 1.0))", s.join(" "));
    }
    let sound = format!("{t}(assert (not {}))", formula(f));
    // completeness: the formula is true, yet some w separates the rows from (1..1)
    let mut u = head;
    for j in 0..cols {
        let _ = writeln!(u, "(declare-const w{j} Real)");
    }
    let ws: Vec<String> = (0..cols).map(|j| format!("w{j}")).collect();
    let _ = writeln!(u, "(assert (= (+ 0.0 {}) 1.0))", ws.join(" "));
    for i in 0..rows {
        let s: Vec<String> = (0..cols)
            .map(|j| format!("(* {} w{j})", num(m.matrix()[i][j])))
            .collect();
        let _ = writeln!(
            u,
            "(assert (=> s{} (= (+ 0.0 {}) 0.0)))",
            m.get_attr_from_row(i),
            s.join(" ")
        );
    }
    let complete = format!("{u}(assert {})", formula(f));
    for (what, q) in [
        ("opens for an attribute set that does not satisfy the formula", sound),
        ("does not open for an attribute set that satisfies the formula", complete),
    ] {
        out.add("solver_obligations", 1);
        match smt.check(&q, &get) {
            (Ans::Unsat, _) => out.add("span_program_sides_proved", 1),
            (Ans::Sat, m) => {
                let m = m.join(" ");
                let on: Vec<String> = leaves
                    .iter()
                    .filter(|l| m.contains(&format!("(s{l} true)")))
                    .map(ToString::to_string)
                    .collect();
                let size = leaves.iter().max().unwrap() + 2;
                out.violation(
                    "lin",
                    &format!("attrs={};f={};family=fml;route=direct;size={size}", on.join(","), f.text()),
                    what,
                    json!(m),
                );
            }
            (Ans::Unknown, _) => out.inconclusive.push(format!("{spec}: {what}: no answer")),
        }
    }
}
