//! Runs one counterexample against the real crate and the real BLS12-381 group.
//!   replay <violation.json>
//! exit 1: the failure reproduces; exit 0: it does not; anything else: the
//! replay itself failed.
#[path = "../../scen/scen.rs"]
mod scen;

use cosmian_bls12_381::{G1Affine, Gt, Scalar};
use ff::Field;
use group::Curve;
use scen::{Spec, Verdict, F};
use serde_json::Value;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static VALUES: RefCell<(usize, Vec<String>)> = const { RefCell::new((0, Vec::new())) };
}

fn big(t: &str) -> Scalar {
    let ten = Scalar::from(10u64);
    let t = t.trim();
    let (neg, t) = match t.strip_prefix('-') {
        Some(x) => (true, x),
        None => (false, t),
    };
    let t = t.strip_suffix(".0").unwrap_or(t);
    let mut s = Scalar::zero();
    for c in t.bytes() {
        assert!(c.is_ascii_digit(), "number {t}");
        s = s * ten + Scalar::from(u64::from(c - b'0'));
    }
    if neg {
        -s
    } else {
        s
    }
}

/// a number as the solver prints it, or `n/d`
fn number(t: &str) -> Scalar {
    let t = t.trim();
    if let Some(x) = t.strip_prefix("(-").and_then(|x| x.strip_suffix(')')) {
        return -number(x);
    }
    if let Some(x) = t.strip_prefix("(/").and_then(|x| x.strip_suffix(')')) {
        // two operands, each a number or a parenthesised negation
        let x = x.trim();
        let mut d = 0;
        for (i, c) in x.char_indices() {
            match c {
                '(' => d += 1,
                ')' => d -= 1,
                ' ' if d == 0 => {
                    return number(&x[..i]) * number(&x[i + 1..]).invert().unwrap();
                }
                _ => {}
            }
        }
        panic!("number {t}");
    }
    match t.split_once('/') {
        Some((n, d)) => big(n) * big(d).invert().unwrap(),
        None => big(t),
    }
}

/// "((x 1.0) (y (/ 1.0 2.0)) (b true))" -> pairs
fn model(t: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let b = t.as_bytes();
    let mut depth = 0;
    let mut start = 0;
    for (i, c) in b.iter().enumerate() {
        match c {
            b'(' => {
                depth += 1;
                if depth == 2 {
                    start = i + 1;
                }
            }
            b')' => {
                if depth == 2 {
                    let (k, v) = t[start..i].trim().split_once(' ').expect("pair");
                    out.insert(k.to_string(), v.trim().to_string());
                }
                depth -= 1;
            }
            _ => {}
        }
    }
    out
}

pub fn entry(t: &str) -> Scalar {
    if t != "?" {
        return number(t);
    }
    let v = VALUES.with(|v| {
        let mut v = v.borrow_mut();
        v.0 += 1;
        let i = v.0 - 1;
        v.1.get(i).cloned()
    });
    match v {
        Some(x) if x != "?" => number(&x),
        _ => <Scalar as Field>::random(&mut <rand_hc::Hc128Rng as rand_core::SeedableRng>::from_entropy()),
    }
}

/// is (1, .., 1) a combination of the rows?
fn spans(rows: &[Vec<Scalar>]) -> bool {
    let Some(cols) = rows.first().map(Vec::len) else {
        return false;
    };
    // columns are equations, unknowns are the row coefficients
    let n = rows.len();
    let mut m: Vec<Vec<Scalar>> = (0..cols)
        .map(|j| {
            let mut r: Vec<Scalar> = rows.iter().map(|x| x[j]).collect();
            r.push(Scalar::one());
            r
        })
        .collect();
    let mut top = 0;
    for c in 0..n {
        let Some(p) = (top..cols).find(|i| m[*i][c] != Scalar::zero()) else {
            continue;
        };
        m.swap(top, p);
        let inv = m[top][c].invert().unwrap();
        for i in 0..cols {
            if i != top && m[i][c] != Scalar::zero() {
                let k = m[i][c] * inv;
                for x in 0..=n {
                    let d = k * m[top][x];
                    m[i][x] -= d;
                }
            }
        }
        top += 1;
    }
    m[top..].iter().all(|r| r[n] == Scalar::zero())
}

fn attack(spec: &Spec, extra: &Value) -> Result<String, String> {
    let w = scen::world(spec);
    let m = model(extra["model"].as_str().expect("model"));
    let get = |k: &str| m.get(k).map_or(Scalar::zero(), |t| number(t));
    let t = extra["target"].as_u64().unwrap() as usize;
    let on = |c: usize, a: u32| m.get(&format!("g{c}_{a}")).map(String::as_str) == Some("true");
    for f in &w.held {
        if f.eval(&|a| on(t, a)) {
            return Err(format!("model is inconsistent: key {} is entitled", f.text()));
        }
    }
    // sum over the key-side of e(sum_j x_ij E_j, D_i)
    let mut acc = Gt::identity();
    for (i, d) in w.d.iter().enumerate() {
        let mut left = cosmian_bls12_381::G1Projective::identity();
        for (j, e) in w.e.iter().enumerate() {
            let x = get(&format!("x{i}_{j}"));
            if x == Scalar::zero() {
                continue;
            }
            if let Some((c, a)) = w.guard[j] {
                if !on(c, a) {
                    return Err("model uses an element it does not have".into());
                }
            }
            left += e * x;
        }
        let left: G1Affine = left.to_affine();
        acc += cosmian_bls12_381::pairing(&left, d);
    }
    for (k, g) in w.gt.iter().enumerate() {
        acc += g * get(&format!("y{k}"));
    }
    let mut want = Gt::identity();
    for (j, p) in w.targets.iter().enumerate() {
        want += p * get(&format!("l{j}"));
    }
    if get(&format!("l{t}")) != Scalar::one() {
        return Err("model does not isolate the target".into());
    }
    let attrs: Vec<u32> = w.universe.iter().copied().filter(|a| on(t, *a)).collect();
    if acc == want {
        Ok(format!("a coalition holding {:?} computes the plaintext (combination {}) of a ciphertext with attributes {attrs:?}",
            w.held.iter().map(F::text).collect::<Vec<_>>(),
            (0..w.targets.len()).map(|j| format!("{}", m.get(&format!("l{j}")).cloned().unwrap_or_default())).collect::<Vec<_>>().join(" ")))
    } else {
        Err("the combination does not give the plaintext".into())
    }
}

fn main() {
    let v: Value =
        serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(1).expect("file")).unwrap()).unwrap();
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {at}"));
    }));
    let spec = Spec::parse(v["spec"].as_str().expect("spec"));
    // values of the symbolic entries ("v<id> value" in order of appearance)
    if let Some(ms) = v["extra"].as_array() {
        let text: String = ms.iter().filter_map(Value::as_str).collect::<Vec<_>>().join(" ");
        let mut vals: Vec<(u32, String)> = model(&text)
            .into_iter()
            .filter_map(|(k, x)| k.strip_prefix("e_").and_then(|n| n.parse().ok()).map(|n: u32| (n, x)))
            .collect();
        vals.sort();
        let top = vals.last().map_or(0, |x| x.0) as usize;
        let mut list = vec!["?".to_string(); top];
        for (n, x) in vals {
            if !x.contains("root-obj") {
                list[n as usize - 1] = x;
            }
        }
        VALUES.with(|v| v.borrow_mut().1 = list);
    }
    if spec.get("family") == "world" {
        match catch_unwind(AssertUnwindSafe(|| {
            if v["kind"] == "attack" {
                attack(&spec, &v["extra"])
            } else {
                scen::world(&spec);
                Err("no panic".into())
            }
        })) {
            Ok(Ok(m)) => {
                println!("REPRODUCED {m}");
                std::process::exit(1);
            }
            Ok(Err(m)) => {
                println!("not reproduced: {m}");
                std::process::exit(0);
            }
            Err(_) => {
                println!("REPRODUCED panic: {}", PANIC.with(|p| p.borrow().clone()));
                std::process::exit(1);
            }
        }
    }
    if spec.get("family") == "lin" {
        let f = F::parse(spec.get("f"));
        let ok = match catch_unwind(|| f.node().to_msp()) {
            Ok(Ok(m)) => {
                m.rows() == f.leaves().len() && m.matrix().iter().all(|r| r.len() == m.cols())
            }
            _ => false,
        };
        println!("{}", if ok { "not reproduced" } else { "REPRODUCED formula refused or malformed span program" });
        std::process::exit(i32::from(!ok));
    }
    let r = catch_unwind(AssertUnwindSafe(|| scen::run(&spec)));
    let mut bad = Vec::new();
    match r {
        Err(_) => bad.push(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
        Ok(vs) => {
            for v in &vs {
                match v {
                    Verdict::Must { what, ok } => {
                        if !ok {
                            bad.push(what.clone());
                        }
                    }
                    Verdict::Eq { what, got, want } => {
                        if got != want {
                            bad.push(format!("not equal: {what}"));
                        }
                    }
                    Verdict::NoSol { what, rows } => {
                        if spans(rows) {
                            bad.push(format!("{what}, although the rows span the target"));
                        }
                    }
                }
            }
        }
    }
    for b in bad.iter().take(4) {
        println!("REPRODUCED {b}");
    }
    if bad.is_empty() {
        println!("not reproduced");
    }
    std::process::exit(i32::from(!bad.is_empty()));
}
