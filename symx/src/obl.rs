//! From the arena of symbolic values to SMT-LIB text.
use cosmian_bls12_381::sym::{Arena, Node, Poly};
use std::collections::BTreeSet;
use std::fmt::Write;

/// A self-contained block of declarations and definitions for a set of values.
#[derive(Default)]
pub struct Emit {
    pub text: String,
    nodes: BTreeSet<u32>,
    polys: BTreeSet<u32>,
    vars: BTreeSet<u32>,
    ivars: BTreeSet<u32>,
}

impl Emit {
    pub fn var(&mut self, a: &Arena, v: u32) -> String {
        if self.vars.insert(v) {
            let _ = writeln!(self.text, "(declare-const v{v} Real)");
            if let Some(x) = a.vars[v as usize].inverse_of {
                let n = self.node(a, a.vals[x as usize].0);
                let _ = writeln!(self.text, "(assert (= (* v{v} {n}) 1.0))");
            }
        }
        format!("v{v}")
    }

    fn ivar(&mut self, a: &Arena, v: u32) -> String {
        let x = self.var(a, v);
        if self.ivars.insert(v) {
            let _ = writeln!(
                self.text,
                "(declare-const iv{v} Real)\n(assert (= (* iv{v} {x}) 1.0))"
            );
        }
        format!("iv{v}")
    }

    pub fn poly(&mut self, a: &Arena, id: u32) -> String {
        if self.polys.contains(&id) {
            return format!("p{id}");
        }
        let t = self.poly_text(a, &a.polys[id as usize].clone());
        self.polys.insert(id);
        let _ = writeln!(self.text, "(define-fun p{id} () Real {t})");
        format!("p{id}")
    }

    pub fn poly_text(&mut self, a: &Arena, p: &Poly) -> String {
        if p.is_empty() {
            return "0.0".into();
        }
        let mut terms = Vec::new();
        for (m, c) in p {
            let mut fs = vec![c.smt()];
            for (v, e) in m {
                let n = if *e > 0 { self.var(a, *v) } else { self.ivar(a, *v) };
                for _ in 0..e.unsigned_abs() {
                    fs.push(n.clone());
                }
            }
            terms.push(if fs.len() == 1 {
                fs.pop().unwrap()
            } else {
                format!("(* {})", fs.join(" "))
            });
        }
        if terms.len() == 1 {
            terms.pop().unwrap()
        } else {
            format!("(+ {})", terms.join(" "))
        }
    }

    pub fn node(&mut self, a: &Arena, id: u32) -> String {
        // iterative post-order: the DAG can be deep
        let mut stack = vec![(id, false)];
        while let Some((n, ready)) = stack.pop() {
            if self.nodes.contains(&n) {
                continue;
            }
            let kids: Vec<u32> = match &a.nodes[n as usize] {
                Node::Add(x, y) | Node::Sub(x, y) | Node::Mul(x, y) => vec![*x, *y],
                Node::Neg(x) | Node::Inv(x) => vec![*x],
                _ => vec![],
            };
            if !ready && !kids.is_empty() {
                stack.push((n, true));
                for k in kids {
                    stack.push((k, false));
                }
                continue;
            }
            let body = match &a.nodes[n as usize] {
                Node::Const(r) => r.smt(),
                Node::Var(v) => self.var(a, *v),
                Node::Add(x, y) => format!("(+ n{x} n{y})"),
                Node::Sub(x, y) => format!("(- n{x} n{y})"),
                Node::Mul(x, y) => format!("(* n{x} n{y})"),
                Node::Neg(x) => format!("(- n{x})"),
                Node::Inv(x) => {
                    let _ = writeln!(
                        self.text,
                        "(declare-const in{n} Real)\n(assert (= (* in{n} n{x}) 1.0))"
                    );
                    format!("in{n}")
                }
                Node::Poly(p) => self.poly(a, *p),
            };
            self.nodes.insert(n);
            let _ = writeln!(self.text, "(define-fun n{n} () Real {body})");
        }
        format!("n{id}")
    }
}
