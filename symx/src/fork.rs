//! Path exploration: a scenario is re-executed once per feasible combination of
//! outcomes of the comparisons the code makes on symbolic values.
use crate::obl::Emit;
use crate::smt::{Ans, Smt};
use cosmian_bls12_381::sym::{self, Arena, Node, Poly};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Default)]
pub struct Path {
    pub prefix: Vec<bool>,
    pub taken: Vec<bool>,
    /// (poly, is it zero on this path)
    pub conds: Vec<(Poly, bool)>,
    pub pending: Vec<Vec<bool>>,
    pub unknown: u64,
    pub generic: u64,
}

/// does the value depend only on the symbolic inputs (variables "e_*")?
fn input_only(a: &Arena, p: &Poly) -> bool {
    p.keys().flatten().all(|(v, _)| {
        let i = &a.vars[*v as usize];
        match i.inverse_of {
            None => i.name.starts_with("e_"),
            Some(x) => node_input_only(a, a.vals[x as usize].0),
        }
    })
}

fn node_input_only(a: &Arena, n: u32) -> bool {
    let mut stack = vec![n];
    let mut seen = std::collections::HashSet::new();
    while let Some(n) = stack.pop() {
        if !seen.insert(n) {
            continue;
        }
        match &a.nodes[n as usize] {
            Node::Const(_) => {}
            Node::Var(v) => {
                let i = &a.vars[*v as usize];
                match i.inverse_of {
                    None => {
                        if !i.name.starts_with("e_") {
                            return false;
                        }
                    }
                    Some(x) => stack.push(a.vals[x as usize].0),
                }
            }
            Node::Add(x, y) | Node::Sub(x, y) | Node::Mul(x, y) => {
                stack.push(*x);
                stack.push(*y);
            }
            Node::Neg(x) | Node::Inv(x) => stack.push(*x),
            Node::Poly(p) => {
                if !input_only(a, &a.polys[*p as usize]) {
                    return false;
                }
            }
        }
    }
    true
}

pub fn emit_conds(e: &mut Emit, a: &Arena, conds: &[(Poly, bool)]) {
    for (p, z) in conds {
        let t = e.poly_text(a, p);
        e.text.push_str(&if *z {
            format!("(assert (= {t} 0.0))\n")
        } else {
            format!("(assert (not (= {t} 0.0)))\n")
        });
    }
}

/// Runs `f` once per path; `f` gets the finished path after the code ran.
pub fn explore<R>(
    smt: Rc<RefCell<Smt>>,
    max_paths: usize,
    mut run: impl FnMut() -> R,
    mut done: impl FnMut(R, &Path, &mut Smt),
) -> (usize, bool, u64, u64) {
    let mut todo: Vec<Vec<bool>> = vec![vec![]];
    let mut paths = 0;
    let (mut unk, mut generic) = (0, 0);
    while let Some(prefix) = todo.pop() {
        if paths >= max_paths {
            return (paths, false, unk, generic);
        }
        paths += 1;
        sym::reset();
        let st = Rc::new(RefCell::new(Path { prefix, ..Path::default() }));
        let (st2, smt2) = (st.clone(), smt.clone());
        sym::set_oracle(Some(Box::new(move |p: &Poly| {
            let mut s = st2.borrow_mut();
            if !sym::read(|a| input_only(a, p)) {
                s.generic += 1;
                return false;
            }
            let pos = s.taken.len();
            let ans = if pos < s.prefix.len() {
                s.prefix[pos]
            } else {
                let mut feas = [true, true];
                for (i, z) in [(0, true), (1, false)] {
                    let text = sym::read(|a| {
                        let mut e = Emit::default();
                        emit_conds(&mut e, a, &s.conds);
                        emit_conds(&mut e, a, &[(p.clone(), z)]);
                        e.text
                    });
                    match smt2.borrow_mut().check(&text, "").0 {
                        Ans::Unsat => feas[i] = false,
                        Ans::Sat => {}
                        Ans::Unknown => s.unknown += 1,
                    }
                }
                match feas {
                    [true, true] => {
                        let mut alt = s.taken.clone();
                        alt.push(false);
                        s.pending.push(alt);
                        true
                    }
                    [true, false] => true,
                    _ => false,
                }
            };
            s.taken.push(ans);
            s.conds.push((p.clone(), ans));
            ans
        })));
        let r = run();
        sym::set_oracle(None);
        let st = Rc::try_unwrap(st).ok().expect("oracle dropped").into_inner();
        unk += st.unknown;
        generic += st.generic;
        todo.extend(st.pending.iter().cloned());
        done(r, &st, &mut smt.borrow_mut());
    }
    (paths, true, unk, generic)
}
