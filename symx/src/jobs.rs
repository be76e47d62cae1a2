//! What each property explores.  Structure (formula, attribute list, history,
//! size) is enumerated up to the stated bounds; everything else (every random
//! draw, every key, every message, and for `Lin` the attribute set) is symbolic.
use crate::scen::{nums, shapes, Spec, F};
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub enum Job {
    Scen(Spec),
    Fork(Spec),
    Lin(F),
    World(Spec),
}

fn subsets(v: &[u32]) -> Vec<Vec<u32>> {
    (0..1u32 << v.len())
        .map(|b| (0..v.len()).filter(|i| b >> i & 1 == 1).map(|i| v[i]).collect())
        .collect()
}

/// left nested, right nested and balanced formulas with `n` leaves and
/// alternating / constant operators
fn large(n: u32) -> Vec<F> {
    let mk = |and: bool, a: F, b: F| {
        if and {
            F::And(Box::new(a), Box::new(b))
        } else {
            F::Or(Box::new(a), Box::new(b))
        }
    };
    let mut out = Vec::new();
    for pat in 0..4u32 {
        let op = |i: u32| match pat {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            _ => i % 3 == 1,
        };
        let mut l = F::L(1);
        for i in 2..=n {
            l = mk(op(i), l, F::L(i));
        }
        out.push(l);
        let mut r = F::L(n);
        for i in (1..n).rev() {
            r = mk(op(i), F::L(i), r);
        }
        out.push(r);
        fn bal(lo: u32, hi: u32, d: u32, mk: &dyn Fn(bool, F, F) -> F, op: &dyn Fn(u32) -> bool) -> F {
            if lo == hi {
                return F::L(lo);
            }
            let m = (lo + hi) / 2;
            mk(op(d), bal(lo, m, d + 1, mk, op), bal(m + 1, hi, d + 1, mk, op))
        }
        out.push(bal(1, n, 2, &mk, &op));
    }
    out.sort();
    out.dedup();
    out
}

/// every way of giving `n` places the labels 1, 2, .. (in order of appearance)
/// with at least one label repeated
fn repeats(n: usize) -> Vec<Vec<u32>> {
    let mut all: Vec<Vec<u32>> = vec![vec![]];
    for _ in 0..n {
        all = all
            .into_iter()
            .flat_map(|w| {
                let top = w.iter().max().copied().unwrap_or(0);
                (1..=top + 1).map(move |l| [&w[..], &[l]].concat())
            })
            .collect();
    }
    all.retain(|w| (w.iter().max().copied().unwrap_or(0) as usize) < n);
    all
}

/// formulas in which an attribute stands more than once
fn repeated(n: usize) -> Vec<F> {
    repeats(n).iter().flat_map(|w| shapes(w)).collect()
}

fn labels(f: &F) -> Vec<u32> {
    f.leaves().into_iter().collect::<BTreeSet<u32>>().into_iter().collect()
}

fn fml(f: &F, attrs: &[u32], route: &str) -> Job {
    let top = f.leaves().iter().chain(attrs).max().copied().unwrap() as usize;
    Job::Scen(
        Spec::new("fml")
            .with("f", f.text())
            .with("attrs", nums(attrs))
            .with("size", top.max(attrs.len()) + 2)
            .with("route", route),
    )
}

fn c01(deep: bool) -> Vec<Job> {
    let mut j = Vec::new();
    for n in [300, 66000] {
        j.push(Job::Scen(Spec::new("wide").with("n", n)));
    }
    let spread = |v: u32| [0, 7, 3, 9, 2, 5][v as usize];
    let n_max = if deep { 5 } else { 4 };
    for n in 1..=n_max {
        let leaves: Vec<u32> = (1..=n).collect();
        for f in shapes(&leaves) {
            j.push(Job::Lin(f.clone()));
            let g = f.map(&spread);
            let mut gl = g.leaves();
            gl.sort_unstable();
            for s in subsets(&leaves) {
                j.push(fml(&f, &s, "direct"));
                j.push(fml(&f, &s, "bytes"));
                if !s.is_empty() && n <= 4 {
                    let mut r: Vec<u32> = s.iter().map(|x| spread(*x)).collect();
                    // different order, an unrelated attribute, a repeated one
                    r.reverse();
                    r.insert(0, 4);
                    r.push(r[1]);
                    j.push(fml(&g, &r, "parse"));
                }
            }
        }
    }
    for n in 2..=(if deep { 5 } else { 4 }) {
        for f in repeated(n) {
            j.push(Job::Lin(f.clone()));
            for s in subsets(&labels(&f)) {
                j.push(fml(&f, &s, if n < 4 { "bytes" } else { "direct" }));
                if n < 4 && !s.is_empty() {
                    let mut r = s.clone();
                    r.reverse();
                    r.push(r[0]);
                    j.push(fml(&f, &r, "parse"));
                }
            }
        }
    }
    // larger formulas: every attribute set at once through the span program,
    // and every minimal authorised / maximal unauthorised set (capped) by running
    for n in 5..=(if deep { 6 } else { 5 }) {
        let leaves: Vec<u32> = (1..=n).collect();
        for f in shapes(&leaves) {
            j.push(Job::Lin(f));
        }
    }
    let sizes: &[u32] = if deep { &[6, 7, 8, 10, 12, 16, 24] } else { &[6, 8, 12] };
    for n in sizes {
        for f in large(*n) {
            j.push(Job::Lin(f.clone()));
            let all = f.leaves();
            let mut sets: Vec<Vec<u32>> = f
                .minimal()
                .into_iter()
                .take(if deep { 12 } else { 4 })
                .map(|s| s.into_iter().collect())
                .collect();
            let less: Vec<Vec<u32>> = sets.iter().filter(|s| s.len() > 1).map(|s| s[1..].to_vec()).collect();
            sets.extend(less);
            sets.push(all);
            for s in sets {
                j.push(fml(&f, &s, "direct"));
                j.push(fml(&f, &s, "bytes"));
            }
        }
    }
    // plaintexts made from caller bytes
    for m in ["", "a", "hello world", "0123456789abcdef0123456789abcde"] {
        for f in shapes(&[1, 2]) {
            for s in subsets(&[1, 2]) {
                if let Job::Scen(sp) = fml(&f, &s, "encode") {
                    j.push(Job::Scen(sp.with("msg", m)));
                }
            }
        }
    }
    j
}

/// every history of up to `n` events that ends by using what it made
fn c02_histories(n: usize) -> Vec<Job> {
    let mut j = Vec::new();
    let (p, names) = ("L!:l1,l2/D:d1,d2", "L.l1,L.l2,D.d1,D.d2");
    for (f, cts) in [
        ("(1&2)", [vec![0, 2], vec![1, 3]]),
        ("(1|3)", [vec![0, 2], vec![2]]),
        ("2", [vec![2, 2], vec![3, 0]]),
        ("all", [vec![2], vec![0, 3]]),
    ] {
        let events = ["K", "E", "RL.l1", "RD.d1", "J"];
        let mut hs: Vec<Vec<&str>> = vec![vec![]];
        let mut done: Vec<Vec<&str>> = Vec::new();
        for _ in 0..n {
            hs = hs.iter().flat_map(|h| events.iter().map(move |e| [&h[..], &[*e]].concat())).collect();
            // (a policy goes through JSON once in a row; encrypting or issuing twice in a row says nothing new)
            hs.retain(|h| {
                let k = h.len();
                (k < 2 || h[k - 1] != h[k - 2] || h[k - 1].starts_with('R')) && h.iter().filter(|e| **e == "J").count() < 2
            });
            done.extend(hs.iter().filter(|h| matches!(h.last(), Some(&"E" | &"K")) && h.contains(&"E") && h.contains(&"K")).cloned());
        }
        for h in done {
            for c in &cts {
                j.push(Job::Scen(
                    Spec::new("pol")
                        .with("pol", p)
                        .with("names", names)
                        .with("max", 4 + n)
                        .with("f", f)
                        .with("ct", nums(c))
                        .with("hist", h.join("+")),
                ));
            }
        }
    }
    j
}

fn c02(thorough: bool) -> Vec<Job> {
    let mut j = c02_histories(if thorough { 6 } else { 5 });
    // names: 0..2 hierarchical axis (low to high), 3..4 plain axis, 5 second plain
    let pols = [
        ("L!:l1,l2,l3/D:d1,d2", "L.l1,L.l2,L.l3,D.d1,D.d2"),
        ("D:d1,d2/L!:l1,l2,l3", "L.l1,L.l2,L.l3,D.d1,D.d2"),
        ("D:d1,d2,d3/E:e1,e2", "D.d1,D.d2,D.d3,E.e1,E.e2"),
        ("L!:l1,l2,l3/M!:m1,m2", "L.l1,L.l2,L.l3,M.m1,M.m2"),
    ];
    let mut fs: Vec<F> = (0..5).map(F::L).collect();
    for (a, b) in [(0, 3), (1, 3), (2, 4), (3, 4), (1, 4), (3, 0), (0, 2), (2, 1)] {
        fs.extend(shapes(&[a, b]));
    }
    for l in [[1, 3, 4], [2, 3, 4], [3, 1, 4]] {
        fs.extend(shapes(&l));
    }
    if thorough {
        fs.extend(shapes(&[2, 3, 4, 3]));
        fs.extend(shapes(&[3, 1, 4, 2]));
    }
    // an attribute twice
    fs.extend([vec![3, 3], vec![2, 2], vec![3, 1, 3]].iter().flat_map(|l| shapes(l)));
    let cts: Vec<Vec<u32>> = vec![
        vec![0], vec![1], vec![2], vec![3], vec![4], vec![0, 3], vec![1, 3], vec![2, 4], vec![1, 4],
        vec![3, 4], vec![0, 1, 2], vec![4, 2], vec![0, 1, 2, 3, 4],
    ];
    let rots = ["0", "1", "2", "3"];
    for (p, names) in pols {
        let list: Vec<&str> = names.split(',').collect();
        for (fi, f) in fs.iter().enumerate() {
            for (ci, c) in cts.iter().enumerate() {
                let mut hists = vec!["K+E".to_string(), "J+K+J+E".to_string()];
                for r in rots {
                    let r = list[r.parse::<usize>().unwrap()];
                    hists.push(format!("E+K+R{r}+E+K+D"));
                    hists.push(format!("K+R{r}+E+R{r}+E+K+J+R{}+E+K", list[4]));
                }
                for h in hists {
                    j.push(Job::Scen(
                        Spec::new("pol")
                            .with("pol", p)
                            .with("names", names)
                            .with("max", 16)
                            .with("f", f.text())
                            .with("ct", nums(c))
                            .with("hist", h),
                    ));
                }
            }
        }
        for c in &cts {
            for h in ["K+E", "K+RL.l2+E", "RL.l2+K+E", "RD.d1+RD.d1+K+E", "K+E+RD.d1+E+K"] {
                if h.contains("L.l") && !names.contains("L.l") || h.contains("D.d") && !names.contains("D.d") {
                    continue;
                }
                j.push(Job::Scen(
                    Spec::new("pol")
                        .with("pol", p)
                        .with("names", names)
                        .with("max", 16)
                        .with("f", "all")
                        .with("ct", nums(c))
                        .with("hist", h),
                ));
            }
        }
    }
    j
}

/// children reachable by the documented restriction: an `Or` replaced by one of
/// its operands
fn restrict(f: &F) -> BTreeSet<F> {
    let mut r = BTreeSet::new();
    match f {
        F::L(_) => {}
        F::And(a, b) => {
            for x in restrict(a) {
                r.insert(F::And(Box::new(x), b.clone()));
            }
            for x in restrict(b) {
                r.insert(F::And(a.clone(), Box::new(x)));
            }
        }
        F::Or(a, b) => {
            r.insert((**a).clone());
            r.insert((**b).clone());
            for x in restrict(a) {
                r.insert(F::Or(Box::new(x), b.clone()));
            }
            for x in restrict(b) {
                r.insert(F::Or(a.clone(), Box::new(x)));
            }
        }
    }
    r
}

/// ... or an `Or` changed into an `And`
fn or_to_and(f: &F) -> BTreeSet<F> {
    let mut r = BTreeSet::new();
    match f {
        F::L(_) => {}
        F::And(a, b) | F::Or(a, b) => {
            let and = matches!(f, F::And(..));
            let mk = |x: F, y: F| {
                if and {
                    F::And(Box::new(x), Box::new(y))
                } else {
                    F::Or(Box::new(x), Box::new(y))
                }
            };
            for x in or_to_and(a) {
                r.insert(mk(x, (**b).clone()));
            }
            for x in or_to_and(b) {
                r.insert(mk((**a).clone(), x));
            }
            if !and {
                r.insert(F::And(a.clone(), b.clone()));
            }
        }
    }
    r
}

/// `a & b` written in another order or grouping, same authorised sets
fn commute(f: &F) -> F {
    match f {
        F::L(v) => F::L(*v),
        F::And(a, b) => F::And(Box::new(commute(b)), Box::new(commute(a))),
        F::Or(a, b) => F::Or(Box::new(commute(b)), Box::new(commute(a))),
    }
}

fn del(f: &F, chain: &str, attrs: &[u32], route: &str) -> Job {
    let top = *f.leaves().iter().max().unwrap() as usize;
    Job::Scen(
        Spec::new("del")
            .with("f", f.text())
            .with("chain", chain)
            .with("attrs", nums(attrs))
            .with("size", top.max(attrs.len()) + 2)
            .with("route", route),
    )
}

fn c03(thorough: bool) -> Vec<Job> {
    let mut j = Vec::new();
    for n in [300, 66000] {
        j.push(Job::Scen(Spec::new("wide").with("n", n)));
    }
    // long chains
    for f in shapes(&[1, 2, 3]) {
        for s in subsets(&[1, 2, 3]) {
            j.push(del(&f, "R>R>R>R>R>R>R>R", &s, if s.len() % 2 == 0 { "bytes" } else { "direct" }));
            j.push(del(&f, &format!("{0}>R>{0}>R>R>{0}", f.text()), &s, "bytes"));
        }
    }
    let n_max = 4;
    for n in 1..=n_max {
        let leaves: Vec<u32> = (1..=n).collect();
        for f in shapes(&leaves) {
            for s in subsets(&leaves) {
                let route = if s.len() % 2 == 0 { "direct" } else { "bytes" };
                j.push(del(&f, "R", &s, route));
                j.push(del(&f, "R>R", &s, "direct"));
                j.push(del(&f, &f.text(), &s, "direct"));
                j.push(del(&f, &commute(&f).text(), &s, "bytes"));
                for g in restrict(&f) {
                    j.push(del(&f, &g.text(), &s, route));
                    j.push(del(&f, &format!("R>{}", g.text()), &s, "direct"));
                    j.push(del(&f, &format!("{}>R", commute(&g).text()), &s, "direct"));
                    for h in restrict(&g) {
                        j.push(del(&f, &format!("{}>{}", g.text(), h.text()), &s, route));
                    }
                }
                // the other documented restriction
                if n <= 3 {
                    for g in or_to_and(&f) {
                        j.push(del(&f, &g.text(), &s, "direct"));
                    }
                }
            }
            // a new attribute must be refused
            let g = F::And(Box::new(f.clone()), Box::new(F::L(n + 1)));
            j.push(del(&f, &g.text(), &leaves, "direct"));
            j.push(del(&f, &(n + 1).to_string(), &leaves, "direct"));
        }
    }
    // a slice of the larger formulas
    for n in 5..=(if thorough { 6 } else { 5 }) {
        let leaves: Vec<u32> = (1..=n).collect();
        let sets = subsets(&leaves);
        for (i, f) in shapes(&leaves).into_iter().enumerate() {
            if !thorough && i % 3 != 0 || n == 6 && i % 8 != 0 {
                continue;
            }
            for k in 0..(if thorough { 6 } else { 2 }) {
                let s = &sets[(i * 5 + k * 13 + 7) % sets.len()];
                j.push(del(&f, "R", s, "bytes"));
                for g in restrict(&f) {
                    j.push(del(&f, &g.text(), s, "direct"));
                }
            }
        }
    }
    for f in large(if thorough { 16 } else { 9 }) {
        let Some(s) = f.minimal().into_iter().next() else { continue };
        let s: Vec<u32> = s.into_iter().collect();
        j.push(del(&f, "R", &s, "direct"));
        for g in restrict(&f) {
            j.push(del(&f, &g.text(), &s, "direct"));
            let t: Vec<u32> = g.minimal().into_iter().next_back().unwrap().into_iter().collect();
            j.push(del(&f, &g.text(), &t, "direct"));
            j.push(del(&f, &g.text(), &t[1..], "direct"));
        }
    }
    j
}

/// delegation by named access policies, with rotations in between
fn c03_names(deep: bool) -> Vec<Job> {
    let mut j = Vec::new();
    let pols = [
        ("L!:l1,l2,l3/D:d1,d2", "L.l1,L.l2,L.l3,D.d1,D.d2"),
        ("D:d1,d2,d3/E:e1,e2", "D.d1,D.d2,D.d3,E.e1,E.e2"),
    ];
    let mut fs: Vec<F> = Vec::new();
    for l in [vec![0, 3], vec![3, 4], vec![4, 1], vec![2, 4], vec![2, 3, 4], vec![3, 1, 4]] {
        fs.extend(shapes(&l));
    }
    let cts: [&[u32]; 6] = [&[0], &[3], &[4], &[1, 3], &[0, 4], &[0, 1, 2, 3, 4]];
    for (p, names) in pols {
        let hier = p.starts_with("L!");
        let list: Vec<&str> = names.split(',').collect();
        let mut js = Vec::new();
        for f in &fs {
            let mut gs: Vec<(F, char)> = vec![(f.clone(), '!')];
            gs.extend(restrict(f).into_iter().map(|g| (g, '!')));
            // what else a holder might ask for
            gs.push((F::L(0), '?'));
            gs.push((F::And(Box::new(f.clone()), Box::new(F::L(if f.leaves().contains(&0) { 2 } else { 0 }))), '?'));
            for (g, sure) in gs {
                let l = g.leaves();
                js.push((f.clone(), format!("E+K+P{sure}{}+E", g.text())));
                js.push((f.clone(), format!("K+D+P{sure}{}+D+J+E", g.text())));
                for r in 0..5 {
                    if deep || (r as usize + j.len() + js.len()) % 5 < 2 {
                        let other = !l.contains(&r) && !(hier && r < 3);
                        let sure = if other || sure == '?' { sure } else { '~' };
                        js.push((f.clone(), format!("K+R{}+P{sure}{}+E", list[r as usize], g.text())));
                    }
                }
            }
        }
        if hier {
            // lower in the hierarchy
            for (f, g) in [("2", "1"), ("2", "0"), ("1", "0"), ("(2&3)", "(1&3)"), ("(2&3)", "(0&3)"), ("(3|2)", "(3|1)"), ("(3|2)", "1"), ("(1|4)", "0")] {
                for h in ["K+P~{}+E", "K+D+P~{}+E", "RL.l1+K+P~{}+E", "K+RL.l2+P~{}+E"] {
                    js.push((F::parse(f), h.replace("{}", g)));
                }
            }
        }
        for (i, (f, h)) in js.into_iter().enumerate() {
            for (k, c) in cts.iter().enumerate() {
                if deep || (i + k) % 2 == 0 {
                    j.push(Job::Scen(
                        Spec::new("pol")
                            .with("pol", p)
                            .with("names", names)
                            .with("max", 12)
                            .with("f", f.text())
                            .with("ct", nums(c))
                            .with("hist", h.clone()),
                    ));
                }
            }
        }
    }
    j
}

fn world(keys: &str, n: u32, cts: usize, only: &str) -> Job {
    Job::World(
        Spec::new("world")
            .with("keys", keys)
            .with("n", n)
            .with("cts", cts)
            .with("only", only),
    )
}

fn c04(deep: bool) -> Vec<Job> {
    let mut j = Vec::new();
    // every formula with at most 3 leaves taken from 3 attributes
    let mut small: Vec<F> = (0..3).map(F::L).collect();
    for p in [[0, 1], [0, 2], [1, 2]] {
        small.extend(shapes(&p));
    }
    let mut threes = shapes(&[0, 1, 2]);
    threes.extend(shapes(&[1, 0, 2]));
    threes.extend(shapes(&[2, 0, 1]));
    j.push(world("", 3, 1, ""));
    j.push(world("", 3, 2, ""));
    for f in small.iter().chain(&threes) {
        j.push(world(&f.text(), 3, 1, ""));
        j.push(world(&f.text(), 3, 2, ""));
        j.push(world(&format!("{0}+{0}", f.text()), 3, 1, ""));
        j.push(world(&format!("{}>R", f.text()), 3, 1, ""));
        j.push(world(&format!("{}>R", f.text()), 3, 1, "last"));
        for g in restrict(f).into_iter().chain(or_to_and(f)) {
            j.push(world(&format!("{}>{}", f.text(), g.text()), 3, 1, "last"));
        }
    }
    for (i, a) in small.iter().enumerate() {
        for b in &small[i..] {
            j.push(world(&format!("{}+{}", a.text(), b.text()), 3, 1, ""));
            j.push(world(&format!("{}>R+{}>R", a.text(), b.text()), 3, 1, "last"));
        }
    }
    for (i, a) in threes.iter().enumerate() {
        for (k, b) in small.iter().enumerate() {
            j.push(world(&format!("{}+{}", a.text(), b.text()), 3, 1, ""));
            if deep {
                j.push(world(&format!("{}+{}", a.text(), b.text()), 3, 2, ""));
                j.push(world(&format!("{}>R+{}", a.text(), b.text()), 3, 1, "last"));
            }
        }
        for (k, b) in threes.iter().enumerate().skip(i) {
            if deep || (i * 7 + k) % 5 == 0 {
                j.push(world(&format!("{}+{}", a.text(), b.text()), 3, 1, ""));
            }
        }
    }
    for (i, a) in small.iter().enumerate() {
        for (k, b) in small.iter().enumerate().skip(i) {
            for c in &small[k..] {
                j.push(world(&format!("{}+{}+{}", a.text(), b.text(), c.text()), 3, 1, ""));
            }
        }
    }
    for t in ["(0&1)+(1&2)+(0&2)", "(0&1)>R+(0&2)>R+(1&2)", "(0&(1|2))+(1&2)+(0&1)>0", "((0|1)&2)>(0&2)+((0|1)&2)>(1&2)"] {
        let t = if t.contains("(0&1)>0") { "(0&(1|2))+(1&2)+(0&1)>R" } else { t };
        j.push(world(t, 3, 1, ""));
        j.push(world(t, 3, 1, "last"));
    }
    for f in shapes(&[0, 1, 2, 3]) {
        j.push(world(&f.text(), 4, 1, ""));
        j.push(world(&format!("{0}+{0}>R", f.text()), 4, 1, ""));
        if deep {
            for g in restrict(&f) {
                j.push(world(&format!("{}>{}", f.text(), g.text()), 4, 1, "last"));
            }
            for g in small.iter().chain(&threes) {
                j.push(world(&format!("{}+{}", f.text(), g.text()), 4, 1, ""));
            }
        }
    }
    {
        for (i, a) in small.iter().enumerate() {
            for b in &small[i..] {
                j.push(world(&format!("{}+{}", a.text(), b.text()), 3, 2, ""));
            }
        }
    }
    for f in small.iter().chain(&threes) {
        let g = f.map(&|v| v + 1);
        j.push(Job::Scen(Spec::new("own").with("f", g.text())));
    }
    j
}

fn c05(deep: bool) -> Vec<Job> {
    let mut j = Vec::new();
    for n in 1..=(if deep { 5 } else { 4 }) {
        let leaves: Vec<u32> = (1..=n).collect();
        for f in shapes(&leaves) {
            for s in subsets(&leaves) {
                let size = leaves.len() + 2;
                j.push(Job::Scen(
                    Spec::new("ser").with("f", f.text()).with("attrs", nums(&s)).with("size", size),
                ));
            }
        }
    }
    for size in [1, 2, 3, 8, 33, 100, 300] {
        let a: Vec<u32> = (0..size - 1).collect();
        j.push(Job::Scen(
            Spec::new("ser").with("f", size - 1).with("attrs", nums(&a)).with("size", size),
        ));
    }
    for n in [2, 255, 256, 257, 4096, 65535, 65536, 65537, 70000] {
        j.push(Job::Scen(Spec::new("wide").with("n", n)));
    }
    for f in large(9) {
        j.push(Job::Scen(
            Spec::new("ser").with("f", f.text()).with("attrs", nums(&f.leaves())).with("size", 12),
        ));
    }
    j
}

fn c12(deep: bool) -> Vec<Job> {
    let mut j = Vec::new();
    let lens: &[usize] = if deep {
        &[0, 1, 2, 3, 5, 7, 8, 11, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 136, 137, 168, 200, 255, 256, 272, 273, 287, 288, 289, 1000, 5000, 70000]
    } else {
        &[0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 136, 137, 200, 256, 272, 273, 288, 1000]
    };
    let mut fs = vec![F::L(0), F::L(2)];
    fs.extend(shapes(&[0, 1]));
    if deep {
        fs.extend(shapes(&[1, 2, 0, 3]));
    }
    fs.extend(shapes(&[2, 0, 1]));
    for f in &fs {
        for c in [vec![0], vec![1], vec![0, 1], vec![2, 0], vec![0, 1, 2]] {
            for (i, l) in lens.iter().enumerate() {
                j.push(Job::Scen(
                    Spec::new("sk")
                        .with("f", f.text())
                        .with("ct", nums(&c))
                        .with("len", l)
                        .with("len2", lens[(i + 3) % lens.len()]),
                ));
            }
        }
    }
    for (l, l2) in [(4095, 65536), (4096, 20), (8160, 8161), (65535, 65537), (65536, 3), (65537, 4097), (1 << 20, 65536), (40, 100_000)] {
        j.push(Job::Scen(Spec::new("sk").with("f", "0").with("ct", "0,1").with("len", l).with("len2", l2)));
    }
    j
}

fn c13(deep: bool) -> Vec<Job> {
    let mut j = Vec::new();
    let top = if deep { 10 } else { 7 };
    for max in 1..=top {
        for n in 1..=max {
            for r in 0..=(max - n) {
                // r rotations spread over the attributes, two distributions
                let a: Vec<u32> = (0..r).map(|i| i % n).collect();
                let b: Vec<u32> = (0..r).map(|_| n - 1).collect();
                let mut rots = BTreeSet::from([a, b]);
                if n.pow(r) <= if deep { 1000 } else { 100 } {
                    // all
                    let mut l: Vec<Vec<u32>> = vec![vec![]];
                    for _ in 0..r {
                        l = l.iter().flat_map(|w| (0..n).map(move |x| [&w[..], &[x]].concat())).collect();
                    }
                    rots.extend(l);
                }
                for rot in rots {
                    for late in ["0", "1"] {
                        j.push(Job::Scen(
                            Spec::new("cap")
                                .with("max", max)
                                .with("n", n)
                                .with("rot", nums(&rot))
                                .with("late", late),
                        ));
                    }
                }
            }
        }
    }
    // values around 2^8 and 2^16
    for (max, last) in [(255, 1), (256, 1), (257, 1), (258, 3), (300, 1), (65536, 1), (65537, 1), (66000, 5)] {
        let mut rot = vec![0; max - last - 2];
        rot.extend(vec![1; last]);
        j.push(Job::Scen(
            Spec::new("cap").with("max", max).with("n", 2).with("rot", nums(&rot)).with("late", 0).with("who", 1),
        ));
    }
    j
}

fn c14(deep: bool) -> Vec<Job> {
    let mut j = Vec::new();
    let big = u32::MAX;
    let mut fs: Vec<F> = [0, 1, 2, 3, 4, 5, 6, big - 1, big].into_iter().map(F::L).collect();
    for p in [[0, 1], [1, 4], [4, 1], [2, 9], [3, big], [5, 6]] {
        fs.extend(shapes(&p));
    }
    let sets: Vec<Vec<u32>> = vec![
        vec![], vec![0], vec![1], vec![3], vec![4], vec![5], vec![1, 4], vec![4, 1], vec![0, 1, 2, 3],
        vec![0, 1, 2, 3, 4], vec![big], vec![0, big - 1], vec![1, 1], vec![9, 2],
    ];
    for size in 0..=(if deep { 9 } else { 6 }) {
        for small in 0..=2usize.min(size) {
            for f in &fs {
                for s in &sets {
                    j.push(Job::Scen(
                        Spec::new("mis")
                            .with("size", size)
                            .with("small", small)
                            .with("f", f.text())
                            .with("attrs", nums(s)),
                    ));
                }
            }
        }
    }
    j
}

fn c15(deep: bool) -> Vec<Job> {
    let mut j = Vec::new();
    let sp = |r: usize, c: usize, m: String, key: &str, attrs: &[u32]| {
        Spec::new("span")
            .with("rows", r)
            .with("cols", c)
            .with("m", m)
            .with("key", key)
            .with("attrs", nums(attrs))
    };
    let sym = |r: usize, c: usize| vec!["?"; r * c].join(",");
    let mut dims = vec![(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (3, 2), (2, 3), (1, 4), (4, 1)];
    if deep {
        dims.extend([(3, 3), (4, 2), (2, 4), (5, 1), (1, 5)]);
    }
    for (r, c) in dims {
        j.push(Job::Fork(sp(r, c, sym(r, c), "0", &[])));
    }
    for (r, c) in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)] {
        let rows: Vec<u32> = (1..=r as u32).collect();
        for s in subsets(&rows) {
            j.push(Job::Fork(sp(r, c, sym(r, c), "1", &s)));
            let mut b = s.clone();
            b.reverse();
            b.push(0);
            j.push(Job::Fork(sp(r, c, sym(r, c), "1", &b)));
        }
    }
    // 3x3 .. 4x4 with a few symbolic entries in every position pattern
    let mut patterns: Vec<(usize, usize, Vec<&str>)> = Vec::new();
    let base3 = ["1", "0", "-1", "2", "1", "0", "0", "1", "1"];
    for a in 0..9 {
        for b in a..9 {
            for c in b..9 {
                if !deep && (a + 2 * b + 3 * c) % 4 != 0 {
                    continue;
                }
                let mut m = base3.to_vec();
                m[a] = "?";
                m[b] = "?";
                m[c] = "?";
                patterns.push((3, 3, m));
            }
        }
    }
    let base4 = ["1", "1", "0", "0", "0", "1", "1", "0", "0", "0", "1", "1", "1", "0", "0", "-1"];
    for a in 0..16 {
        for b in a..16 {
            if !deep && (a + b) % 3 != 0 {
                continue;
            }
            let mut m = base4.to_vec();
            m[a] = "?";
            m[b] = "?";
            patterns.push((4, 4, m));
        }
    }
    for (r, c, m) in patterns {
        j.push(Job::Fork(sp(r, c, m.join(","), "0", &[])));
    }
    j
}

/// keys, policies and rotations through the language bindings
fn c17(deep: bool) -> Vec<Job> {
    let mut j = Vec::new();
    let pols = [
        ("L!:l1,l2,l3/D:d1,d2", "L.l1,L.l2,L.l3,D.d1,D.d2"),
        ("D:d1,d2,d3/E:e1,e2", "D.d1,D.d2,D.d3,E.e1,E.e2"),
    ];
    let mut fs: Vec<F> = (0..5).map(F::L).collect();
    for l in [[0, 3], [1, 3], [2, 4], [3, 4], [4, 1]] {
        fs.extend(shapes(&l));
    }
    for l in [[2, 3, 4], [3, 1, 4]] {
        fs.extend(shapes(&l));
    }
    let cts: Vec<Vec<u32>> =
        vec![vec![0], vec![1], vec![3], vec![0, 3], vec![1, 3], vec![2, 4], vec![3, 4], vec![0, 1, 2, 3, 4]];
    for (p, names) in pols {
        let list: Vec<&str> = names.split(',').collect();
        for via in ["c", "py", "js"] {
            for (fi, f) in fs.iter().enumerate() {
                for (ci, c) in cts.iter().enumerate() {
                    let (a, b) = (list[(fi + ci) % 5], list[(fi * 3 + ci + 1) % 5]);
                    let mut hists = vec![
                        "K+E".to_string(),
                        format!("K+E+R{a}+E+K"),
                        format!("R{a}&{b}+K+E+R{b}&{a}&{b}+E+K"),
                    ];
                    if via == "py" {
                        if let F::Or(x, y) = f {
                            if let (F::L(x), F::L(y)) = (&**x, &**y) {
                                hists.push(format!("K+D{x}+E"));
                                hists.push(format!("K+D{y}+E+R{a}+E"));
                            }
                        }
                    }
                    if !deep {
                        let keep = (fi + ci) % 3;
                        hists = hists.into_iter().enumerate().filter(|(i, _)| *i == keep || *i > 2).map(|x| x.1).collect();
                    }
                    for h in hists {
                        j.push(Job::Scen(
                            Spec::new("bind")
                                .with("pol", p)
                                .with("names", names)
                                .with("max", 12)
                                .with("via", via)
                                .with("f", f.text())
                                .with("ct", nums(c))
                                .with("hist", h),
                        ));
                    }
                }
            }
        }
    }
    j
}

pub fn list(prop: &str, deep: bool) -> Vec<Job> {
    match prop {
        "C01" => c01(deep),
        "C02" => c02(deep),
        "C03" => [c03(deep), c03_names(true)].concat(),
        "C04" => c04(deep),
        "C05" => c05(deep),
        "C12" => c12(deep),
        "C13" => c13(deep),
        "C14" => c14(deep),
        "C15" => c15(deep),
        "C17" => c17(deep),
        _ => panic!("unknown property {prop}"),
    }
}
