//! Hash-consed bit-vector terms. Every term that depends on one symbolic byte only is kept as
//! the table of its 256 values (`Tab`), so that classification of input bytes stays exact and
//! small; everything else is a DAG that is printed to SMT-LIB when a query needs it.
use std::collections::HashMap;
use std::fmt::Write;
use std::rc::Rc;

pub type Tm = u32;

/// a run-time value: concrete, symbolic, or an aggregate / vector of values
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    C(u128),
    S(Tm),
    Agg(Rc<Vec<V>>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum A {
    K(u128),
    T(Tm),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum P {
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Tab(u32, Rc<[u64]>),
    Cat(Vec<(A, u32)>),
    Ext(Tm, u32),
    Bin(B, A, A),
    Cmp(P, u32, A, A),
    Not(Tm),
    AndN(Vec<Tm>),
    Ite(Tm, A, A),
    Sext(Tm),
}

pub struct Info {
    pub n: N,
    pub w: u32,
    pub vars: Rc<Vec<u32>>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn fold(op: B, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        B::Add => a.wrapping_add(b) & m,
        B::Sub => a.wrapping_sub(b) & m,
        B::Mul => a.wrapping_mul(b) & m,
        B::UDiv => a.checked_div(b)?,
        B::URem => a.checked_rem(b)?,
        B::SDiv => {
            if b == 0 {
                return None;
            }
            (sx(a, w).wrapping_div(sx(b, w)) as u128) & m
        }
        B::SRem => {
            if b == 0 {
                return None;
            }
            (sx(a, w).wrapping_rem(sx(b, w)) as u128) & m
        }
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let s = (b.min(w as u128 - 1)) as u32;
            ((sx(a, w) >> s) as u128) & m
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
    })
}

pub fn cmpc(p: P, w: u32, a: u128, b: u128) -> bool {
    match p {
        P::Eq => a == b,
        P::Ult => a < b,
        P::Slt => sx(a, w) < sx(b, w),
    }
}

#[derive(Default)]
pub struct Terms {
    pub t: Vec<Info>,
    map: HashMap<N, Vec<Tm>, Fx>,
    sliced: HashMap<(Tm, u32, u32), V, Fx>,
}

#[derive(Default, Clone)]
pub struct FxH(u64);
pub type Fx = std::hash::BuildHasherDefault<FxH>;
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ self.0 >> 29
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}

pub type Dom = [u64; 4];
pub const FULL: Dom = [u64::MAX; 4];
pub fn has(d: &Dom, v: usize) -> bool {
    d[v >> 6] >> (v & 63) & 1 == 1
}

impl Terms {
    fn vars_of(&self, a: A) -> Option<Rc<Vec<u32>>> {
        match a {
            A::K(_) => None,
            A::T(t) => Some(self.t[t as usize].vars.clone()),
        }
    }
    fn union(&self, l: &[A]) -> Rc<Vec<u32>> {
        let mut r: Option<Rc<Vec<u32>>> = None;
        for a in l {
            if let Some(v) = self.vars_of(*a) {
                r = Some(match r {
                    None => v,
                    Some(o) => {
                        if Rc::ptr_eq(&o, &v) || o == v {
                            o
                        } else {
                            let mut m: Vec<u32> = o.iter().chain(v.iter()).copied().collect();
                            m.sort_unstable();
                            m.dedup();
                            Rc::new(m)
                        }
                    }
                });
            }
        }
        r.unwrap_or_default()
    }
    fn intern(&mut self, n: N, w: u32, vars: Rc<Vec<u32>>) -> Tm {
        if let Some(l) = self.map.get(&n) {
            for t in l {
                if self.t[*t as usize].w == w {
                    return *t;
                }
            }
        }
        let id = self.t.len() as u32;
        self.t.push(Info { n: n.clone(), w, vars });
        self.map.entry(n).or_default().push(id);
        id
    }
    pub fn w(&self, t: Tm) -> u32 {
        self.t[t as usize].w
    }
    pub fn vars(&self, t: Tm) -> Rc<Vec<u32>> {
        self.t[t as usize].vars.clone()
    }
    pub fn tab(&self, t: Tm) -> Option<(u32, &Rc<[u64]>)> {
        match &self.t[t as usize].n {
            N::Tab(v, d) => Some((*v, d)),
            _ => None,
        }
    }
    pub fn var(&mut self, i: u32) -> V {
        let d: Vec<u64> = (0..256).collect();
        V::S(self.intern(N::Tab(i, d.into()), 8, Rc::new(vec![i])))
    }
    pub fn mk_tab(&mut self, var: u32, w: u32, d: Vec<u64>) -> V {
        if d.iter().all(|x| *x == d[0]) {
            return V::C(d[0] as u128);
        }
        V::S(self.intern(N::Tab(var, d.into()), w, Rc::new(vec![var])))
    }
    fn a(v: &V) -> A {
        match v {
            V::C(c) => A::K(*c),
            V::S(t) => A::T(*t),
            V::Agg(_) => panic!("aggregate used as a scalar"),
        }
    }
    fn v(a: A) -> V {
        match a {
            A::K(c) => V::C(c),
            A::T(t) => V::S(t),
        }
    }
    /// build a node; tabulate when only one byte is involved
    fn node(&mut self, n: N, w: u32, ops: &[A]) -> V {
        let vars = self.union(ops);
        if vars.len() == 1 && w <= 64 {
            let var = vars[0];
            let mut d = Vec::with_capacity(256);
            for x in 0..256u64 {
                let mut memo = HashMap::new();
                d.push(self.eval_node(&n, w, &|_| x as u8, &mut memo) as u64);
            }
            return self.mk_tab(var, w, d);
        }
        V::S(self.intern(n, w, vars))
    }
    fn eval_a(&self, a: A, env: &dyn Fn(u32) -> u8, memo: &mut HashMap<Tm, u128>) -> u128 {
        match a {
            A::K(c) => c,
            A::T(t) => self.eval(t, env, memo),
        }
    }
    pub fn eval(&self, t: Tm, env: &dyn Fn(u32) -> u8, memo: &mut HashMap<Tm, u128>) -> u128 {
        let i = &self.t[t as usize];
        if let N::Tab(v, d) = &i.n {
            return d[env(*v) as usize] as u128;
        }
        if let Some(x) = memo.get(&t) {
            return *x;
        }
        let r = self.eval_node(&i.n, i.w, env, memo);
        memo.insert(t, r);
        r
    }
    fn eval_node(
        &self,
        n: &N,
        w: u32,
        env: &dyn Fn(u32) -> u8,
        memo: &mut HashMap<Tm, u128>,
    ) -> u128 {
        match n {
            N::Tab(v, d) => d[env(*v) as usize] as u128,
            N::Cat(p) => {
                let (mut r, mut s) = (0, 0);
                for (a, pw) in p {
                    r |= self.eval_a(*a, env, memo) << s;
                    s += pw;
                }
                r
            }
            N::Ext(t, lo) => (self.eval(*t, env, memo) >> lo) & mask(w),
            N::Bin(op, a, b) => {
                let (x, y) = (self.eval_a(*a, env, memo), self.eval_a(*b, env, memo));
                fold(*op, w, x, y).unwrap_or(match op {
                    B::UDiv => mask(w),
                    B::URem | B::SRem => x,
                    _ => mask(w),
                })
            }
            N::Cmp(p, cw, a, b) => {
                let (x, y) = (self.eval_a(*a, env, memo), self.eval_a(*b, env, memo));
                cmpc(*p, *cw, x, y) as u128
            }
            N::Not(t) => 1 ^ self.eval(*t, env, memo),
            N::AndN(l) => l.iter().all(|t| self.eval(*t, env, memo) == 1) as u128,
            N::Ite(c, a, b) => {
                if self.eval(*c, env, memo) == 1 {
                    self.eval_a(*a, env, memo)
                } else {
                    self.eval_a(*b, env, memo)
                }
            }
            N::Sext(t) => (sx(self.eval(*t, env, memo), self.w(*t)) as u128) & mask(w),
        }
    }
    /// pairwise table when both sides are constants or tables of the same byte
    fn tab2(&self, a: A, b: A) -> Option<u32> {
        let va = match a {
            A::K(_) => None,
            A::T(t) => Some(self.tab(t)?.0),
        };
        let vb = match b {
            A::K(_) => None,
            A::T(t) => Some(self.tab(t)?.0),
        };
        match (va, vb) {
            (Some(x), Some(y)) if x == y => Some(x),
            (Some(x), None) | (None, Some(x)) => Some(x),
            _ => None,
        }
    }
    fn at(&self, a: A, i: usize) -> u128 {
        match a {
            A::K(c) => c,
            A::T(t) => self.tab(t).unwrap().1[i] as u128,
        }
    }

    pub fn pieces(&self, v: &V, w: u32) -> Vec<(A, u32)> {
        match v {
            V::C(c) => vec![(A::K(*c), w)],
            V::S(t) => match &self.t[*t as usize].n {
                N::Cat(p) => p.clone(),
                _ => vec![(A::T(*t), w)],
            },
            _ => panic!("aggregate"),
        }
    }
    /// concatenate pieces, least significant first
    pub fn cat(&mut self, p: Vec<(A, u32)>) -> V {
        let mut o: Vec<(A, u32)> = Vec::with_capacity(p.len());
        for (a, w) in p {
            if w == 0 {
                continue;
            }
            if let A::T(t) = a {
                if let N::Cat(q) = &self.t[t as usize].n {
                    let q = q.clone();
                    for x in q {
                        self.push_piece(&mut o, x);
                    }
                    continue;
                }
            }
            self.push_piece(&mut o, (a, w));
        }
        if o.len() == 1 {
            return Self::v(o[0].0);
        }
        let w: u32 = o.iter().map(|x| x.1).sum();
        let ops: Vec<A> = o.iter().map(|x| x.0).collect();
        self.node(N::Cat(o), w, &ops)
    }
    fn push_piece(&mut self, o: &mut Vec<(A, u32)>, x: (A, u32)) {
        if let Some(l) = o.last().copied() {
            match (l.0, x.0) {
                (A::K(a), A::K(b)) => {
                    let k = o.len() - 1;
                    o[k] = (A::K(a | b << l.1), l.1 + x.1);
                    return;
                }
                (A::T(a), A::T(b)) => {
                    let (ba, la) = self.base(a);
                    let (bb, lb) = self.base(b);
                    if ba == bb && la + l.1 == lb && !matches!(self.t[ba as usize].n, N::Tab(..)) {
                        let v = self.slice(&V::S(ba), la, l.1 + x.1);
                        let k = o.len() - 1;
                        o[k] = (Self::a(&v), l.1 + x.1);
                        return;
                    }
                }
                _ => {}
            }
        }
        o.push(x);
    }
    fn base(&self, t: Tm) -> (Tm, u32) {
        match &self.t[t as usize].n {
            N::Ext(b, lo) => (*b, *lo),
            _ => (t, 0),
        }
    }
    /// bits lo .. lo+w of v
    pub fn slice(&mut self, v: &V, lo: u32, w: u32) -> V {
        match v {
            V::C(c) => V::C((c >> lo) & mask(w)),
            V::S(t) => {
                let t = *t;
                let full = self.w(t);
                if lo == 0 && w == full {
                    return v.clone();
                }
                debug_assert!(lo + w <= full);
                if let Some(r) = self.sliced.get(&(t, lo, w)) {
                    return r.clone();
                }
                let r = match self.t[t as usize].n.clone() {
                    N::Tab(var, d) => {
                        let m = mask(w);
                        let e = d.iter().map(|x| ((*x as u128 >> lo) & m) as u64).collect();
                        self.mk_tab(var, w, e)
                    }
                    N::Cat(p) => {
                        let mut o = vec![];
                        let mut s = 0;
                        for (a, pw) in p {
                            let (b, e) = (s.max(lo), (s + pw).min(lo + w));
                            if b < e {
                                let x = self.slice(&Self::v(a), b - s, e - b);
                                o.push((Self::a(&x), e - b));
                            }
                            s += pw;
                        }
                        self.cat(o)
                    }
                    N::Ext(b, l2) => self.slice(&V::S(b), l2 + lo, w),
                    N::Bin(op @ (B::And | B::Or | B::Xor), a, b) => {
                        let x = self.slice(&Self::v(a), lo, w);
                        let y = self.slice(&Self::v(b), lo, w);
                        self.bin(op, w, &x, &y)
                    }
                    N::Bin(op @ (B::Add | B::Sub | B::Mul), a, b) if lo == 0 => {
                        let x = self.slice(&Self::v(a), 0, w);
                        let y = self.slice(&Self::v(b), 0, w);
                        self.bin(op, w, &x, &y)
                    }
                    N::Ite(c, a, b) => {
                        let x = self.slice(&Self::v(a), lo, w);
                        let y = self.slice(&Self::v(b), lo, w);
                        self.ite(&V::S(c), w, &x, &y)
                    }
                    _ => self.node(N::Ext(t, lo), w, &[A::T(t)]),
                };
                self.sliced.insert((t, lo, w), r.clone());
                r
            }
            _ => panic!("slice of aggregate"),
        }
    }
    pub fn zext(&mut self, v: &V, from: u32, to: u32) -> V {
        match v {
            V::C(c) => V::C(*c),
            _ => {
                let a = Self::a(v);
                self.cat(vec![(a, from), (A::K(0), to - from)])
            }
        }
    }
    pub fn sext(&mut self, v: &V, from: u32, to: u32) -> V {
        match v {
            V::C(c) => V::C((sx(*c, from) as u128) & mask(to)),
            V::S(t) => {
                let t = *t;
                if let N::Cat(p) = &self.t[t as usize].n {
                    if let Some((A::K(0), _)) = p.last() {
                        return self.zext(v, from, to);
                    }
                }
                if from == 1 {
                    return self.ite(v, to, &V::C(mask(to)), &V::C(0));
                }
                self.node(N::Sext(t), to, &[A::T(t)])
            }
            _ => panic!("sext of aggregate"),
        }
    }
    pub fn not1(&mut self, v: &V) -> V {
        match v {
            V::C(c) => V::C(1 ^ c),
            V::S(t) => {
                let t = *t;
                if let N::Not(x) = self.t[t as usize].n {
                    return V::S(x);
                }
                self.node(N::Not(t), 1, &[A::T(t)])
            }
            _ => panic!("not of aggregate"),
        }
    }
    pub fn and1(&mut self, a: &V, b: &V) -> V {
        match (a, b) {
            (V::C(0), _) | (_, V::C(0)) => V::C(0),
            (V::C(_), x) | (x, V::C(_)) => x.clone(),
            (V::S(x), V::S(y)) => {
                let mut l = vec![];
                for t in [*x, *y] {
                    match &self.t[t as usize].n {
                        N::AndN(m) => l.extend(m.iter().copied()),
                        _ => l.push(t),
                    }
                }
                l.sort_unstable();
                l.dedup();
                // merge the conjuncts that are tables of the same byte
                let mut o: Vec<Tm> = vec![];
                let mut tabs: Vec<(u32, Vec<u64>)> = vec![];
                for t in l {
                    if let Some((v, d)) = self.tab(t) {
                        if let Some(e) = tabs.iter_mut().find(|e| e.0 == v) {
                            for i in 0..256 {
                                e.1[i] &= d[i];
                            }
                        } else {
                            tabs.push((v, d.to_vec()));
                        }
                    } else {
                        if let N::Not(x) = self.t[t as usize].n {
                            if o.contains(&x) {
                                return V::C(0);
                            }
                        }
                        o.push(t);
                    }
                }
                for (v, d) in tabs {
                    match self.mk_tab(v, 1, d) {
                        V::C(0) => return V::C(0),
                        V::S(t) => o.push(t),
                        _ => {}
                    }
                }
                o.sort_unstable();
                o.dedup();
                for t in &o {
                    if let N::Not(x) = self.t[*t as usize].n {
                        if o.binary_search(&x).is_ok() {
                            return V::C(0);
                        }
                    }
                }
                match o.len() {
                    0 => V::C(1),
                    1 => V::S(o[0]),
                    _ => {
                        let ops: Vec<A> = o.iter().map(|t| A::T(*t)).collect();
                        self.node(N::AndN(o), 1, &ops)
                    }
                }
            }
            _ => panic!("and of aggregate"),
        }
    }
    pub fn or1(&mut self, a: &V, b: &V) -> V {
        let x = self.not1(a);
        let y = self.not1(b);
        let z = self.and1(&x, &y);
        self.not1(&z)
    }
    pub fn ite(&mut self, c: &V, w: u32, a: &V, b: &V) -> V {
        if let V::C(x) = c {
            return if *x & 1 == 1 { a.clone() } else { b.clone() };
        }
        if a == b {
            return a.clone();
        }
        if let (V::Agg(x), V::Agg(_)) = (a, b) {
            let _ = x;
            panic!("ite on aggregates");
        }
        if w == 1 {
            let nc = self.not1(c);
            let x = self.and1(c, a);
            let y = self.and1(&nc, b);
            return self.or1(&x, &y);
        }
        let ct = match c {
            V::S(t) => *t,
            _ => unreachable!(),
        };
        if let N::Not(x) = self.t[ct as usize].n {
            return self.ite(&V::S(x), w, b, a);
        }
        let (ka, kb) = (Self::a(a), Self::a(b));
        self.node(N::Ite(ct, ka, kb), w, &[A::T(ct), ka, kb])
    }
    pub fn bin(&mut self, op: B, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(fold(op, w, *x, *y).unwrap_or(0));
        }
        let (ka, kb) = (Self::a(a), Self::a(b));
        if w <= 64 {
            if let Some(v) = self.tab2(ka, kb) {
                let mut d = Vec::with_capacity(256);
                for i in 0..256 {
                    d.push(fold(op, w, self.at(ka, i), self.at(kb, i)).unwrap_or(0) as u64);
                }
                return self.mk_tab(v, w, d);
            }
        }
        let m = mask(w);
        if w == 1 {
            match op {
                B::And => return self.and1(a, b),
                B::Or => return self.or1(a, b),
                B::Xor | B::Add | B::Sub => {
                    let na = self.not1(a);
                    let nb = self.not1(b);
                    let x = self.and1(a, &nb);
                    let y = self.and1(&na, b);
                    return self.or1(&x, &y);
                }
                _ => {}
            }
        }
        match (op, a, b) {
            (B::Add | B::Or | B::Xor, V::C(0), x) => return x.clone(),
            (B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr, x, V::C(0)) => {
                return x.clone()
            }
            (B::And | B::Mul, V::C(0), _) | (B::And | B::Mul, _, V::C(0)) => return V::C(0),
            (B::And, V::C(k), x) | (B::And, x, V::C(k)) if *k == m => return x.clone(),
            (B::Or, V::C(k), _) | (B::Or, _, V::C(k)) if *k == m => return V::C(m),
            (B::Mul, V::C(1), x) | (B::Mul, x, V::C(1)) => return x.clone(),
            (B::UDiv, x, V::C(1)) => return x.clone(),
            (B::Xor | B::Sub, x, y) if x == y => return V::C(0),
            (B::And | B::Or, x, y) if x == y => return x.clone(),
            (B::Shl, x, V::C(k)) => {
                if *k >= w as u128 {
                    return V::C(0);
                }
                let k = *k as u32;
                let s = self.slice(x, 0, w - k);
                return self.cat(vec![(A::K(0), k), (Self::a(&s), w - k)]);
            }
            (B::LShr, x, V::C(k)) => {
                if *k >= w as u128 {
                    return V::C(0);
                }
                let k = *k as u32;
                let s = self.slice(x, k, w - k);
                return self.cat(vec![(Self::a(&s), w - k), (A::K(0), k)]);
            }
            (B::AShr, x, V::C(k)) => {
                let k = (*k).min(w as u128 - 1) as u32;
                let s = self.slice(x, k, w - k);
                return self.sext(&s, w - k, w);
            }
            (B::Mul, x, V::C(k)) | (B::Mul, V::C(k), x) if k.is_power_of_two() => {
                let x = x.clone();
                return self.bin(B::Shl, w, &x, &V::C(k.trailing_zeros() as u128));
            }
            (B::UDiv, x, V::C(k)) if k.is_power_of_two() => {
                return self.bin(B::LShr, w, x, &V::C(k.trailing_zeros() as u128));
            }
            (B::URem, x, V::C(k)) if k.is_power_of_two() => {
                return self.bin(B::And, w, x, &V::C(k - 1));
            }
            _ => {}
        }
        if matches!(op, B::And | B::Or | B::Xor) {
            // bitwise operations work piece by piece
            let mut cuts: Vec<u32> = vec![0, w];
            let mut cutting = false;
            for v in [a, b] {
                match v {
                    V::C(k) => {
                        // runs of equal bits
                        let mut last = k & 1;
                        let mut c = vec![];
                        for i in 1..w {
                            let x = (k >> i) & 1;
                            if x != last {
                                c.push(i);
                                last = x;
                            }
                        }
                        if op != B::Xor && c.len() <= 8 {
                            cutting |= true;
                            cuts.extend(c);
                        }
                    }
                    _ => {
                        let p = self.pieces(v, w);
                        if p.len() > 1 {
                            cutting = true;
                            let mut s = 0;
                            for (_, pw) in p {
                                s += pw;
                                cuts.push(s);
                            }
                        }
                    }
                }
            }
            cuts.sort_unstable();
            cuts.dedup();
            if cutting && cuts.len() > 2 {
                let mut o = vec![];
                for i in 0..cuts.len() - 1 {
                    let (lo, pw) = (cuts[i], cuts[i + 1] - cuts[i]);
                    let x = self.slice(a, lo, pw);
                    let y = self.slice(b, lo, pw);
                    let z = self.bin(op, pw, &x, &y);
                    o.push((Self::a(&z), pw));
                }
                return self.cat(o);
            }
        }
        // additions whose low part is disjoint
        if op == B::Add {
            if let (V::S(t), V::C(k)) | (V::C(k), V::S(t)) = (a, b) {
                // (x + k1) + k2
                if let N::Bin(B::Add, x, A::K(k1)) = self.t[*t as usize].n.clone() {
                    let s = fold(B::Add, w, k1, *k).unwrap();
                    return self.bin(B::Add, w, &Self::v(x), &V::C(s));
                }
            }
        }
        if op == B::Sub {
            if let V::C(k) = b {
                let nk = fold(B::Sub, w, 0, *k).unwrap();
                return self.bin(B::Add, w, a, &V::C(nk));
            }
        }
        let (ka, kb) = match (op, ka, kb) {
            (B::Add | B::Mul | B::And | B::Or | B::Xor, A::K(_), A::T(_)) => (kb, ka),
            (B::Add | B::Mul | B::And | B::Or | B::Xor, A::T(x), A::T(y)) if x > y => (kb, ka),
            _ => (ka, kb),
        };
        self.node(N::Bin(op, ka, kb), w, &[ka, kb])
    }
    pub fn cmp(&mut self, p: P, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(cmpc(p, w, *x, *y) as u128);
        }
        if a == b {
            return V::C((p == P::Eq) as u128);
        }
        let (ka, kb) = (Self::a(a), Self::a(b));
        if let Some(v) = self.tab2(ka, kb) {
            let mut d = Vec::with_capacity(256);
            for i in 0..256 {
                d.push(cmpc(p, w, self.at(ka, i), self.at(kb, i)) as u64);
            }
            return self.mk_tab(v, 1, d);
        }
        if w == 1 && p == P::Eq {
            let x = self.bin(B::Xor, 1, a, b);
            return self.not1(&x);
        }
        let (pa, pb) = (self.pieces(a, w), self.pieces(b, w));
        if p == P::Eq && (pa.len() > 1 || pb.len() > 1) {
            let mut cuts = vec![0];
            for q in [&pa, &pb] {
                let mut s = 0;
                for (_, pw) in q.iter() {
                    s += pw;
                    cuts.push(s);
                }
            }
            cuts.sort_unstable();
            cuts.dedup();
            let mut r = V::C(1);
            for i in 0..cuts.len() - 1 {
                let (lo, pw) = (cuts[i], cuts[i + 1] - cuts[i]);
                let x = self.slice(a, lo, pw);
                let y = self.slice(b, lo, pw);
                let e = self.cmp(P::Eq, pw, &x, &y);
                r = self.and1(&r, &e);
                if r == V::C(0) {
                    return r;
                }
            }
            return r;
        }
        if p == P::Eq {
            // ite(c, k1, k2) == k
            if let (V::S(t), V::C(k)) | (V::C(k), V::S(t)) = (a, b) {
                let k = *k;
                match self.t[*t as usize].n.clone() {
                    N::Ite(c, x, y) if matches!(x, A::K(_)) || matches!(y, A::K(_)) => {
                        let ex = self.cmp(P::Eq, w, &Self::v(x), &V::C(k));
                        let ey = self.cmp(P::Eq, w, &Self::v(y), &V::C(k));
                        return self.ite(&V::S(c), 1, &ex, &ey);
                    }
                    N::Bin(B::Add, x, A::K(k1)) => {
                        let d = fold(B::Sub, w, k, k1).unwrap();
                        return self.cmp(P::Eq, w, &Self::v(x), &V::C(d));
                    }
                    N::Bin(B::Xor, x, A::K(k1)) => {
                        return self.cmp(P::Eq, w, &Self::v(x), &V::C(k ^ k1));
                    }
                    N::Bin(B::Xor | B::Sub, x, y) if k == 0 => {
                        return self.cmp(P::Eq, w, &Self::v(x), &Self::v(y));
                    }
                    N::Bin(B::Or, x, y) if k == 0 => {
                        let ex = self.cmp(P::Eq, w, &Self::v(x), &V::C(0));
                        let ey = self.cmp(P::Eq, w, &Self::v(y), &V::C(0));
                        return self.and1(&ex, &ey);
                    }
                    N::Sext(x) => {
                        let sw = self.w(x);
                        let low = k & mask(sw);
                        if (sx(low, sw) as u128) & mask(w) != k {
                            return V::C(0);
                        }
                        return self.cmp(P::Eq, sw, &V::S(x), &V::C(low));
                    }
                    _ => {}
                }
            }
        } else {
            // common zero top part
            let top = |q: &Vec<(A, u32)>, v: &V| -> u32 {
                match (v, q.last()) {
                    (V::C(k), _) => {
                        let lz = k.leading_zeros();
                        (w + lz).saturating_sub(128)
                    }
                    (_, Some((A::K(k), pw))) => (pw + k.leading_zeros()).saturating_sub(128),
                    _ => 0,
                }
            };
            let (ta, tb) = (top(&pa, a), top(&pb, b));
            let z = ta.min(tb);
            if z > 0 && z < w && (p == P::Ult || z >= 1) {
                let nw = w - z;
                let x = self.slice(a, 0, nw);
                let y = self.slice(b, 0, nw);
                return self.cmp(P::Ult, nw, &x, &y);
            }
            if p == P::Ult {
                // a has fewer significant bits than the constant
                if let V::C(k) = b {
                    if ta > 0 && w - ta < 128 && *k >> (w - ta) != 0 {
                        return V::C(1);
                    }
                    if *k == 0 {
                        return V::C(0);
                    }
                    if *k == 1 {
                        return self.cmp(P::Eq, w, a, &V::C(0));
                    }
                }
                if let V::C(k) = a {
                    if tb > 0 && w - tb < 128 && *k >> (w - tb) != 0 {
                        return V::C(0);
                    }
                    if *k == 0 {
                        let e = self.cmp(P::Eq, w, b, &V::C(0));
                        return self.not1(&e);
                    }
                }
            }
        }
        let (ka, kb) = match (p, ka, kb) {
            (P::Eq, A::K(_), A::T(_)) => (kb, ka),
            (P::Eq, A::T(x), A::T(y)) if x > y => (kb, ka),
            _ => (ka, kb),
        };
        self.node(N::Cmp(p, w, ka, kb), 1, &[ka, kb])
    }

    // ------------------------------------------------------------ SMT-LIB
    fn lit(v: u128, w: u32) -> String {
        format!("(_ bv{} {})", v, w)
    }
    fn pa(a: A, w: u32) -> String {
        match a {
            A::K(c) => Self::lit(c, w),
            A::T(t) => format!("t{t}"),
        }
    }
    /// definitions of `t` and what it needs, in order
    pub fn define(&self, t: Tm, done: &mut std::collections::HashSet<Tm>, o: &mut String) {
        let mut stack = vec![(t, false)];
        while let Some((t, ready)) = stack.pop() {
            if done.contains(&t) {
                continue;
            }
            let i = &self.t[t as usize];
            if !ready {
                stack.push((t, true));
                let mut push = |a: &A| {
                    if let A::T(x) = a {
                        if !done.contains(x) {
                            stack.push((*x, false));
                        }
                    }
                };
                match &i.n {
                    N::Tab(..) => {}
                    N::Cat(p) => p.iter().for_each(|x| push(&x.0)),
                    N::Ext(x, _) | N::Not(x) | N::Sext(x) => push(&A::T(*x)),
                    N::Bin(_, a, b) | N::Cmp(_, _, a, b) => {
                        push(a);
                        push(b);
                    }
                    N::AndN(l) => l.iter().for_each(|x| push(&A::T(*x))),
                    N::Ite(c, a, b) => {
                        push(&A::T(*c));
                        push(a);
                        push(b);
                    }
                }
                continue;
            }
            done.insert(t);
            let w = i.w;
            let body = match &i.n {
                N::Tab(v, d) => self.tab_smt(*v, w, d),
                N::Cat(p) => {
                    let mut s = String::from("(concat");
                    for (a, pw) in p.iter().rev() {
                        let _ = write!(s, " {}", Self::pa(*a, *pw));
                    }
                    s + ")"
                }
                N::Ext(x, lo) => format!("((_ extract {} {}) t{x})", lo + w - 1, lo),
                N::Sext(x) => format!("((_ sign_extend {}) t{x})", w - self.w(*x)),
                N::Not(x) => format!("(bvnot t{x})"),
                N::AndN(l) => {
                    let mut s = String::from("(bvand");
                    for x in l {
                        let _ = write!(s, " t{x}");
                    }
                    s + ")"
                }
                N::Ite(c, a, b) => {
                    format!("(ite (= t{c} #b1) {} {})", Self::pa(*a, w), Self::pa(*b, w))
                }
                N::Bin(op, a, b) => {
                    let n = match op {
                        B::Add => "bvadd",
                        B::Sub => "bvsub",
                        B::Mul => "bvmul",
                        B::UDiv => "bvudiv",
                        B::SDiv => "bvsdiv",
                        B::URem => "bvurem",
                        B::SRem => "bvsrem",
                        B::Shl => "bvshl",
                        B::LShr => "bvlshr",
                        B::AShr => "bvashr",
                        B::And => "bvand",
                        B::Or => "bvor",
                        B::Xor => "bvxor",
                    };
                    format!("({n} {} {})", Self::pa(*a, w), Self::pa(*b, w))
                }
                N::Cmp(p, cw, a, b) => {
                    let n = match p {
                        P::Eq => "=",
                        P::Ult => "bvult",
                        P::Slt => "bvslt",
                    };
                    format!("(ite ({n} {} {}) #b1 #b0)", Self::pa(*a, *cw), Self::pa(*b, *cw))
                }
            };
            let _ = writeln!(o, "(define-fun t{t} () (_ BitVec {w}) {body})");
        }
    }
    fn tab_smt(&self, v: u32, w: u32, d: &[u64]) -> String {
        // runs of the shape slope * x + k
        let m = mask(w);
        let mut runs: Vec<(usize, u128, u128)> = vec![];
        let mut i = 0;
        while i < 256 {
            let mut j = i;
            while j + 1 < 256 && d[j + 1] == d[i] {
                j += 1;
            }
            let (mut k, mut slope) = (i, 0);
            if w >= 8 && i + 1 < 256 {
                slope = (d[i + 1] as u128).wrapping_sub(d[i] as u128) & m;
                while k + 1 < 256 && (d[k + 1] as u128).wrapping_sub(d[k] as u128) & m == slope {
                    k += 1;
                }
            }
            if k > j && (k > i + 1 || slope == 1) {
                runs.push((i, slope, (d[i] as u128).wrapping_sub(slope.wrapping_mul(i as u128)) & m));
                i = k + 1;
            } else {
                runs.push((i, 0, d[i] as u128));
                i = j + 1;
            }
        }
        let x = if w > 8 {
            format!("((_ zero_extend {}) v{v})", w - 8)
        } else {
            format!("v{v}")
        };
        let val = |r: &(usize, u128, u128)| {
            let p = match r.1 {
                0 => return Self::lit(r.2, w),
                1 => x.clone(),
                s => format!("(bvmul {} {x})", Self::lit(s, w)),
            };
            if r.2 == 0 {
                p
            } else {
                format!("(bvadd {p} {})", Self::lit(r.2, w))
            }
        };
        // balanced search tree over the runs
        fn tree(r: &[(usize, u128, u128)], v: u32, val: &dyn Fn(&(usize, u128, u128)) -> String) -> String {
            if r.len() == 1 {
                return val(&r[0]);
            }
            let h = r.len() / 2;
            format!(
                "(ite (bvult v{v} (_ bv{} 8)) {} {})",
                r[h].0,
                tree(&r[..h], v, val),
                tree(&r[h..], v, val)
            )
        }
        tree(&runs, v, &val)
    }
    pub fn dom_smt(v: u32, d: &Dom) -> String {
        let mut s = String::from("(or");
        let mut i = 0;
        while i < 256 {
            if has(d, i) {
                let mut j = i;
                while j + 1 < 256 && has(d, j + 1) {
                    j += 1;
                }
                let _ = write!(s, " (and (bvuge v{v} (_ bv{i} 8)) (bvule v{v} (_ bv{j} 8)))");
                i = j + 1;
            } else {
                i += 1;
            }
        }
        s + " false)"
    }
}
