//! Symbolic execution of the module: depth-first over paths, forking on symbolic control flow,
//! addresses and sizes.
use crate::ir::*;
use crate::solver::{Ans, Solver};
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, Tm>,
    pub ro: bool,
    pub maxw: u64,
    pub heap: bool,
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    blk: u32,
    prev: u32,
    ip: u32,
    regs: Vec<V>,
    allocas: Vec<u64>,
    dst: Option<u32>,
    next: Option<u32>,
}

/// two threads (1 and 2) of which one runs at a time; 0 waits for them
#[derive(Clone)]
pub struct Par {
    frames: [Vec<Rc<Frame>>; 3],
    wait: [Option<u64>; 3],
    done: [bool; 3],
    /// the next access of this thread needs no further leave
    granted: [bool; 3],
    cur: usize,
    /// how many shared accesses a thread makes before it is interrupted, for each interruption
    plan: Vec<V>,
    slice: usize,
    count: u64,
    /// memory from here on belongs to the thread that asked for it
    start: u64,
    tls: BTreeMap<(usize, u64), u64>,
}

#[derive(Clone)]
pub enum After {
    Start(u64, u64, Vec<V>),
    Wait(u64),
    Yield,
}

#[derive(Clone)]
pub struct State {
    par: Option<Rc<Par>>,
    after: Option<After>,
    frames: Vec<Rc<Frame>>,
    mem: BTreeMap<u64, Rc<Obj>>,
    next: u64,
    doms: Rc<Vec<Dom>>,
    cons: Rc<Vec<Tm>>,
    cvars: Rc<HashSet<u32>>,
    known: Rc<HashMap<Tm, u128>>,
    model: Rc<Vec<u8>>,
    steps: u64,
    alloc_limit: u64,
    heap: u64,
    reached: u64,
    emitted: Rc<Vec<u64>>,
}

pub enum Stop {
    Retry,
    Kill,
    Bad(String),
}
type Rs<T> = Result<T, Stop>;

pub struct Violation {
    pub kind: String,
    pub id: u64,
    pub msg: String,
    pub input: Vec<u8>,
    pub trace: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub ended: u64,
    pub killed: u64,
    pub steps: u64,
    pub checks_const: u64,
    pub checks_solver: u64,
    pub forks: u64,
    pub reached: u64,
}

pub struct Engine {
    pub m: Module,
    pub t: Terms,
    pub s: Solver,
    ext: Vec<u8>, // 0 unknown, 1 body, 2 external/intercepted
    consts: HashMap<usize, Rc<Obj>>,
    work: Vec<State>,
    pub st: Stats,
    pub viol: Vec<Violation>,
    pub bad: Vec<String>,
    pub funcs: HashSet<usize>,
    pub max_steps: u64,
    pub max_paths: u64,
    pub deadline: std::time::Instant,
    confirmed: HashSet<(Vec<Tm>, Vec<(u32, Dom)>)>,
    cache: HashMap<(Vec<Tm>, Vec<(u32, Dom)>), Option<Vec<(u32, u8)>>>,
    conc: HashMap<(usize, u32, u32), u32>,
    pub concrete: Option<Vec<u8>>,
    pub emitted: Vec<u64>,
    /// inputs of a few completed paths, with what each reached
    pub witness: Vec<(u64, Vec<u8>)>,
    pub repaired: u64,
    pub max_viol: usize,
    seen: HashSet<(String, u64, String)>,
    reduced: HashMap<(Tm, u32, Vec<u8>), V>,
    /// numbers are printed exactly
    pub exact: bool,
    pub prof: Option<HashMap<usize, u64>>,
    pub fprof: HashMap<(usize, u32, u32), u64>,
    pub qprof: HashMap<(usize, u32, u32), (u64, f64)>,
}

const LIMIT_CONC: u32 = 1_000_000;

impl Engine {
    pub fn new(m: Module, timeout_ms: u32) -> Engine {
        let n = m.fnames.len();
        Engine {
            m,
            t: Terms::default(),
            s: Solver::new(timeout_ms),
            ext: vec![0; n],
            consts: HashMap::new(),
            work: vec![],
            st: Stats::default(),
            viol: vec![],
            bad: vec![],
            funcs: HashSet::new(),
            max_steps: 200_000_000,
            max_paths: 10_000_000,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(600),
            confirmed: HashSet::new(),
            cache: HashMap::new(),
            conc: HashMap::new(),
            concrete: None,
            emitted: vec![],
            witness: vec![],
            repaired: 0,
            max_viol: 5,
            seen: HashSet::new(),
            reduced: HashMap::new(),
            exact: false,
            prof: None,
            fprof: HashMap::new(),
            qprof: HashMap::new(),
        }
    }

    pub fn run(&mut self, name: &str, args: &[u64]) {
        let f = match self.m.findex.get(name) {
            Some(f) => *f,
            None => {
                self.bad.push(format!("no harness {name}"));
                return;
            }
        };
        let mut st = State {
            par: None,
            after: None,
            frames: vec![],
            mem: BTreeMap::new(),
            next: HBASE,
            doms: Rc::new(vec![]),
            cons: Rc::new(vec![]),
            cvars: Rc::new(HashSet::new()),
            known: Rc::new(HashMap::new()),
            model: Rc::new(vec![]),
            steps: 0,
            alloc_limit: 1 << 26,
            heap: 0,
            reached: 0,
            emitted: Rc::new(vec![]),
        };
        let av: Vec<V> = args.iter().map(|a| V::C(*a as u128)).collect();
        if let Err(e) = self.push_frame(&mut st, f, av, None, None) {
            if let Stop::Bad(m) = e {
                self.bad.push(m);
            }
            return;
        }
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            self.st.paths += 1;
            if self.viol.len() >= self.max_viol {
                self.bad.push("stopped: enough violations".into());
                return;
            }
            if self.st.paths > self.max_paths {
                self.bad.push("path budget exhausted".into());
                return;
            }
            if std::time::Instant::now() > self.deadline {
                self.bad.push("time budget exhausted".into());
                return;
            }
            let s0 = st.steps;
            let r = self.path(&mut st);
            self.st.steps += st.steps - s0;
            match r {
                Ok(()) => {
                    self.st.ended += 1;
                    self.st.reached |= st.reached;
                    self.emitted = st.emitted.to_vec();
                    if self.witness.len() < 6 && !self.witness.iter().any(|w| w.0 == st.reached) {
                        self.witness.push((st.reached, st.model.to_vec()));
                    }
                }
                Err(Stop::Kill) => {
                    self.st.killed += 1;
                    self.st.reached |= st.reached;
                }
                Err(Stop::Bad(e)) => {
                    let t = self.trace(&st);
                    let e = format!("{e} @ {}", t.join(" < "));
                    if !self.bad.contains(&e) && self.bad.len() < 20 {
                        self.bad.push(e);
                    }
                }
                Err(Stop::Retry) => unreachable!(),
            }
        }
    }

    fn trace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(14).map(|f| self.m.fnames[f.f.id].clone()).collect()
    }

    fn path(&mut self, st: &mut State) -> Rs<()> {
        let mut chk = 0u32;
        loop {
            if st.frames.is_empty() {
                if st.par.is_none() {
                    return Ok(());
                }
                self.thread_end(st)?;
                continue;
            }
            let f = st.frames.last().unwrap();
            let func = f.f.clone();
            let ins = &func.blocks[f.blk as usize].ins[f.ip as usize];
            if let Some(p) = &mut self.prof {
                *p.entry(func.id).or_insert(0) += 1;
            }
            st.steps += 1;
            if st.steps > self.max_steps {
                return self.hang(st);
            }
            chk += 1;
            if chk & 0xffff == 0 && std::time::Instant::now() > self.deadline {
                return Err(Stop::Bad("time budget exhausted".into()));
            }
            let cur = st.par.as_ref().map(|p| p.cur);
            match self.exec(st, ins) {
                Ok(()) => {
                    if let (Some(c), Some(p)) = (cur, &mut st.par) {
                        if p.granted[c] {
                            Rc::make_mut(p).granted[c] = false;
                        }
                    }
                    if st.after.is_some() {
                        self.after(st)?;
                    }
                }
                Err(Stop::Retry) => {}
                Err(e) => return Err(e),
            }
        }
    }

    // ------------------------------------------------------------ threads
    fn after(&mut self, st: &mut State) -> Rs<()> {
        match st.after.take().unwrap() {
            After::Start(f, g, plan) => {
                let mut p = Par {
                    frames: [std::mem::take(&mut st.frames), vec![], vec![]],
                    wait: [None; 3],
                    done: [false; 3],
                    granted: [false; 3],
                    cur: 2,
                    plan,
                    slice: 0,
                    count: 0,
                    start: st.next,
                    tls: BTreeMap::new(),
                };
                self.push_frame(st, g as usize, vec![], None, None)?;
                p.frames[2] = std::mem::take(&mut st.frames);
                self.push_frame(st, f as usize, vec![], None, None)?;
                p.cur = 1;
                st.par = Some(Rc::new(p));
                Ok(())
            }
            After::Yield => {
                let p = st.par.as_ref().unwrap();
                if !p.done[3 - p.cur] && p.wait[3 - p.cur].is_none() {
                    Self::switch(st);
                }
                Ok(())
            }
            After::Wait(a) => {
                let p = Rc::make_mut(st.par.as_mut().unwrap());
                p.wait[p.cur] = Some(a);
                if p.done[3 - p.cur] || p.wait[3 - p.cur].is_some() {
                    self.violation(st, "deadlock", 0, "every thread waits".into(), None)?;
                    return Err(Stop::Kill);
                }
                Self::switch(st);
                Ok(())
            }
        }
    }
    fn switch(st: &mut State) {
        let p = Rc::make_mut(st.par.as_mut().unwrap());
        let o = 3 - p.cur;
        p.frames[p.cur] = std::mem::take(&mut st.frames);
        st.frames = std::mem::take(&mut p.frames[o]);
        p.cur = o;
        p.count = 0;
    }
    fn thread_end(&mut self, st: &mut State) -> Rs<()> {
        let p = Rc::make_mut(st.par.as_mut().unwrap());
        p.done[p.cur] = true;
        let o = 3 - p.cur;
        if p.done[o] {
            st.frames = std::mem::take(&mut p.frames[0]);
            st.par = None;
            return Ok(());
        }
        if p.wait[o].is_some() {
            self.violation(st, "deadlock", 0, "a thread waits for ever".into(), None)?;
            return Err(Stop::Kill);
        }
        Self::switch(st);
        Ok(())
    }
    /// before a thread accesses memory that the other one may see: is it interrupted here?
    fn sync(&mut self, st: &mut State, a: &V) -> Rs<()> {
        let p = match &st.par {
            Some(p) => p.clone(),
            None => return Ok(()),
        };
        let o = 3 - p.cur;
        if p.granted[p.cur] || p.done[o] || p.wait[o].is_some() || p.slice >= p.plan.len() {
            return Ok(());
        }
        let a = match a {
            V::C(a) => *a as u64,
            _ => return Ok(()),
        };
        if a >= p.start || p.tls.values().any(|b| *b == a) {
            return Ok(());
        }
        let own = |f: &Rc<Frame>| ["6aesgcm", "7aes_gcm", "6randhc", "7rand_hc"].iter().any(|n| self.m.fnames[f.f.id].contains(n));
        if st.frames.iter().any(own) {
            return Ok(());
        }
        let c = self.t.cmp(P::Eq, 8, &p.plan[p.slice], &V::C(p.count.min(255) as u128));
        let stop = p.count < 256 && self.decide(st, &c)?;
        let p = Rc::make_mut(st.par.as_mut().unwrap());
        p.granted[p.cur] = true;
        if stop {
            p.slice += 1;
            Self::switch(st);
            return Err(Stop::Retry);
        }
        p.count += 1;
        Ok(())
    }
    fn shared_global(&self, a: &V) -> bool {
        match a {
            V::C(a) => self.gfind(*a as u64).map_or(false, |g| {
                let g = &self.m.globals[g];
                !g.cst && (*a as u64) < g.base + g.size
            }),
            _ => false,
        }
    }

    fn hang(&mut self, st: &mut State) -> Rs<()> {
        self.violation(st, "hang", 0, "step budget exhausted".into(), None)?;
        Err(Stop::Kill)
    }

    // ------------------------------------------------------------ path condition
    fn evalm(&self, st: &State, v: Tm) -> u128 {
        let mut memo = HashMap::new();
        self.t.eval(v, &|x| st.model[x as usize], &mut memo)
    }
    /// constraints connected to the given variables, and all variables involved
    fn slice(&self, st: &State, seed: &[u32]) -> (Vec<Tm>, Vec<u32>) {
        let free = |v: &u32| st.doms[*v as usize].iter().map(|x| x.count_ones()).sum::<u32>() > 1;
        let mut vars: HashSet<u32> = seed.iter().copied().filter(free).collect();
        let mut all: HashSet<u32> = seed.iter().copied().collect();
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let cv = self.t.vars(*c);
                if cv.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    vars.extend(cv.iter().copied().filter(free));
                    all.extend(cv.iter().copied());
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut c: Vec<Tm> = (0..used.len()).filter(|i| used[*i]).map(|i| st.cons[i]).collect();
        c.sort_unstable();
        c.dedup();
        let mut v: Vec<u32> = all.into_iter().collect();
        v.sort_unstable();
        (c, v)
    }
    fn script(&self, st: &State, cons: &[Tm], vars: &[u32]) -> String {
        let mut o = String::new();
        for v in vars {
            o.push_str(&format!("(declare-const v{v} (_ BitVec 8))\n"));
            let d = &st.doms[*v as usize];
            if *d != FULL {
                o.push_str(&format!("(assert {})\n", Terms::dom_smt(*v, d)));
            }
        }
        let mut done = HashSet::new();
        for c in cons {
            self.t.define(*c, &mut done, &mut o);
            o.push_str(&format!("(assert (= t{c} #b1))\n"));
        }
        o
    }
    /// a model of the path condition with `extra`, for the variables connected to it
    fn sat(&mut self, st: &State, extra: Tm, cached: bool) -> Rs<Option<Vec<(u32, u8)>>> {
        let ev = self.t.vars(extra);
        let (mut cons, vars) = self.slice(st, &ev);
        cons.push(extra);
        let key = if cached {
            let doms: Vec<(u32, Dom)> = vars.iter().map(|v| (*v, st.doms[*v as usize])).collect();
            let k = (cons.clone(), doms);
            if let Some(r) = self.cache.get(&k) {
                return Ok(r.clone());
            }
            Some(k)
        } else {
            None
        };
        let sc = self.script(st, &cons, &vars);
        if let Some(m) = self.repair(st, extra, &cons) {
            self.repaired += 1;
            if let Some(k) = key {
                self.cache.insert(k, Some(m.clone()));
            }
            return Ok(Some(m));
        }
        let t0 = self.s.time;
        let ans = self.s.check(&sc, &vars);
        if self.prof.is_some() {
            let f = st.frames.last().unwrap();
            let e = self.qprof.entry((f.f.id, f.blk, f.ip)).or_insert((0, 0.0));
            e.0 += 1;
            e.1 += self.s.time - t0;
        }
        let r = match ans {
            Ans::Sat(m) => Some(m),
            Ans::Unsat => None,
            Ans::Unknown => return Err(Stop::Bad("solver gave no answer".into())),
        };
        if let Some(k) = key {
            self.cache.insert(k, r.clone());
        }
        Ok(r)
    }
    /// a model found by changing a few bytes of the current one (before asking the solver)
    fn repair(&mut self, st: &State, extra: Tm, cons: &[Tm]) -> Option<Vec<(u32, u8)>> {
        let (neg, body) = match self.t.t[extra as usize].n {
            N::Not(x) => (true, x),
            _ => (false, extra),
        };
        let l = match &self.t.t[body as usize].n {
            N::AndN(l) => l.clone(),
            _ => vec![body],
        };
        for attempt in 0..4u32 {
            let mut m: HashMap<u32, u8> = HashMap::new();
            let get = |m: &HashMap<u32, u8>, v: u32| *m.get(&v).unwrap_or(&st.model[v as usize]);
            let mut ok = true;
            for (i, x) in l.iter().enumerate() {
                if neg && (attempt as usize) % l.len() != i {
                    continue;
                }
                match &self.t.t[*x as usize].n {
                    N::Tab(v, d) => {
                        if d[get(&m, *v) as usize] & 1 == !neg as u64 {
                            continue;
                        }
                        let dom = &st.doms[*v as usize];
                        let mut c = (0..256).filter(|i| has(dom, *i) && d[*i] & 1 == !neg as u64);
                        match c.nth((attempt * 3) as usize) {
                            Some(y) => {
                                m.insert(*v, y as u8);
                            }
                            None => ok = false,
                        }
                    }
                    N::Cmp(P::Eq, _, A::T(a), A::T(b)) => {
                        let (va, vb) = match (self.t.tab(*a), self.t.tab(*b)) {
                            (Some(x), Some(y)) => (x, y),
                            _ => return None,
                        };
                        let (va, da, vb, db) =
                            if attempt & 1 == 0 { (va.0, va.1, vb.0, vb.1) } else { (vb.0, vb.1, va.0, va.1) };
                        let y = da[get(&m, va) as usize];
                        let dom = &st.doms[vb as usize];
                        let mut c = (0..256).filter(|i| has(dom, *i) && (db[*i] == y) != neg);
                        match c.nth(if neg { (attempt * 5 + 1) as usize } else { 0 }) {
                            Some(z) => {
                                m.insert(vb, z as u8);
                            }
                            None => ok = false,
                        }
                    }
                    _ => return None,
                }
            }
            if !ok {
                continue;
            }
            let mut memo = HashMap::new();
            let e = |v: u32| get(&m, v);
            if cons.iter().all(|c| self.t.eval(*c, &e, &mut memo) == 1) {
                return Some(m.into_iter().collect());
            }
        }
        None
    }
    fn set_model(st: &mut State, m: &[(u32, u8)]) {
        let mo = Rc::make_mut(&mut st.model);
        for (v, x) in m {
            mo[*v as usize] = *x;
        }
    }
    /// add a condition known to be satisfiable (the model already satisfies it)
    fn assume(&mut self, st: &mut State, c: Tm) {
        match &self.t.t[c as usize].n {
            N::Tab(v, d) => {
                let dom = &mut Rc::make_mut(&mut st.doms)[*v as usize];
                for i in 0..256 {
                    if d[i] & 1 == 0 {
                        dom[i >> 6] &= !(1 << (i & 63));
                    }
                }
            }
            N::AndN(l) => {
                Rc::make_mut(&mut st.known).insert(c, 1);
                for x in l.clone() {
                    self.assume(st, x);
                }
            }
            n => {
                let k = Rc::make_mut(&mut st.known);
                if k.insert(c, 1) == Some(1) {
                    return;
                }
                if let N::Not(x) = n {
                    k.insert(*x, 0);
                }
                // t == constant fixes the term
                if let N::Cmp(P::Eq, _, A::T(x), A::K(v)) = n {
                    k.insert(*x, *v);
                }
                Rc::make_mut(&mut st.cons).push(c);
                let vars = self.t.vars(c);
                Rc::make_mut(&mut st.cvars).extend(vars.iter().copied());
            }
        }
    }
    fn fixed(st: &State, v: u32) -> bool {
        st.doms[v as usize].iter().map(|x| x.count_ones()).sum::<u32>() == 1
    }
    /// the same value, given the bytes whose value is already determined
    fn reduce(&mut self, st: &State, t: Tm) -> V {
        let vars = self.t.vars(t);
        let w = self.t.w(t);
        if matches!(self.t.t[t as usize].n, N::Tab(..)) || w > 64 {
            if w > 64 && vars.iter().all(|v| Self::fixed(st, *v)) {
                return V::C(self.evalm(st, t));
            }
            return V::S(t);
        }
        let mut free = vars.iter().filter(|v| !Self::fixed(st, **v));
        match (free.next(), free.next()) {
            (None, _) => V::C(self.evalm(st, t)),
            (Some(v), None) => {
                let v = *v;
                let any = self.model_bytes(st, &vars);
                let k = (t, v, any);
                if let Some(r) = self.reduced.get(&k) {
                    return r.clone();
                }
                let d = (0..256u32)
                    .map(|i| {
                        let mut memo = HashMap::new();
                        let e = |x: u32| if x == v { i as u8 } else { st.model[x as usize] };
                        self.t.eval(t, &e, &mut memo) as u64
                    })
                    .collect();
                let r = self.t.mk_tab(v, w, d);
                self.reduced.insert(k, r.clone());
                r
            }
            _ => V::S(t),
        }
    }
    fn model_bytes(&self, st: &State, vars: &[u32]) -> Vec<u8> {
        vars.iter().map(|v| if Self::fixed(st, *v) { st.model[*v as usize] } else { 0 }).collect()
    }
    /// bytes of `t` that have a single value left
    fn narrow(&mut self, st: &mut State, t: Tm) -> Rs<()> {
        let vars = self.t.vars(t);
        let free: Vec<u32> = vars.iter().copied().filter(|v| !Self::fixed(st, *v)).collect();
        if free.len() > 8 {
            return Ok(());
        }
        let mut varies: HashSet<u32> = HashSet::new();
        for v in &free {
            if varies.contains(v) {
                continue;
            }
            let x = st.model[*v as usize];
            let d = (0..256).map(|i| (i != x as u64) as u64).collect();
            let c = match self.t.mk_tab(*v, 1, d) {
                V::S(c) => c,
                _ => continue,
            };
            match self.sat(st, c, true)? {
                Some(m) => {
                    for (w, y) in m {
                        if st.model[w as usize] != y {
                            varies.insert(w);
                        }
                    }
                }
                None => {
                    let mut d = [0; 4];
                    d[(x >> 6) as usize] = 1 << (x & 63);
                    Rc::make_mut(&mut st.doms)[*v as usize] = d;
                }
            }
        }
        Ok(())
    }
    fn narrow_cond(&mut self, st: &mut State, t: Tm) -> Rs<()> {
        let b = match self.t.t[t as usize].n {
            N::Not(x) => x,
            _ => t,
        };
        match self.t.t[b as usize].n {
            N::Cmp(P::Ult | P::Slt, ..) => self.narrow(st, t),
            N::Cmp(P::Eq, ..) if b == t => self.narrow(st, t),
            _ => Ok(()),
        }
    }
    /// values a condition can take: (can be true with model update, can be false with model update)
    fn decide(&mut self, st: &mut State, c: &V) -> Rs<bool> {
        let t = match c {
            V::C(x) => return Ok(*x & 1 == 1),
            V::S(t) => *t,
            _ => return Err(Stop::Bad("branch on an aggregate".into())),
        };
        if let Some(k) = st.known.get(&t) {
            return Ok(*k == 1);
        }
        let t = match self.reduce(st, t) {
            V::C(x) => {
                Rc::make_mut(&mut st.known).insert(t, x);
                return Ok(x == 1);
            }
            V::S(t) => t,
            _ => unreachable!(),
        };
        if let N::AndN(l) = &self.t.t[t as usize].n {
            // all conjuncts known?
            let l = l.clone();
            let mut all = true;
            for x in l {
                match self.quick(st, x) {
                    Some(false) => return Ok(false),
                    Some(true) => {}
                    None => all = false,
                }
            }
            if all {
                return Ok(true);
            }
        }
        let nt = match self.t.not1(&V::S(t)) {
            V::S(x) => x,
            _ => unreachable!(),
        };
        if let Some(b) = self.quick(st, t) {
            return Ok(b);
        }
        // one side is satisfied by the model
        let now = self.evalm(st, t) == 1;
        let other = if now { nt } else { t };
        let m = self.other_side(st, other)?;
        match m {
            None => {
                Rc::make_mut(&mut st.known).insert(t, now as u128);
                Rc::make_mut(&mut st.known).insert(nt, !now as u128);
                Ok(now)
            }
            Some(m) => {
                self.st.forks += 1;
                if self.prof.is_some() {
                    let f = st.frames.last().unwrap();
                    *self.fprof.entry((f.f.id, f.blk, f.ip)).or_insert(0) += 1;
                }
                let mut o = st.clone();
                o.steps = st.steps - 1;
                st.steps = st.steps;
                let (tm, fm) = (t, nt);
                if now {
                    self.assume(st, tm);
                    Self::set_model(&mut o, &m);
                    self.assume(&mut o, fm);
                } else {
                    Self::set_model(st, &m);
                    self.assume(st, tm);
                    self.assume(&mut o, fm);
                }
                self.narrow_cond(st, tm)?;
                self.narrow_cond(&mut o, fm)?;
                self.work.push(o);
                Ok(true)
            }
        }
    }
    /// decided by the byte domains alone
    fn quick(&self, st: &State, t: Tm) -> Option<bool> {
        if let Some(k) = st.known.get(&t) {
            return Some(*k == 1);
        }
        if let N::Tab(v, d) = &self.t.t[t as usize].n {
            let dom = &st.doms[*v as usize];
            let (mut a, mut b) = (false, false);
            for i in 0..256 {
                if has(dom, i) {
                    if d[i] & 1 == 1 {
                        a = true
                    } else {
                        b = true
                    }
                }
            }
            if !a {
                return Some(false);
            }
            if !b {
                return Some(true);
            }
        }
        None
    }
    fn other_side(&mut self, st: &State, c: Tm) -> Rs<Option<Vec<(u32, u8)>>> {
        if let N::Tab(v, d) = &self.t.t[c as usize].n {
            if !st.cvars.contains(v) {
                let dom = &st.doms[*v as usize];
                for i in 0..256 {
                    if has(dom, i) && d[i] & 1 == 1 {
                        return Ok(Some(vec![(*v, i as u8)]));
                    }
                }
                return Ok(None);
            }
        }
        self.sat(st, c, true)
    }
    /// one concrete value for v; other feasible values are explored by other paths
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> Rs<u128> {
        let t = match v {
            V::C(c) => return Ok(*c),
            V::S(t) => *t,
            _ => return Err(Stop::Bad("concretising an aggregate".into())),
        };
        if let Some(k) = st.known.get(&t) {
            return Ok(*k);
        }
        let t = match self.reduce(st, t) {
            V::C(x) => {
                Rc::make_mut(&mut st.known).insert(t, x);
                return Ok(x);
            }
            V::S(t) => t,
            _ => unreachable!(),
        };
        let v = &V::S(t);
        let f = st.frames.last().unwrap();
        let n = self.conc.entry((f.f.id, f.blk, f.ip)).or_insert(0);
        *n += 1;
        if *n > LIMIT_CONC {
            return Err(Stop::Bad("too many values for an address or a size".into()));
        }
        let x = self.evalm(st, t);
        let e = self.t.cmp(P::Eq, w, v, &V::C(x));
        if self.decide(st, &e)? {
            Rc::make_mut(&mut st.known).insert(t, x);
            self.narrow(st, t)?;
            Ok(x)
        } else {
            Err(Stop::Bad("concretisation".into()))
        }
    }

    fn violation(&mut self, st: &State, kind: &str, id: u64, msg: String, extra: Option<Tm>) -> Rs<()> {
        // the whole path condition, decided by the solver
        let mut cons: Vec<Tm> = st.cons.to_vec();
        if let Some(e) = extra {
            cons.push(e);
        }
        let vars: Vec<u32> = (0..st.doms.len() as u32).collect();
        let sc = self.script(st, &cons, &vars);
        self.st.checks_solver += 1;
        let m = match self.s.check(&sc, &vars) {
            Ans::Sat(m) => m,
            Ans::Unsat => return Ok(()),
            Ans::Unknown => return Err(Stop::Bad("solver gave no answer".into())),
        };
        let mut input = st.model.to_vec();
        for (v, x) in m {
            input[v as usize] = x;
        }
        let trace = self.trace(st);
        let site = trace.iter().find(|n| n.contains("cosmian_abe_gpsw")).cloned().unwrap_or_default();
        if self.seen.insert((kind.to_string(), id, site)) {
            self.viol.push(Violation { kind: kind.into(), id, msg, input, trace });
        }
        Ok(())
    }

    // ------------------------------------------------------------ memory
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, heap: bool) -> u64 {
        let al = align.max(16);
        let base = (st.next + al - 1) / al * al;
        st.next = base + size.max(1) + 48;
        st.mem.insert(
            base,
            Rc::new(Obj {
                size,
                data: vec![0; size as usize],
                sym: BTreeMap::new(),
                ro: false,
                maxw: 0,
                heap,
            }),
        );
        base
    }
    fn gfind(&self, a: u64) -> Option<usize> {
        let k = self.m.globals.partition_point(|g| g.base <= a);
        if k == 0 {
            return None;
        }
        Some(k - 1)
    }
    fn gobj(&mut self, g: usize) -> Rs<Rc<Obj>> {
        if let Some(o) = self.consts.get(&g) {
            return Ok(o.clone());
        }
        let gl = &self.m.globals[g];
        let (ty, v) = self.m.init(gl).map_err(|e| Stop::Bad(format!("global {}: {e}", gl.name)))?;
        let mut data = vec![0; gl.size as usize];
        Self::flat(&ty, &v, 0, &mut data);
        let o = Rc::new(Obj {
            size: gl.size,
            data,
            sym: BTreeMap::new(),
            ro: gl.cst,
            maxw: 0,
            heap: false,
        });
        self.consts.insert(g, o.clone());
        Ok(o)
    }
    fn flat(ty: &Ty, v: &V, off: usize, d: &mut [u8]) {
        match v {
            V::C(c) => {
                let n = ty.store() as usize;
                d[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
            }
            V::Agg(l) => {
                for (i, x) in l.iter().enumerate() {
                    Self::flat(ty.elem(i), x, off + ty.field(i) as usize, d);
                }
            }
            V::S(_) => unreachable!(),
        }
    }
    /// the object an access of n bytes at a belongs to
    fn find(&mut self, st: &mut State, a: u64, n: u64, write: bool) -> Rs<(u64, Rc<Obj>)> {
        let r = if a >= HBASE && a < FBASE {
            st.mem.range(..=a).next_back().map(|(b, o)| (*b, o.clone()))
        } else if a >= GBASE && a < HBASE {
            match self.gfind(a) {
                Some(g) => {
                    let b = self.m.globals[g].base;
                    match st.mem.get(&b) {
                        Some(o) => Some((b, o.clone())),
                        None => Some((b, self.gobj(g)?)),
                    }
                }
                None => None,
            }
        } else {
            None
        };
        let what = if write { "write" } else { "read" };
        match r {
            Some((b, o)) if a - b <= o.size && n <= o.size - (a - b) => {
                if write && o.ro {
                    self.violation(st, "memory", 0, format!("{what} of {n} bytes in constant data"), None)?;
                    return Err(Stop::Kill);
                }
                Ok((b, o))
            }
            Some((b, o)) => {
                let m = format!(
                    "{what} of {n} bytes at offset {} of an object of {} bytes",
                    a.wrapping_sub(b) as i64,
                    o.size
                );
                self.violation(st, "memory", 0, m, None)?;
                Err(Stop::Kill)
            }
            None => {
                self.violation(st, "memory", 0, format!("{what} of {n} bytes at address {a:#x}"), None)?;
                Err(Stop::Kill)
            }
        }
    }
    fn byte(&mut self, o: &Obj, i: u64) -> (A, u32) {
        match o.sym.get(&(i as u32)) {
            Some(t) => (A::T(*t), 8),
            None => (A::K(o.data[i as usize] as u128), 8),
        }
    }
    fn read_int(&mut self, o: &Obj, off: u64, n: u64) -> V {
        if o.sym.is_empty() || o.sym.range(off as u32..(off + n) as u32).next().is_none() {
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(&o.data[off as usize..(off + n) as usize]);
            return V::C(u128::from_le_bytes(b));
        }
        let p = (0..n).map(|i| self.byte(o, off + i)).collect();
        self.t.cat(p)
    }
    fn read_ty(&mut self, o: &Obj, off: u64, ty: &Ty) -> Rs<V> {
        Ok(match ty {
            Ty::Int(w) => {
                let n = ty.store();
                let v = self.read_int(o, off, n);
                if *w as u64 == n * 8 {
                    v
                } else {
                    self.t.slice(&v, 0, *w)
                }
            }
            Ty::Ptr => self.read_int(o, off, 8),
            Ty::Fl(w) => self.read_int(o, off, *w as u64 / 8),
            Ty::Vec(n, e) => {
                let eb = e.bits() as u64 / 8;
                if eb == 0 {
                    let x = self.read_int(o, off, ty.store());
                    let x = self.t.slice(&x, 0, ty.bits());
                    return Ok(self.from_bits(ty, &x));
                }
                let l = (0..*n as u64).map(|i| self.read_int(o, off + i * eb, eb)).collect();
                V::Agg(Rc::new(l))
            }
            Ty::St(..) | Ty::Arr(..) => {
                let mut l = vec![];
                for i in 0..ty.elems() {
                    l.push(self.read_ty(o, off + ty.field(i), ty.elem(i))?);
                }
                V::Agg(Rc::new(l))
            }
            _ => return Err(Stop::Bad(format!("load of {ty:?}"))),
        })
    }
    fn load(&mut self, st: &mut State, p: &V, ty: &Ty) -> Rs<V> {
        let a = match p {
            V::C(a) => *a as u64,
            V::S(t) => {
                let t = *t;
                // lookup table indexed by one symbolic byte
                let mut hit = None;
                if let (Some((v, d)), Ty::Int(w)) = (self.t.tab(t), ty) {
                    if *w <= 64 {
                        hit = Some((v, d.clone(), *w));
                    }
                }
                if let Some((v, d, w)) = hit {
                    let dom = st.doms[v as usize];
                    let n = ty.store();
                    let mut out = vec![0u64; 256];
                    let mut ok = true;
                    let mut some = 0;
                    for i in 0..256 {
                        if !has(&dom, i) {
                            continue;
                        }
                        let a = d[i];
                        let inb = self.peek(st, a, n)?;
                        match inb {
                            Some((b, o)) => match self.read_int(&o, a - b, n) {
                                V::C(c) => {
                                    out[i] = c as u64 & mask(w) as u64;
                                    some = out[i];
                                }
                                _ => ok = false,
                            },
                            None => ok = false,
                        }
                        if !ok {
                            break;
                        }
                    }
                    if ok {
                        for i in 0..256 {
                            if !has(&dom, i) {
                                out[i] = some;
                            }
                        }
                        return Ok(self.t.mk_tab(v, w, out));
                    }
                }
                self.conc(st, p, 64)? as u64
            }
            _ => return Err(Stop::Bad("load through an aggregate".into())),
        };
        let n = ty.store();
        let (b, o) = self.find(st, a, n, false)?;
        self.read_ty(&o, a - b, ty)
    }
    /// like find, without reporting
    fn peek(&mut self, st: &State, a: u64, n: u64) -> Rs<Option<(u64, Rc<Obj>)>> {
        let r = if a >= HBASE && a < FBASE {
            st.mem.range(..=a).next_back().map(|(b, o)| (*b, o.clone()))
        } else if a >= GBASE && a < HBASE {
            match self.gfind(a) {
                Some(g) => {
                    let b = self.m.globals[g].base;
                    match st.mem.get(&b) {
                        Some(o) => Some((b, o.clone())),
                        None => Some((b, self.gobj(g)?)),
                    }
                }
                None => None,
            }
        } else {
            None
        };
        Ok(r.filter(|(b, o)| a - b <= o.size && n <= o.size - (a - b)))
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, b: u64, o: Rc<Obj>) -> &'a mut Obj {
        drop(std::mem::replace(st.mem.entry(b).or_insert_with(|| o.clone()), o));
        Rc::make_mut(st.mem.get_mut(&b).unwrap())
    }
    fn put_int(&mut self, o: &mut Obj, off: u64, n: u64, v: &V) {
        match v {
            V::C(c) => {
                o.data[off as usize..(off + n) as usize].copy_from_slice(&c.to_le_bytes()[..n as usize]);
                if !o.sym.is_empty() {
                    for i in off..off + n {
                        o.sym.remove(&(i as u32));
                    }
                }
            }
            V::S(_) => {
                for i in 0..n {
                    match self.t.slice(v, 8 * i as u32, 8) {
                        V::C(c) => {
                            o.data[(off + i) as usize] = c as u8;
                            o.sym.remove(&((off + i) as u32));
                        }
                        V::S(t) => {
                            o.sym.insert((off + i) as u32, t);
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    fn put_ty(&mut self, o: &mut Obj, off: u64, ty: &Ty, v: &V) -> Rs<()> {
        match ty {
            Ty::Int(w) => {
                let n = ty.store();
                if *w as u64 == n * 8 {
                    self.put_int(o, off, n, v)
                } else {
                    let x = self.t.zext(v, *w, n as u32 * 8);
                    self.put_int(o, off, n, &x)
                }
            }
            Ty::Ptr => self.put_int(o, off, 8, v),
            Ty::Fl(w) => self.put_int(o, off, *w as u64 / 8, v),
            Ty::Vec(n, e) => {
                let eb = e.bits() as u64 / 8;
                if eb == 0 {
                    let x = self.to_bits(ty, v);
                    let x = self.t.zext(&x, ty.bits(), ty.store() as u32 * 8);
                    self.put_int(o, off, ty.store(), &x);
                    return Ok(());
                }
                if let V::Agg(l) = v {
                    for i in 0..*n as usize {
                        self.put_int(o, off + i as u64 * eb, eb, &l[i]);
                    }
                }
            }
            Ty::St(..) | Ty::Arr(..) => {
                if let V::Agg(l) = v {
                    for i in 0..ty.elems() {
                        self.put_ty(o, off + ty.field(i), ty.elem(i), &l[i])?;
                    }
                }
            }
            _ => return Err(Stop::Bad(format!("store of {ty:?}"))),
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, p: &V, ty: &Ty, v: &V) -> Rs<()> {
        let a = self.conc(st, p, 64)? as u64;
        let n = ty.store();
        let (b, o) = self.find(st, a, n, true)?;
        self.write_at(st, b, o, a, n, |e, ob| e.put_ty(ob, a - b, ty, v))
    }
    fn write_at(
        &mut self,
        st: &mut State,
        b: u64,
        o: Rc<Obj>,
        a: u64,
        n: u64,
        f: impl FnOnce(&mut Engine, &mut Obj) -> Rs<()>,
    ) -> Rs<()> {
        drop(o);
        // take the object out to get unique ownership when nothing else refers to it
        let mut rc = match st.mem.remove(&b) {
            Some(r) => r,
            None => {
                let g = self.gfind(b).unwrap();
                self.gobj(g)?
            }
        };
        {
            let ob = Rc::make_mut(&mut rc);
            ob.maxw = ob.maxw.max(a - b + n);
            f(self, ob)?;
        }
        st.mem.insert(b, rc);
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Rs<()> {
        if n == 0 {
            return Ok(());
        }
        let (sb, so) = self.find(st, s, n, false)?;
        let (db, dob) = self.find(st, d, n, true)?;
        let so_off = s - sb;
        let bytes = so.data[so_off as usize..(so_off + n) as usize].to_vec();
        let sym: Vec<(u32, Tm)> = if so.sym.is_empty() {
            vec![]
        } else {
            so.sym
                .range(so_off as u32..(so_off + n) as u32)
                .map(|(k, t)| (*k - so_off as u32, *t))
                .collect()
        };
        drop(so);
        self.write_at(st, db, dob, d, n, |_, o| {
            let off = (d - db) as usize;
            o.data[off..off + n as usize].copy_from_slice(&bytes);
            if !o.sym.is_empty() {
                let ks: Vec<u32> =
                    o.sym.range(off as u32..off as u32 + n as u32).map(|(k, _)| *k).collect();
                for k in ks {
                    o.sym.remove(&k);
                }
            }
            for (k, t) in sym {
                o.sym.insert(off as u32 + k, t);
            }
            Ok(())
        })
    }

    // ------------------------------------------------------------ instructions
    fn get(&self, st: &State, o: &Op) -> V {
        match o {
            Op::K(v) => v.clone(),
            Op::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
        }
    }
    fn set(&self, st: &mut State, d: u32, v: V) {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        f.regs[d as usize] = v;
        f.ip += 1;
    }
    fn adv(&self, st: &mut State) {
        Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
    }
    fn jump(&mut self, st: &mut State, b: u32) -> Rs<()> {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = f.blk;
        let func = f.f.clone();
        let blk = &func.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (d, l) in &blk.phis {
                match l.iter().find(|x| x.0 == from) {
                    Some((_, Op::R(r))) => vals.push((*d, f.regs[*r as usize].clone())),
                    Some((_, Op::K(v))) => vals.push((*d, v.clone())),
                    None => return Err(Stop::Bad("phi without predecessor".into())),
                }
            }
            for (d, v) in vals {
                f.regs[d as usize] = v;
            }
        }
        f.prev = from;
        f.blk = b;
        f.ip = 0;
        Ok(())
    }
    fn push_frame(
        &mut self,
        st: &mut State,
        id: usize,
        args: Vec<V>,
        dst: Option<u32>,
        next: Option<u32>,
    ) -> Rs<()> {
        let f = self.m.func(id).map_err(Stop::Bad)?;
        // drop glue needs little stack, other functions about a kilobyte
        if st.frames.len() > 1200
            && (st.frames.len() > 24000
                || st.frames.iter().filter(|f| !self.m.fnames[f.f.id].contains("drop_glue")).count() > 1200)
        {
            self.violation(st, "stack", 0, "recursion deeper than 1200 frames".into(), None)?;
            return Err(Stop::Kill);
        }
        self.funcs.insert(id);
        let mut regs = vec![V::C(0); f.nregs as usize];
        if args.len() < f.nparams as usize {
            return Err(Stop::Bad("arguments".into()));
        }
        for (i, a) in args.into_iter().take(f.nparams as usize).enumerate() {
            regs[i] = a;
        }
        st.frames.push(Rc::new(Frame { f, blk: 0, prev: 0, ip: 0, regs, allocas: vec![], dst, next }));
        Ok(())
    }
    fn lanes(&mut self, ty: &Ty, x: &V, y: &V, mut g: impl FnMut(&mut Engine, u32, &V, &V) -> Rs<V>) -> Rs<V> {
        match ty {
            Ty::Vec(_, e) => {
                let w = e.bits();
                match (x, y) {
                    (V::Agg(a), V::Agg(b)) => {
                        let mut o = Vec::with_capacity(a.len());
                        for i in 0..a.len() {
                            o.push(g(self, w, &a[i], &b[i])?);
                        }
                        Ok(V::Agg(Rc::new(o)))
                    }
                    _ => Err(Stop::Bad("vector operands".into())),
                }
            }
            _ => g(self, ty.bits(), x, y),
        }
    }
    fn icmp(&mut self, p: Pred, w: u32, x: &V, y: &V) -> V {
        match p {
            Pred::Eq => self.t.cmp(P::Eq, w, x, y),
            Pred::Ne => {
                let e = self.t.cmp(P::Eq, w, x, y);
                self.t.not1(&e)
            }
            Pred::Ult => self.t.cmp(P::Ult, w, x, y),
            Pred::Ugt => self.t.cmp(P::Ult, w, y, x),
            Pred::Ule => {
                let e = self.t.cmp(P::Ult, w, y, x);
                self.t.not1(&e)
            }
            Pred::Uge => {
                let e = self.t.cmp(P::Ult, w, x, y);
                self.t.not1(&e)
            }
            Pred::Slt => self.t.cmp(P::Slt, w, x, y),
            Pred::Sgt => self.t.cmp(P::Slt, w, y, x),
            Pred::Sle => {
                let e = self.t.cmp(P::Slt, w, y, x);
                self.t.not1(&e)
            }
            Pred::Sge => {
                let e = self.t.cmp(P::Slt, w, x, y);
                self.t.not1(&e)
            }
        }
    }
    fn to_bits(&mut self, ty: &Ty, v: &V) -> V {
        match (ty, v) {
            (Ty::Vec(_, e), V::Agg(l)) => {
                let w = e.bits();
                let p = l
                    .iter()
                    .map(|x| match x {
                        V::C(c) => (A::K(*c & mask(w)), w),
                        V::S(t) => (A::T(*t), w),
                        _ => panic!("nested vector"),
                    })
                    .collect();
                self.t.cat(p)
            }
            _ => v.clone(),
        }
    }
    fn from_bits(&mut self, ty: &Ty, v: &V) -> V {
        match ty {
            Ty::Vec(n, e) => {
                let w = e.bits();
                let l = (0..*n).map(|i| self.t.slice(v, i * w, w)).collect();
                V::Agg(Rc::new(l))
            }
            _ => v.clone(),
        }
    }

    fn exec(&mut self, st: &mut State, ins: &I) -> Rs<()> {
        match ins {
            I::Bin(d, op, ty, x, y) => {
                let (x, y) = (self.get(st, x), self.get(st, y));
                // symbolic shift amounts and divisors
                let op = *op;
                let r = self.lanes(ty, &x, &y, |e, w, a, b| {
                    if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) {
                        if *b == V::C(0) {
                            return Err(Stop::Bad("division by zero".into()));
                        }
                    }
                    Ok(e.t.bin(op, w, a, b))
                })?;
                self.set(st, *d, r);
            }
            I::Icmp(d, p, ty, x, y) => {
                let (x, y) = (self.get(st, x), self.get(st, y));
                let p = *p;
                let r = self.lanes(ty, &x, &y, |e, w, a, b| Ok(e.icmp(p, w, a, b)))?;
                self.set(st, *d, r);
            }
            I::Cast(d, k, name, from, to, x) => {
                let x = self.get(st, x);
                let r = match k {
                    Cast::Bit => {
                        if from == to || (!matches!(from, Ty::Vec(..)) && !matches!(to, Ty::Vec(..))) {
                            x
                        } else {
                            let b = self.to_bits(from, &x);
                            self.from_bits(to, &b)
                        }
                    }
                    Cast::Fp => {
                        // no symbolic floating point: one path for each value
                        let x = if matches!(from, Ty::Vec(..)) { x } else { V::C(self.conc(st, &x, from.bits())?) };
                        self.fpcast(name, from, to, &x)?
                    }
                    _ => {
                        let tw = match to {
                            Ty::Vec(_, e) => e.bits(),
                            t => t.bits(),
                        };
                        let k = *k;
                        self.lanes(from, &x, &x, |e, w, a, _| {
                            Ok(match k {
                                Cast::Trunc => e.t.slice(a, 0, tw),
                                Cast::Zext => e.t.zext(a, w, tw),
                                _ => e.t.sext(a, w, tw),
                            })
                        })?
                    }
                };
                self.set(st, *d, r);
            }
            I::Load(d, ty, p, at) => {
                let p = self.get(st, p);
                if st.par.is_some() && (*at || self.shared_global(&p)) {
                    self.sync(st, &p)?;
                }
                let v = self.load(st, &p, ty)?;
                self.set(st, *d, v);
            }
            I::Store(ty, v, p, at) => {
                let (v, p) = (self.get(st, v), self.get(st, p));
                if st.par.is_some() && (*at || self.shared_global(&p)) {
                    self.sync(st, &p)?;
                }
                self.store(st, &p, ty, &v)?;
                self.adv(st);
            }
            I::Alloca(d, size, al, n) => {
                let n = self.get(st, n);
                let n = self.conc(st, &n, 64)? as u64;
                let a = self.alloc(st, size * n, *al, false);
                let f = Rc::make_mut(st.frames.last_mut().unwrap());
                f.allocas.push(a);
                self.set(st, *d, V::C(a as u128));
            }
            I::Gep(d, b, off, idx) => {
                let mut a = self.get(st, b);
                if *off != 0 {
                    a = self.t.bin(B::Add, 64, &a, &V::C(*off as u64 as u128));
                }
                for (o, w, sc) in idx {
                    let i = self.get(st, o);
                    let i = if *w < 64 {
                        self.t.sext(&i, *w, 64)
                    } else if *w > 64 {
                        self.t.slice(&i, 0, 64)
                    } else {
                        i
                    };
                    let s = self.t.bin(B::Mul, 64, &i, &V::C(*sc as u128));
                    a = self.t.bin(B::Add, 64, &a, &s);
                }
                self.set(st, *d, a);
            }
            I::Select(d, ct, ty, c, x, y) => {
                let c = self.get(st, c);
                let (x, y) = (self.get(st, x), self.get(st, y));
                let r = if let (Ty::Vec(..), V::Agg(cl)) = (ct, &c) {
                    let cl = cl.clone();
                    let w = match ty {
                        Ty::Vec(_, e) => e.bits(),
                        _ => return Err(Stop::Bad("select".into())),
                    };
                    match (&x, &y) {
                        (V::Agg(a), V::Agg(b)) => {
                            let l = (0..a.len()).map(|i| self.t.ite(&cl[i], w, &a[i], &b[i])).collect();
                            V::Agg(Rc::new(l))
                        }
                        _ => return Err(Stop::Bad("select".into())),
                    }
                } else {
                    match &c {
                        V::C(k) => {
                            if k & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        _ => {
                            if matches!(ty, Ty::Int(_)) {
                                self.t.ite(&c, ty.bits(), &x, &y)
                            } else if self.decide(st, &c)? {
                                x
                            } else {
                                y
                            }
                        }
                    }
                };
                self.set(st, *d, r);
            }
            I::ExtV(d, x, p) => {
                let mut v = self.get(st, x);
                for i in p {
                    v = match v {
                        V::Agg(l) => l[*i].clone(),
                        _ => return Err(Stop::Bad("extractvalue".into())),
                    };
                }
                self.set(st, *d, v);
            }
            I::InsV(d, _, x, y, p) => {
                let v = self.get(st, x);
                let y = self.get(st, y);
                fn ins(v: V, y: V, p: &[usize]) -> V {
                    if p.is_empty() {
                        return y;
                    }
                    match v {
                        V::Agg(l) => {
                            let mut l = l.to_vec();
                            l[p[0]] = ins(l[p[0]].clone(), y, &p[1..]);
                            V::Agg(Rc::new(l))
                        }
                        v => v,
                    }
                }
                let r = ins(v, y, p);
                self.set(st, *d, r);
            }
            I::ExtE(d, x, i) => {
                let v = self.get(st, x);
                let i = self.get(st, i);
                let i = self.conc(st, &i, 64)? as usize;
                match v {
                    V::Agg(l) => self.set(st, *d, l[i].clone()),
                    _ => return Err(Stop::Bad("extractelement".into())),
                }
            }
            I::InsE(d, x, y, i) => {
                let v = self.get(st, x);
                let y = self.get(st, y);
                let i = self.get(st, i);
                let i = self.conc(st, &i, 64)? as usize;
                match v {
                    V::Agg(l) => {
                        let mut l = l.to_vec();
                        l[i] = y;
                        self.set(st, *d, V::Agg(Rc::new(l)))
                    }
                    _ => return Err(Stop::Bad("insertelement".into())),
                }
            }
            I::Shuf(d, n, x, y, m) => {
                let (x, y) = (self.get(st, x), self.get(st, y));
                match (x, y) {
                    (V::Agg(a), V::Agg(b)) => {
                        let n = *n as usize;
                        let l = m
                            .iter()
                            .map(|i| if *i < n { a[*i].clone() } else { b[*i - n].clone() })
                            .collect();
                        self.set(st, *d, V::Agg(Rc::new(l)));
                    }
                    _ => return Err(Stop::Bad("shufflevector".into())),
                }
            }
            I::Rmw(d, op, ty, p, v) => {
                let (p, v) = (self.get(st, p), self.get(st, v));
                let pa = self.conc(st, &p, 64)?;
                self.sync(st, &V::C(pa))?;
                let old = self.load(st, &V::C(pa), ty)?;
                let w = ty.bits();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.t.bin(B::Add, w, &old, &v),
                    "sub" => self.t.bin(B::Sub, w, &old, &v),
                    "and" => self.t.bin(B::And, w, &old, &v),
                    "or" => self.t.bin(B::Or, w, &old, &v),
                    "xor" => self.t.bin(B::Xor, w, &old, &v),
                    o => return Err(Stop::Bad(format!("atomicrmw {o}"))),
                };
                self.store(st, &V::C(pa), ty, &new)?;
                self.set(st, *d, old);
            }
            I::Cx(d, ty, p, c, n) => {
                let (p, c, n) = (self.get(st, p), self.get(st, c), self.get(st, n));
                let pa = self.conc(st, &p, 64)?;
                self.sync(st, &V::C(pa))?;
                let old = self.load(st, &V::C(pa), ty)?;
                let e = self.t.cmp(P::Eq, ty.bits(), &old, &c);
                let ok = self.decide(st, &e)?;
                if ok {
                    self.store(st, &V::C(pa), ty, &n)?;
                }
                self.set(st, *d, V::Agg(Rc::new(vec![old, V::C(ok as u128)])));
            }
            I::Freeze(d, x) => {
                let v = self.get(st, x);
                self.set(st, *d, v);
            }
            I::Nop => self.adv(st),
            I::Br(b) => self.jump(st, *b)?,
            I::CBr(c, a, b) => {
                let c = self.get(st, c);
                let k = self.decide(st, &c)?;
                self.jump(st, if k { *a } else { *b })?;
            }
            I::Switch(ty, x, def, cases) => {
                let v = self.get(st, x);
                let to = match &v {
                    V::C(c) => cases.iter().find(|k| k.0 == *c).map_or(*def, |k| k.1),
                    _ => {
                        let mut to = *def;
                        // all the cases that lead to the same block together
                        let mut seen: Vec<u32> = vec![*def];
                        'o: for (_, b) in cases.iter() {
                            if seen.contains(b) {
                                continue;
                            }
                            seen.push(*b);
                            let mut any = V::C(0);
                            for (k, b2) in cases.iter() {
                                if b2 == b {
                                    let e = self.t.cmp(P::Eq, ty.bits(), &v, &V::C(*k));
                                    any = self.t.or1(&any, &e);
                                }
                            }
                            if self.decide(st, &any)? {
                                to = *b;
                                break 'o;
                            }
                        }
                        to
                    }
                };
                self.jump(st, to)?;
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|o| self.get(st, o));
                let f = st.frames.pop().unwrap();
                for a in &f.allocas {
                    st.mem.remove(a);
                }
                if st.frames.is_empty() {
                    return Ok(());
                }
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                if let (Some(d), Some(v)) = (f.dst, v) {
                    fr.regs[d as usize] = v;
                }
                match f.next {
                    Some(b) => self.jump(st, b)?,
                    None => fr.ip += 1,
                }
            }
            I::Unreachable => {
                self.violation(st, "unreachable", 0, "unreachable code reached".into(), None)?;
                return Err(Stop::Kill);
            }
            I::Call(d, c, next) => {
                let args: Vec<V> = c.1.iter().map(|o| self.get(st, o)).collect();
                let id = match &c.0 {
                    Callee::Fn(f) => *f,
                    Callee::Ind(o) => {
                        let v = self.get(st, o);
                        let a = self.conc(st, &v, 64)? as u64;
                        if a < FBASE || (a - FBASE) / 16 >= self.m.fnames.len() as u64 {
                            self.violation(st, "memory", 0, format!("call of {a:#x}"), None)?;
                            return Err(Stop::Kill);
                        }
                        ((a - FBASE) / 16) as usize
                    }
                    Callee::Asm(s) => {
                        let v = self.asm(s, &c.2, &args)?;
                        if let Some(d) = d {
                            self.set(st, *d, v);
                        } else {
                            self.adv(st);
                        }
                        return Ok(());
                    }
                };
                if self.ext[id] == 0 {
                    self.ext[id] = if self.m.fbody[id].is_none() || intercepted(&self.m.fnames[id]) {
                        2
                    } else {
                        1
                    };
                }
                if self.ext[id] == 1 {
                    let mut args = args;
                    if !self.exact {
                        if let Some(w) = shown_number(&self.m.fnames[id]) {
                            // the text of a number that is not determined: that of one of its values
                            let v = self.load(st, &args[0].clone(), &Ty::Int(w))?;
                            if let V::S(t) = v {
                                if let V::S(t) = self.reduce(st, t) {
                                    let x = self.evalm(st, t);
                                    let p = self.alloc(st, 16, 16, false);
                                    self.store(st, &V::C(p as u128), &Ty::Int(w), &V::C(x))?;
                                    args[0] = V::C(p as u128);
                                }
                            }
                        }
                    }
                    return self.push_frame(st, id, args, *d, *next);
                }
                let name = self.m.fnames[id].clone();
                let v = self.external(st, &name, &args, &c.2, &c.3)?;
                if st.frames.is_empty() {
                    return Ok(());
                }
                if let Some(d) = d {
                    let f = Rc::make_mut(st.frames.last_mut().unwrap());
                    f.regs[*d as usize] = v;
                }
                match next {
                    Some(b) => self.jump(st, *b)?,
                    None => self.adv(st),
                }
            }
            I::FBin(d, op, ty, x, y) => {
                let (x, y) = (self.get(st, x), self.get(st, y));
                let r = match (&x, &y, ty) {
                    (V::C(a), V::C(b), Ty::Fl(64)) => {
                        let (a, b) = (f64::from_bits(*a as u64), f64::from_bits(*b as u64));
                        V::C(farith(op, a, b)?.to_bits() as u128)
                    }
                    (V::C(a), V::C(b), Ty::Fl(32)) => {
                        let (a, b) = (f32::from_bits(*a as u32), f32::from_bits(*b as u32));
                        V::C((farith(op, a as f64, b as f64)? as f32).to_bits() as u128)
                    }
                    _ => return Err(Stop::Bad("floating point".into())),
                };
                self.set(st, *d, r);
            }
            I::Fcmp(d, p, ty, x, y) => {
                let (x, y) = (self.get(st, x), self.get(st, y));
                let (a, b) = match (&x, &y, ty) {
                    (V::C(a), V::C(b), Ty::Fl(64)) => (f64::from_bits(*a as u64), f64::from_bits(*b as u64)),
                    (V::C(a), V::C(b), Ty::Fl(32)) => {
                        (f32::from_bits(*a as u32) as f64, f32::from_bits(*b as u32) as f64)
                    }
                    _ => return Err(Stop::Bad("floating point".into())),
                };
                let un = a.is_nan() || b.is_nan();
                let r = match p.as_str() {
                    "oeq" => a == b,
                    "une" => a != b,
                    "olt" => a < b,
                    "ole" => a <= b,
                    "ogt" => a > b,
                    "oge" => a >= b,
                    "uno" => un,
                    "ord" => !un,
                    "ult" => un || a < b,
                    "ule" => un || a <= b,
                    "ugt" => un || a > b,
                    "uge" => un || a >= b,
                    "ueq" => un || a == b,
                    "one" => !un && a != b,
                    _ => return Err(Stop::Bad(format!("fcmp {p}"))),
                };
                self.set(st, *d, V::C(r as u128));
            }
            I::Bad(e) => return Err(Stop::Bad(e.clone())),
        }
        Ok(())
    }

    fn fpcast(&mut self, op: &str, from: &Ty, to: &Ty, x: &V) -> Rs<V> {
        let c = match x {
            V::C(c) => *c,
            _ => return Err(Stop::Bad("floating point conversion".into())),
        };
        let f = match from {
            Ty::Fl(64) => f64::from_bits(c as u64),
            Ty::Fl(32) => f32::from_bits(c as u32) as f64,
            _ => 0.0,
        };
        let out = |f: f64| match to {
            Ty::Fl(32) => V::C((f as f32).to_bits() as u128),
            _ => V::C(f.to_bits() as u128),
        };
        Ok(match op {
            "uitofp" => out(c as f64),
            "sitofp" => out(sx(c, from.bits()) as f64),
            "fptoui" => V::C((f as u128) & mask(to.bits())),
            "fptosi" => V::C((f as i128 as u128) & mask(to.bits())),
            "fpext" | "fptrunc" => out(f),
            _ => return Err(Stop::Bad(op.into())),
        })
    }

    fn asm(&mut self, s: &str, rt: &Ty, args: &[V]) -> Rs<V> {
        if s.contains("cpuid") {
            return Ok(rt.zero());
        }
        if s.is_empty() || s.starts_with("/*") {
            return Ok(args.first().cloned().unwrap_or(V::C(0)));
        }
        if s.starts_with("div ") {
            // (divisor, low, high) -> (remainder, quotient)
            if let (V::C(d), V::C(lo), V::C(hi)) = (&args[0], &args[1], &args[2]) {
                let n = hi << 64 | lo;
                return Ok(V::Agg(Rc::new(vec![V::C(n % d), V::C(n / d)])));
            }
        }
        Err(Stop::Bad(format!("inline assembly {s}")))
    }
}

fn farith(op: &str, a: f64, b: f64) -> Rs<f64> {
    Ok(match op {
        "fadd" => a + b,
        "fsub" => a - b,
        "fmul" => a * b,
        "fdiv" => a / b,
        "frem" => a % b,
        "fneg" => -a,
        _ => return Err(Stop::Bad(op.into())),
    })
}

/// width of the integer `Display::fmt` of `n` prints
fn shown_number(n: &str) -> Option<u32> {
    let k = n.find("4core3fmt3num3imp")?;
    if !n.contains("7Display3fmt") {
        return None;
    }
    Some(match n.as_bytes()[k + 17] {
        b'a' | b'h' => 8,
        b's' | b't' => 16,
        b'l' | b'm' => 32,
        b'x' | b'y' | b'i' | b'j' => 64,
        b'n' | b'o' => 128,
        _ => return None,
    })
}

pub fn intercepted(n: &str) -> bool {
    n.contains("8hash_one")
        || n.contains("4core9panicking")
        || (n.contains("3std9panicking") && (n.contains("begin_panic") || n.contains("rust_panic")))
        || n.contains("17rust_begin_unwind")
        || n.contains("18handle_alloc_error")
}

include!("ext.rs");
