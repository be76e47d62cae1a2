// Models of the functions outside the module, of the intrinsics, and of the harness interface.
impl Engine {
    fn dom1(&mut self, v: &V, w: u32, f: &dyn Fn(u128) -> u128) -> Option<V> {
        match v {
            V::C(c) => Some(V::C(f(*c) & mask(w))),
            V::S(t) => {
                let (var, d) = self.t.tab(*t)?;
                let e = d.iter().map(|x| (f(*x as u128) & mask(w)) as u64).collect();
                Some(self.t.mk_tab(var, w, e))
            }
            _ => None,
        }
    }

    fn external(&mut self, st: &mut State, name: &str, a: &[V], rt: &Ty, at: &[Ty]) -> Rs<V> {
        let zero = V::C(0);
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, n, a, rt, at);
        }
        if name.contains("8hash_one") {
            return Ok(V::C(0x1337_0000_0000_0042));
        }
        if intercepted(name) {
            self.violation(st, "panic", 0, name.to_string(), None)?;
            return Err(Stop::Kill);
        }
        match name {
            // ------------------------------------------------ harness interface
            "lsym_bytes" => {
                let p = self.conc(st, &a[0], 64)? as u64;
                let n = self.conc(st, &a[1], 64)? as u64;
                for i in 0..n {
                    let v = if let Some(c) = &self.concrete {
                        let k = st.doms.len();
                        Rc::make_mut(&mut st.doms).push(FULL);
                        Rc::make_mut(&mut st.model).push(0);
                        V::C(c.get(k).copied().unwrap_or(0) as u128)
                    } else {
                        let k = st.doms.len() as u32;
                        Rc::make_mut(&mut st.doms).push(FULL);
                        Rc::make_mut(&mut st.model).push(0);
                        self.t.var(k)
                    };
                    self.store(st, &V::C((p + i) as u128), &Ty::Int(8), &v)?;
                }
                Ok(zero)
            }
            "lsym_assume" => {
                if self.decide_assume(st, &a[0])? {
                    Ok(zero)
                } else {
                    Err(Stop::Kill)
                }
            }
            "lsym_check" => {
                let id = self.conc(st, &a[1], 32)? as u64;
                let c = match &a[0] {
                    V::S(t) => self.reduce(st, *t),
                    v => v.clone(),
                };
                match &c {
                    V::C(c) => {
                        self.st.checks_const += 1;
                        if c & 1 == 0 {
                            self.violation(st, "check", id, format!("check {id} fails"), None)?;
                            return Err(Stop::Kill);
                        }
                    }
                    V::S(t) => {
                        let n = match self.t.not1(&V::S(*t)) {
                            V::S(n) => n,
                            _ => unreachable!(),
                        };
                        self.st.checks_solver += 1;
                        if self.sat(st, n, false)?.is_some() {
                            self.violation(st, "check", id, format!("check {id} fails"), Some(n))?;
                        }
                        if !self.decide_assume(st, &c)? {
                            return Err(Stop::Kill);
                        }
                    }
                    _ => return Err(Stop::Bad("check".into())),
                }
                Ok(zero)
            }
            "lsym_threads" => {
                let mut f = [0; 2];
                for k in 0..2 {
                    let x = self.conc(st, &a[k], 64)? as u64;
                    f[k] = (x - FBASE) / 16;
                }
                let p = self.conc(st, &a[2], 64)? as u64;
                let n = self.conc(st, &a[3], 64)? as u64;
                let mut plan = vec![];
                for i in 0..n {
                    plan.push(self.load(st, &V::C((p + i) as u128), &Ty::Int(8))?);
                }
                st.after = Some(After::Start(f[0], f[1], plan));
                Ok(zero)
            }
            "lsym_same" => {
                // equality of two regions; what the term rules call certain, the solver must confirm
                let p = self.conc(st, &a[0], 64)? as u64;
                let q = self.conc(st, &a[1], 64)? as u64;
                let n = self.conc(st, &a[2], 64)? as u64;
                let mut r = V::C(1);
                let mut pairs = vec![];
                for i in 0..n {
                    let x = self.load(st, &V::C((p + i) as u128), &Ty::Int(8))?;
                    let y = self.load(st, &V::C((q + i) as u128), &Ty::Int(8))?;
                    let e = self.t.cmp(P::Eq, 8, &x, &y);
                    r = self.t.and1(&r, &e);
                    if !matches!((&x, &y), (V::C(_), V::C(_))) {
                        pairs.push((x, y));
                    }
                }
                if r == V::C(1) && !pairs.is_empty() && self.concrete.is_none() {
                    self.confirm(st, &pairs)?;
                }
                Ok(r)
            }
            "lsym_reach" => {
                let id = self.conc(st, &a[0], 32)?;
                st.reached |= 1 << (id & 63);
                Ok(zero)
            }
            "lsym_alloc_limit" => {
                st.alloc_limit = self.conc(st, &a[0], 64)? as u64;
                st.heap = 0;
                Ok(zero)
            }
            "lsym_emit" if self.concrete.is_none() => Ok(zero),
            "lsym_emit" => {
                let v = self.conc(st, &a[0], 64)? as u64;
                Rc::make_mut(&mut st.emitted).push(v);
                Ok(zero)
            }
            "lsym_conc" => {
                let v = self.conc(st, &a[0], 64)?;
                Ok(V::C(v))
            }
            "lsym_buf" => {
                let n = self.conc(st, &a[0], 64)? as u64;
                let p = self.alloc(st, n, 16, false);
                Ok(V::C(p as u128))
            }
            "lsym_written" => {
                let p = self.conc(st, &a[0], 64)? as u64;
                match st.mem.get(&p) {
                    Some(o) => Ok(V::C(o.maxw as u128)),
                    None => Err(Stop::Bad("lsym_written".into())),
                }
            }
            // ------------------------------------------------ allocation
            "malloc" | "calloc" | "posix_memalign" | "aligned_alloc" | "realloc" => {
                let (szv, al, old) = match name {
                    "malloc" => (a[0].clone(), 16, None),
                    "calloc" => (self.t.bin(B::Mul, 64, &a[0], &a[1]), 16, None),
                    "posix_memalign" => (a[2].clone(), self.conc(st, &a[1], 64)? as u64, None),
                    "aligned_alloc" => (a[1].clone(), self.conc(st, &a[0], 64)? as u64, None),
                    _ => (a[1].clone(), 16, Some(self.conc(st, &a[0], 64)? as u64)),
                };
                let over = self.t.cmp(P::Ult, 64, &V::C(st.alloc_limit as u128), &szv);
                if self.decide(st, &over)? {
                    self.violation(st, "alloc", 0, "allocation beyond the limit".into(), None)?;
                    return Err(Stop::Kill);
                }
                let n = self.conc(st, &szv, 64)? as u64;
                st.heap += n;
                if st.heap > st.alloc_limit.saturating_mul(4) {
                    self.violation(st, "alloc", 0, "allocations beyond the limit".into(), None)?;
                    return Err(Stop::Kill);
                }
                let p = self.alloc(st, n, al, true);
                if let Some(o) = old {
                    if o != 0 {
                        let os = match st.mem.get(&o) {
                            Some(x) => x.size,
                            None => {
                                self.violation(st, "memory", 0, "realloc of a dead pointer".into(), None)?;
                                return Err(Stop::Kill);
                            }
                        };
                        self.copy(st, p, o, os.min(n))?;
                        st.mem.remove(&o);
                    }
                }
                if name == "posix_memalign" {
                    self.store(st, &a[0].clone(), &Ty::Ptr, &V::C(p as u128))?;
                    return Ok(zero);
                }
                Ok(V::C(p as u128))
            }
            "free" => {
                let p = self.conc(st, &a[0], 64)? as u64;
                if p == 0 {
                    return Ok(zero);
                }
                match st.mem.get(&p) {
                    Some(o) if o.heap => {
                        st.mem.remove(&p);
                        Ok(zero)
                    }
                    _ => {
                        self.violation(st, "memory", 0, format!("free of {p:#x}"), None)?;
                        Err(Stop::Kill)
                    }
                }
            }
            // ------------------------------------------------ strings
            "strlen" => {
                let p = self.conc(st, &a[0], 64)? as u64;
                let mut i = 0;
                loop {
                    let b = self.load(st, &V::C((p + i) as u128), &Ty::Int(8))?;
                    let z = self.t.cmp(P::Eq, 8, &b, &V::C(0));
                    if self.decide(st, &z)? {
                        return Ok(V::C(i as u128));
                    }
                    i += 1;
                }
            }
            "memchr" | "memrchr" => {
                let p = self.conc(st, &a[0], 64)? as u64;
                let n = self.conc(st, &a[2], 64)? as u64;
                let c = self.t.slice(&a[1], 0, 8);
                for k in 0..n {
                    let i = if name == "memchr" { k } else { n - 1 - k };
                    let b = self.load(st, &V::C((p + i) as u128), &Ty::Int(8))?;
                    let z = self.t.cmp(P::Eq, 8, &b, &c);
                    if self.decide(st, &z)? {
                        return Ok(V::C((p + i) as u128));
                    }
                }
                Ok(zero)
            }
            "bcmp" | "memcmp" => {
                let p = self.conc(st, &a[0], 64)? as u64;
                let q = self.conc(st, &a[1], 64)? as u64;
                let n = self.conc(st, &a[2], 64)? as u64;
                if n == 0 {
                    return Ok(zero);
                }
                let (pb, po) = self.find(st, p, n, false)?;
                let (qb, qo) = self.find(st, q, n, false)?;
                let mut pairs = vec![];
                for i in 0..n {
                    let x = self.read_int(&po, p - pb + i, 1);
                    let y = self.read_int(&qo, q - qb + i, 1);
                    pairs.push((x, y));
                }
                if name == "bcmp" {
                    let mut e = V::C(1);
                    for (x, y) in &pairs {
                        let c = self.t.cmp(P::Eq, 8, x, y);
                        e = self.t.and1(&e, &c);
                    }
                    return Ok(self.t.ite(&e, 32, &V::C(0), &V::C(1)));
                }
                // the sign of the first difference
                let mut r = V::C(0);
                for (x, y) in pairs.iter().rev() {
                    let e = self.t.cmp(P::Eq, 8, x, y);
                    let l = self.t.cmp(P::Ult, 8, x, y);
                    let d = self.t.ite(&l, 32, &V::C(mask(32)), &V::C(1));
                    r = self.t.ite(&e, 32, &r, &d);
                }
                Ok(r)
            }
            "memcpy" | "memmove" | "memset" => {
                self.intrinsic(st, if name == "memset" { "memset" } else { "memmove" }, a, rt, at)?;
                Ok(a[0].clone())
            }
            // ------------------------------------------------ system
            "getrandom" => {
                let p = self.conc(st, &a[0], 64)? as u64;
                let n = self.conc(st, &a[1], 64)? as u64;
                for i in 0..n {
                    self.store(st, &V::C((p + i) as u128), &Ty::Int(8), &V::C(((i * 37 + 11) & 255) as u128))?;
                }
                Ok(V::C(n as u128))
            }
            "syscall" => match &a[0] {
                V::C(318) => self.external(st, "getrandom", &a[1..], rt, at),
                V::C(186) => Ok(V::C(1)),
                V::C(202) if st.par.is_none() => Ok(V::C(0)),
                V::C(202) => {
                    let at = self.conc(st, &a[1], 64)? as u64;
                    match self.conc(st, &a[2], 32)? & 127 {
                        // wait, wait with a mask
                        0 | 9 => {
                            let v = self.load(st, &V::C(at as u128), &Ty::Int(32))?;
                            let want = self.t.slice(&a[3], 0, 32);
                            let e = self.t.cmp(P::Eq, 32, &v, &want);
                            if self.decide(st, &e)? {
                                st.after = Some(After::Wait(at));
                            }
                            Ok(V::C(0))
                        }
                        // wake, wake with a mask
                        1 | 10 => {
                            let p = Rc::make_mut(st.par.as_mut().unwrap());
                            let mut n = 0;
                            for t in 1..3 {
                                if p.wait[t] == Some(at) {
                                    p.wait[t] = None;
                                    n += 1;
                                }
                            }
                            Ok(V::C(n))
                        }
                        o => Err(Stop::Bad(format!("futex operation {o}"))),
                    }
                }
                x => Err(Stop::Bad(format!("syscall {x:?}"))),
            },
            "write" => Ok(a[2].clone()),
            "writev" => {
                // pretend everything was written
                let p = self.conc(st, &a[1], 64)? as u64;
                let n = self.conc(st, &a[2], 32)? as u64;
                let mut t = V::C(0);
                for i in 0..n {
                    let l = self.load(st, &V::C((p + 16 * i + 8) as u128), &Ty::Int(64))?;
                    t = self.t.bin(B::Add, 64, &t, &l);
                }
                Ok(t)
            }
            "getenv" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_setspecific"
            | "pthread_key_delete" | "pthread_atfork" | "__cxa_thread_atexit_impl" | "sched_yield" => Ok(zero),
            "pthread_key_create" => {
                self.store(st, &a[0].clone(), &Ty::Int(32), &V::C(7))?;
                Ok(zero)
            }
            "pthread_self" => Ok(V::C(1)),
            "abort" | "_exit" | "exit" => {
                self.violation(st, "panic", 1, name.to_string(), None)?;
                Err(Stop::Kill)
            }
            _ => Err(Stop::Bad(format!("external function {name}"))),
        }
    }

    /// like decide, but the other side is dropped
    /// the solver proves the pairs equal on this path
    fn confirm(&mut self, st: &State, pairs: &[(V, V)]) -> Rs<()> {
        let mut seed = vec![];
        let mut key = vec![];
        for (x, y) in pairs {
            for v in [x, y] {
                if let V::S(t) = v {
                    seed.extend(self.t.vars(*t).iter().copied());
                    key.push(*t);
                }
            }
        }
        let (cons, mut vars) = self.slice(st, &seed);
        vars.extend(&seed);
        vars.sort_unstable();
        vars.dedup();
        key.push(u32::MAX);
        key.extend(&cons);
        let doms: Vec<(u32, Dom)> = vars.iter().map(|v| (*v, st.doms[*v as usize])).collect();
        if !self.confirmed.insert((key, doms)) {
            return Ok(());
        }
        let mut sc = self.script(st, &cons, &vars);
        let mut done: HashSet<Tm> = HashSet::new();
        // declared by `script` already
        for c in &cons {
            let mut o = String::new();
            self.t.define(*c, &mut done, &mut o);
        }
        let mut any = String::from("(assert (not (and true");
        for (x, y) in pairs {
            let mut n = vec![];
            for v in [x, y] {
                n.push(match v {
                    V::S(t) => {
                        self.t.define(*t, &mut done, &mut sc);
                        format!("t{t}")
                    }
                    V::C(c) => format!("#x{:02x}", c & 0xff),
                    _ => return Err(Stop::Bad("same".into())),
                });
            }
            any.push_str(&format!(" (= {} {})", n[0], n[1]));
        }
        any.push_str(")))\n");
        sc.push_str(&any);
        self.st.checks_solver += 1;
        match self.s.check(&sc, &[]) {
            Ans::Unsat => Ok(()),
            Ans::Sat(_) => Err(Stop::Bad("the solver refutes a simplification".into())),
            Ans::Unknown => Err(Stop::Bad("solver gave no answer".into())),
        }
    }
    fn decide_assume(&mut self, st: &mut State, c: &V) -> Rs<bool> {
        let t = match c {
            V::C(x) => return Ok(*x & 1 == 1),
            V::S(t) => *t,
            _ => return Err(Stop::Bad("assume".into())),
        };
        if let Some(b) = self.quick(st, t) {
            return Ok(b);
        }
        if self.evalm(st, t) == 1 {
            self.assume(st, t);
            return Ok(true);
        }
        let m = if let N::Tab(..) = &self.t.t[t as usize].n {
            self.other_side(st, t)?
        } else {
            self.sat(st, t, true)?
        };
        match m {
            Some(m) => {
                Self::set_model(st, &m);
                self.assume(st, t);
                Ok(true)
            }
            None => Ok(false),
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[V], rt: &Ty, at: &[Ty]) -> Rs<V> {
        let zero = V::C(0);
        let base = n.split('.').next().unwrap_or("");
        match base {
            "lifetime" | "assume" | "experimental" | "prefetch" | "dbg" | "donothing" | "invariant"
            | "sideeffect" => return Ok(zero),
            "is" => {
                if n.starts_with("is.constant") {
                    return Ok(zero);
                }
            }
            "threadlocal" => {
                let g = self.conc(st, &a[0], 64)? as u64;
                let cur = match &st.par {
                    Some(p) => p.cur,
                    None => return Ok(a[0].clone()),
                };
                if let Some(x) = st.par.as_ref().unwrap().tls.get(&(cur, g)) {
                    return Ok(V::C(*x as u128));
                }
                let gi = self.gfind(g).ok_or(Stop::Bad("thread local".into()))?;
                let o = self.gobj(gi)?;
                let p = self.alloc(st, o.size, 16, false);
                let mut c = (*o).clone();
                c.ro = false;
                st.mem.insert(p, Rc::new(c));
                Rc::make_mut(st.par.as_mut().unwrap()).tls.insert((cur, g), p);
                return Ok(V::C(p as u128));
            }
            "expect" | "launder" | "strip" | "ssa" => return Ok(a[0].clone()),
            "trap" | "ubsantrap" => {
                self.violation(st, "panic", 2, "trap".into(), None)?;
                return Err(Stop::Kill);
            }
            "memcpy" | "memmove" => {
                let d = self.conc(st, &a[0], 64)? as u64;
                let s = self.conc(st, &a[1], 64)? as u64;
                let n = self.conc(st, &a[2], 64)? as u64;
                self.copy(st, d, s, n)?;
                return Ok(zero);
            }
            "memset" => {
                let d = self.conc(st, &a[0], 64)? as u64;
                let n = self.conc(st, &a[2], 64)? as u64;
                if n > 0 {
                    let v = self.t.slice(&a[1], 0, if at[1].bits() >= 8 { 8 } else { 8 });
                    let (b, o) = self.find(st, d, n, true)?;
                    self.write_at(st, b, o, d, n, |e, ob| {
                        if let (V::C(c), true) = (&v, ob.sym.is_empty()) {
                            let off = (d - b) as usize;
                            ob.data[off..off + n as usize].fill(*c as u8);
                        } else {
                            for i in 0..n {
                                e.put_int(ob, d - b + i, 1, &v);
                            }
                        }
                        Ok(())
                    })?;
                }
                return Ok(zero);
            }
            _ => {}
        }
        // element-wise arithmetic
        let w = match at.first() {
            Some(Ty::Vec(_, e)) => e.bits(),
            Some(t) => t.bits(),
            None => 0,
        };
        if let Some(Ty::Vec(k, e)) = at.first() {
            if matches!(base, "fshl" | "fshr" | "umin" | "umax" | "smin" | "smax" | "bswap" | "ctpop" | "abs") {
                let mut o = vec![];
                for i in 0..*k as usize {
                    let l: Vec<V> = a
                        .iter()
                        .map(|x| match x {
                            V::Agg(l) => l[i].clone(),
                            x => x.clone(),
                        })
                        .collect();
                    let tys: Vec<Ty> = a.iter().map(|_| (**e).clone()).collect();
                    o.push(self.intrinsic(st, n, &l, e, &tys)?);
                }
                return Ok(V::Agg(Rc::new(o)));
            }
        }
        let pair = |v: V, o: V| V::Agg(Rc::new(vec![v, o]));
        match base {
            "umin" | "umax" => {
                let c = self.t.cmp(P::Ult, w, &a[0], &a[1]);
                return Ok(if base == "umin" {
                    self.t.ite(&c, w, &a[0], &a[1])
                } else {
                    self.t.ite(&c, w, &a[1], &a[0])
                });
            }
            "smin" | "smax" => {
                let c = self.t.cmp(P::Slt, w, &a[0], &a[1]);
                return Ok(if base == "smin" {
                    self.t.ite(&c, w, &a[0], &a[1])
                } else {
                    self.t.ite(&c, w, &a[1], &a[0])
                });
            }
            "abs" => {
                let c = self.t.cmp(P::Slt, w, &a[0], &V::C(0));
                let m = self.t.bin(B::Sub, w, &V::C(0), &a[0]);
                return Ok(self.t.ite(&c, w, &m, &a[0]));
            }
            "ucmp" | "scmp" => {
                let p = if base == "ucmp" { P::Ult } else { P::Slt };
                let rw = rt.bits();
                let l = self.t.cmp(p, w, &a[0], &a[1]);
                let g = self.t.cmp(p, w, &a[1], &a[0]);
                let x = self.t.ite(&g, rw, &V::C(1), &V::C(0));
                return Ok(self.t.ite(&l, rw, &V::C(mask(rw)), &x));
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let op = match &base[1..] {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    _ => B::Mul,
                };
                let sgn = base.starts_with('s');
                let sat = n.contains(".sat.");
                let r = self.t.bin(op, w, &a[0], &a[1]);
                let o = match (sgn, op) {
                    (false, B::Add) => self.t.cmp(P::Ult, w, &r, &a[0]),
                    (false, B::Sub) => self.t.cmp(P::Ult, w, &a[0], &a[1]),
                    (false, _) => match (&a[0], &a[1]) {
                        (V::C(x), V::C(y)) => {
                            let o = x.checked_mul(*y).map_or(true, |z| z > mask(w));
                            V::C(o as u128)
                        }
                        (x, V::C(k)) | (V::C(k), x) => {
                            if *k == 0 {
                                V::C(0)
                            } else {
                                let lim = mask(w) / k;
                                let x = x.clone();
                                self.t.cmp(P::Ult, w, &V::C(lim), &x)
                            }
                        }
                        (x, y) if w <= 64 => {
                            let (x, y) = (x.clone(), y.clone());
                            let xx = self.t.zext(&x, w, 2 * w);
                            let yy = self.t.zext(&y, w, 2 * w);
                            let z = self.t.bin(B::Mul, 2 * w, &xx, &yy);
                            self.t.cmp(P::Ult, 2 * w, &V::C(mask(w)), &z)
                        }
                        _ => return Err(Stop::Bad("wide multiplication".into())),
                    },
                    (true, _) => {
                        let ww = if op == B::Mul { 2 * w } else { w + 1 };
                        if ww > 128 {
                            match (&a[0], &a[1]) {
                                (V::C(x), V::C(y)) => {
                                    let (x, y) = (sx(*x, w), sx(*y, w));
                                    let z = match op {
                                        B::Add => x.checked_add(y),
                                        B::Sub => x.checked_sub(y),
                                        _ => x.checked_mul(y),
                                    };
                                    V::C(z.is_none() as u128)
                                }
                                _ => return Err(Stop::Bad("wide arithmetic".into())),
                            }
                        } else {
                            let xx = self.t.sext(&a[0], w, ww);
                            let yy = self.t.sext(&a[1], w, ww);
                            let z = self.t.bin(op, ww, &xx, &yy);
                            let back = self.t.sext(&r, w, ww);
                            let e = self.t.cmp(P::Eq, ww, &z, &back);
                            self.t.not1(&e)
                        }
                    }
                };
                if sat {
                    if sgn {
                        let neg = self.t.cmp(P::Slt, w, &a[0], &V::C(0));
                        let lim = self.t.ite(&neg, w, &V::C(1 << (w - 1)), &V::C(mask(w - 1)));
                        return Ok(self.t.ite(&o, w, &lim, &r));
                    }
                    let lim = if op == B::Sub { 0 } else { mask(w) };
                    return Ok(self.t.ite(&o, w, &V::C(lim), &r));
                }
                return Ok(pair(r, o));
            }
            "fshl" | "fshr" => {
                let s = self.conc(st, &a[2], w)? as u32 % w;
                if s == 0 {
                    return Ok(if base == "fshl" { a[0].clone() } else { a[1].clone() });
                }
                let k = if base == "fshl" { s } else { w - s };
                let hi = self.t.slice(&a[0], 0, w - k);
                let lo = self.t.slice(&a[1], w - k, k);
                let p = |v: &V| match v {
                    V::C(c) => A::K(*c),
                    V::S(t) => A::T(*t),
                    _ => A::K(0),
                };
                return Ok(self.t.cat(vec![(p(&lo), k), (p(&hi), w - k)]));
            }
            "bswap" => {
                let mut l = vec![];
                for i in (0..w / 8).rev() {
                    let b = self.t.slice(&a[0], 8 * i, 8);
                    l.push((
                        match b {
                            V::C(c) => A::K(c),
                            V::S(t) => A::T(t),
                            _ => A::K(0),
                        },
                        8,
                    ));
                }
                return Ok(self.t.cat(l));
            }
            "bitreverse" => {
                let ww = w;
                if let Some(v) = self.dom1(&a[0], w, &|x| {
                    let mut r = 0;
                    for i in 0..ww {
                        r |= (x >> i & 1) << (ww - 1 - i);
                    }
                    r
                }) {
                    return Ok(v);
                }
            }
            "ctpop" => {
                if let Some(v) = self.dom1(&a[0], w, &|x| x.count_ones() as u128) {
                    return Ok(v);
                }
            }
            "ctlz" | "cttz" => {
                let ww = w;
                let tz = base == "cttz";
                if let Some(v) = self.dom1(&a[0], w, &|x| {
                    if x == 0 {
                        ww as u128
                    } else if tz {
                        x.trailing_zeros() as u128
                    } else {
                        (x << (128 - ww)).leading_zeros() as u128
                    }
                }) {
                    return Ok(v);
                }
                for k in 0..w {
                    let i = if tz { k } else { w - 1 - k };
                    let b = self.t.slice(&a[0], i, 1);
                    if self.decide(st, &b)? {
                        return Ok(V::C(k as u128));
                    }
                }
                return Ok(V::C(w as u128));
            }
            _ => {}
        }
        if n.starts_with("x86.sse2.pause") && st.par.is_some() {
            // a thread that spins: nothing happens until the other one moves
            st.after = Some(After::Yield);
            return Ok(zero);
        }
        if n.starts_with("x86.sse2.pause") || n.starts_with("x86.avx.vzeroupper") {
            return Ok(zero);
        }
        if let Some(r) = n.strip_prefix("x86.") {
            if r.starts_with("addcarry") || r.starts_with("subborrow") {
                // { i8 carry, i64 } from (carry in, x, y)
                let c = self.t.cmp(P::Eq, 8, &a[0], &V::C(0));
                let c = self.t.not1(&c);
                let c65 = self.t.zext(&c, 1, 65);
                let x = self.t.zext(&a[1], 64, 65);
                let y = self.t.zext(&a[2], 64, 65);
                let op = if r.starts_with("add") { B::Add } else { B::Sub };
                let s = self.t.bin(op, 65, &x, &y);
                let s = self.t.bin(op, 65, &s, &c65);
                let lo = self.t.slice(&s, 0, 64);
                let hi = self.t.slice(&s, 64, 1);
                let hi = self.t.zext(&hi, 1, 8);
                return Ok(pair(hi, lo));
            }
        }
        // constant floating point
        if let (Some(V::C(x)), Ty::Fl(64)) = (a.first(), rt) {
            let x = f64::from_bits(*x as u64);
            let r = match base {
                "fabs" => Some(x.abs()),
                "floor" => Some(x.floor()),
                "ceil" => Some(x.ceil()),
                "trunc" => Some(x.trunc()),
                "sqrt" => Some(x.sqrt()),
                _ => None,
            };
            if let Some(r) = r {
                return Ok(V::C(r.to_bits() as u128));
            }
        }
        Err(Stop::Bad(format!("intrinsic {n}")))
    }
}
