//! The symbolic domain: values are terms over symbolic field variables.
//!
//! Every value carries (1) the DAG of operations the code under test really
//! executed, which is what is handed to the SMT solver, and (2) a canonical
//! Laurent polynomial, used for byte encodings (equal values must encode
//! equally), for `==`, and for the linear (generic group) queries.  The two are
//! linked by obligations (`dag == poly`) that the harness discharges with the
//! solver.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

/// All numerators and denominators are kept below 2^100 in absolute value, so
/// they are non-zero modulo the (255-bit prime) group order: an identity between
/// rationals is an identity in the field.
const HEIGHT: i128 = 1 << 100;

impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };

    pub fn new(n: i128, d: i128) -> Rat {
        assert!(d != 0, "symbls: zero denominator");
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        let r = Rat { n: s * n / g, d: s * d / g };
        assert!(
            r.n.abs() < HEIGHT && r.d < HEIGHT,
            "symbls: coefficient height bound exceeded"
        );
        r
    }

    pub fn int(n: i128) -> Rat {
        Rat::new(n, 1)
    }

    fn ck(x: Option<i128>) -> i128 {
        x.expect("symbls: coefficient height bound exceeded")
    }

    pub fn add(self, o: Rat) -> Rat {
        let a = Self::ck(self.n.checked_mul(o.d));
        let b = Self::ck(o.n.checked_mul(self.d));
        Rat::new(Self::ck(a.checked_add(b)), Self::ck(self.d.checked_mul(o.d)))
    }

    pub fn mul(self, o: Rat) -> Rat {
        Rat::new(
            Self::ck(self.n.checked_mul(o.n)),
            Self::ck(self.d.checked_mul(o.d)),
        )
    }

    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }

    pub fn inv(self) -> Rat {
        Rat::new(self.d, self.n)
    }

    pub fn is_zero(self) -> bool {
        self.n == 0
    }

    pub fn smt(self) -> String {
        let abs = if self.d == 1 {
            format!("{}.0", self.n.unsigned_abs())
        } else {
            format!("(/ {}.0 {}.0)", self.n.unsigned_abs(), self.d)
        };
        if self.n < 0 {
            format!("(- {abs})")
        } else {
            abs
        }
    }
}

/// sorted (variable, non-zero exponent)
pub type Mono = Vec<(u32, i32)>;
pub type Poly = BTreeMap<Mono, Rat>;

pub fn p_const(c: Rat) -> Poly {
    let mut p = Poly::new();
    if !c.is_zero() {
        p.insert(vec![], c);
    }
    p
}

pub fn p_add(a: &Poly, b: &Poly) -> Poly {
    let mut r = a.clone();
    for (m, c) in b {
        let e = r.entry(m.clone()).or_insert(Rat::ZERO);
        *e = e.add(*c);
        if e.is_zero() {
            r.remove(m);
        }
    }
    r
}

pub fn p_neg(a: &Poly) -> Poly {
    a.iter().map(|(m, c)| (m.clone(), c.neg())).collect()
}

pub fn p_sub(a: &Poly, b: &Poly) -> Poly {
    p_add(a, &p_neg(b))
}

fn m_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r: BTreeMap<u32, i32> = a.iter().copied().collect();
    for (v, e) in b {
        let x = r.entry(*v).or_insert(0);
        *x += e;
        if *x == 0 {
            r.remove(v);
        }
    }
    r.into_iter().collect()
}

pub fn p_mul(a: &Poly, b: &Poly) -> Poly {
    let mut r = Poly::new();
    for (ma, ca) in a {
        for (mb, cb) in b {
            let m = m_mul(ma, mb);
            let e = r.entry(m.clone()).or_insert(Rat::ZERO);
            *e = e.add(ca.mul(*cb));
            if e.is_zero() {
                r.remove(&m);
            }
        }
    }
    r
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Const(Rat),
    Var(u32),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Neg(u32),
    /// multiplicative inverse; the operand is assumed / decided non-zero
    Inv(u32),
    /// canonical form of an element that went through its byte encoding
    Poly(u32),
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    /// `Some(value)`: this variable is the inverse of that value
    pub inverse_of: Option<u32>,
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    node_ids: HashMap<Node, u32>,
    pub polys: Vec<Poly>,
    poly_ids: HashMap<Poly, u32>,
    /// value handle -> (node, poly)
    pub vals: Vec<(u32, u32)>,
    val_ids: HashMap<(u32, u32), u32>,
    pub vars: Vec<VarInfo>,
    draws: HashMap<Vec<u8>, u32>,
    opaque: HashMap<[u8; 32], u32>,
    /// polys that were assumed non-zero (generic mode) when the code compared
    /// or inverted them
    pub assumed_nonzero: Vec<u32>,
    /// (value) handles whose byte encoding was taken: obligation dag == poly
    pub encoded: Vec<u32>,
    pub draw_count: usize,
    pub op_count: usize,
}

pub type Oracle = Box<dyn FnMut(&Poly) -> bool>;

thread_local! {
    static ARENA: RefCell<Arena> = RefCell::new(Arena::fresh());
    /// decides `poly == 0` when the canonical form does not
    static ORACLE: RefCell<Option<Oracle>> = const { RefCell::new(None) };
}

impl Arena {
    fn fresh() -> Self {
        let mut a = Arena::default();
        let z = a.mk(Node::Const(Rat::ZERO), Poly::new());
        let o = a.mk(Node::Const(Rat::ONE), p_const(Rat::ONE));
        assert!(z == 0 && o == 1);
        a
    }

    pub fn poly_id(&mut self, p: Poly) -> u32 {
        if let Some(i) = self.poly_ids.get(&p) {
            return *i;
        }
        let i = self.polys.len() as u32;
        self.polys.push(p.clone());
        self.poly_ids.insert(p, i);
        i
    }

    fn mk(&mut self, n: Node, p: Poly) -> u32 {
        let nid = if let Some(i) = self.node_ids.get(&n) {
            *i
        } else {
            let i = self.nodes.len() as u32;
            self.nodes.push(n.clone());
            self.node_ids.insert(n, i);
            i
        };
        let pid = self.poly_id(p);
        if let Some(i) = self.val_ids.get(&(nid, pid)) {
            return *i;
        }
        let i = self.vals.len() as u32;
        self.vals.push((nid, pid));
        self.val_ids.insert((nid, pid), i);
        i
    }

    pub fn poly(&self, h: u32) -> &Poly {
        &self.polys[self.vals[h as usize].1 as usize]
    }

    fn new_var(&mut self, name: String, inverse_of: Option<u32>) -> u32 {
        let v = self.vars.len() as u32;
        self.vars.push(VarInfo { name, inverse_of });
        v
    }

    fn var_val(&mut self, v: u32) -> u32 {
        let mut p = Poly::new();
        p.insert(vec![(v, 1)], Rat::ONE);
        self.mk(Node::Var(v), p)
    }
}

fn with<T>(f: impl FnOnce(&mut Arena) -> T) -> T {
    ARENA.with(|a| f(&mut a.borrow_mut()))
}

/// Drop every value of this thread and start a new scenario.
pub fn reset() {
    ARENA.with(|a| *a.borrow_mut() = Arena::fresh());
}

pub fn set_oracle(o: Option<Oracle>) {
    ORACLE.with(|x| *x.borrow_mut() = o);
}

pub fn read<T>(f: impl FnOnce(&Arena) -> T) -> T {
    ARENA.with(|a| f(&a.borrow()))
}

pub fn fresh_var(name: &str) -> u32 {
    with(|a| {
        let v = a.new_var(name.to_string(), None);
        a.var_val(v)
    })
}

/// Variable for a random draw: identical generator output, identical variable.
pub fn draw(kind: &str, bytes: Vec<u8>) -> u32 {
    with(|a| {
        a.draw_count += 1;
        let mut key = kind.as_bytes().to_vec();
        key.push(0);
        key.extend(bytes);
        if let Some(h) = a.draws.get(&key) {
            return *h;
        }
        let n = a.draws.len();
        let v = a.new_var(format!("{kind}{n}"), None);
        let h = a.var_val(v);
        a.draws.insert(key, h);
        h
    })
}

pub fn constant(n: i128) -> u32 {
    with(|a| a.mk(Node::Const(Rat::int(n)), p_const(Rat::int(n))))
}

pub fn rational(r: Rat) -> u32 {
    with(|a| a.mk(Node::Const(r), p_const(r)))
}

pub fn add(x: u32, y: u32) -> u32 {
    with(|a| {
        a.op_count += 1;
        let p = p_add(a.poly(x), a.poly(y));
        let n = Node::Add(a.vals[x as usize].0, a.vals[y as usize].0);
        a.mk(n, p)
    })
}

pub fn sub(x: u32, y: u32) -> u32 {
    with(|a| {
        a.op_count += 1;
        let p = p_sub(a.poly(x), a.poly(y));
        let n = Node::Sub(a.vals[x as usize].0, a.vals[y as usize].0);
        a.mk(n, p)
    })
}

pub fn mul(x: u32, y: u32) -> u32 {
    with(|a| {
        a.op_count += 1;
        let p = p_mul(a.poly(x), a.poly(y));
        let n = Node::Mul(a.vals[x as usize].0, a.vals[y as usize].0);
        a.mk(n, p)
    })
}

pub fn neg(x: u32) -> u32 {
    with(|a| {
        a.op_count += 1;
        let p = p_neg(a.poly(x));
        let n = Node::Neg(a.vals[x as usize].0);
        a.mk(n, p)
    })
}

/// `None` when the value is (decided to be) zero.
pub fn inv(x: u32) -> Option<u32> {
    if is_zero(x) {
        return None;
    }
    Some(with(|a| {
        a.op_count += 1;
        let p = a.poly(x).clone();
        let node = Node::Inv(a.vals[x as usize].0);
        if p.len() == 1 {
            let (m, c) = p.iter().next().unwrap();
            let mut q = Poly::new();
            q.insert(m.iter().map(|(v, e)| (*v, -*e)).collect(), c.inv());
            a.mk(node, q)
        } else {
            // no closed Laurent form: a fresh variable w constrained by w*p = 1
            let w = a.new_var(format!("w{}", a.vars.len()), Some(x));
            let mut q = Poly::new();
            q.insert(vec![(w, 1)], Rat::ONE);
            a.mk(node, q)
        }
    }))
}

pub fn is_zero(x: u32) -> bool {
    let p = read(|a| a.poly(x).clone());
    decide_zero(p)
}

pub fn equal(x: u32, y: u32) -> bool {
    let p = read(|a| p_sub(a.poly(x), a.poly(y)));
    decide_zero(p)
}

fn decide_zero(p: Poly) -> bool {
    if p.is_empty() {
        return true;
    }
    if p.len() == 1 && p.keys().next().unwrap().is_empty() {
        return false;
    }
    let o = ORACLE.with(|o| o.borrow_mut().take());
    if let Some(mut f) = o {
        let r = f(&p);
        ORACLE.with(|x| *x.borrow_mut() = Some(f));
        return r;
    }
    with(|a| {
        let id = a.poly_id(p);
        if !a.assumed_nonzero.contains(&id) {
            a.assumed_nonzero.push(id);
        }
    });
    false
}

pub fn same_poly(x: u32, y: u32) -> bool {
    read(|a| a.vals[x as usize].1 == a.vals[y as usize].1)
}

pub fn poly_index(x: u32) -> u32 {
    read(|a| a.vals[x as usize].1)
}

/// byte encoding of an element: a tag, a magic number and the canonical id
pub fn encode(tag: u8, x: u32, out: &mut [u8]) {
    let id = with(|a| {
        if !a.encoded.contains(&x) {
            a.encoded.push(x);
        }
        a.vals[x as usize].1
    });
    out.fill(0x5A);
    let n = out.len();
    out[0] = tag;
    out[1..5].copy_from_slice(&id.to_be_bytes());
    out[n - 1] = 0xEE; // never a canonical scalar
}

pub fn decode(tag: u8, b: &[u8]) -> Option<u32> {
    let n = b.len();
    if b[0] != tag || b[n - 1] != 0xEE || b[5..n - 1].iter().any(|x| *x != 0x5A) {
        return None;
    }
    let id = u32::from_be_bytes([b[1], b[2], b[3], b[4]]);
    with(|a| {
        if id as usize >= a.polys.len() {
            return None;
        }
        let p = a.polys[id as usize].clone();
        Some(a.mk(Node::Poly(id), p))
    })
}

/// a scalar given by its raw (canonical, non symbolic) bytes
pub fn opaque(bytes: [u8; 32]) -> u32 {
    let small = bytes[8..].iter().all(|b| *b == 0);
    if small {
        let mut b = [0u8; 8];
        b.copy_from_slice(&bytes[..8]);
        return constant(i128::from(u64::from_le_bytes(b)));
    }
    with(|a| {
        if let Some(h) = a.opaque.get(&bytes) {
            return *h;
        }
        let v = a.new_var(format!("k{}", a.vars.len()), None);
        let h = a.var_val(v);
        a.opaque.insert(bytes, h);
        h
    })
}

/// raw bytes of an opaque scalar / small constant, if it is one
pub fn raw_bytes(x: u32) -> Option<[u8; 32]> {
    read(|a| {
        let p = a.poly(x);
        if p.is_empty() {
            return Some([0; 32]);
        }
        if p.len() == 1 {
            let (m, c) = p.iter().next().unwrap();
            if m.is_empty() && c.d == 1 && c.n >= 0 && c.n <= i128::from(u64::MAX) {
                let mut b = [0u8; 32];
                b[..8].copy_from_slice(&(c.n as u64).to_le_bytes());
                return Some(b);
            }
        }
        for (b, h) in &a.opaque {
            if a.vals[*h as usize].1 == a.vals[x as usize].1 {
                return Some(*b);
            }
        }
        None
    })
}
