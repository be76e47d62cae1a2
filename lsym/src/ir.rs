//! Textual LLVM IR: index of a module, lazy parsing of function bodies and global initialisers.
use crate::term::{mask, B, V};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Fl(u32),
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    St(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) | Ty::Fl(w) => *w,
            Ty::Ptr => 64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) | Ty::Fl(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Vec(..) => ((self.bits() as u64 + 7) / 8).next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::St(l, p) => {
                if *p {
                    1
                } else {
                    l.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store(&self) -> u64 {
        match self {
            Ty::Int(w) | Ty::Fl(w) => (*w as u64 + 7) / 8,
            Ty::Vec(..) => (self.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) | Ty::Fl(_) | Ty::Vec(..) => {
                let a = self.align();
                (self.store() + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::St(l, p) => {
                let mut o = 0;
                for t in l {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> u64 {
        match self {
            Ty::St(l, p) => {
                let mut o = 0;
                for (k, t) in l.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field of {self:?}"),
        }
    }
    pub fn elems(&self) -> usize {
        match self {
            Ty::St(l, _) => l.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::St(l, _) => &l[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem"),
        }
    }
    pub fn zero(&self) -> V {
        match self {
            Ty::St(..) | Ty::Arr(..) | Ty::Vec(..) => {
                V::Agg(Rc::new((0..self.elems()).map(|i| self.elem(i).zero()).collect()))
            }
            _ => V::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    Bit,
    Fp,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(usize),
    Ind(Op),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(u32, B, Ty, Op, Op),
    FBin(u32, String, Ty, Op, Op),
    Icmp(u32, Pred, Ty, Op, Op),
    Fcmp(u32, String, Ty, Op, Op),
    Cast(u32, Cast, String, Ty, Ty, Op),
    /// the last one: atomic
    Load(u32, Ty, Op, bool),
    Store(Ty, Op, Op, bool),
    Alloca(u32, u64, u64, Op),
    Gep(u32, Op, i64, Vec<(Op, u32, u64)>),
    Select(u32, Ty, Ty, Op, Op, Op),
    Call(Option<u32>, Rc<(Callee, Vec<Op>, Ty, Vec<Ty>)>, Option<u32>),
    ExtV(u32, Op, Vec<usize>),
    InsV(u32, Ty, Op, Op, Vec<usize>),
    ExtE(u32, Op, Op),
    InsE(u32, Op, Op, Op),
    Shuf(u32, u32, Op, Op, Vec<usize>),
    Rmw(u32, String, Ty, Op, Op),
    Cx(u32, Ty, Op, Op, Op),
    Freeze(u32, Op),
    Nop,
    Br(u32),
    CBr(Op, u32, u32),
    Switch(Ty, Op, u32, Rc<Vec<(u128, u32)>>),
    Ret(Option<Op>),
    Unreachable,
    Bad(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub ins: Vec<I>,
}

pub struct Func {
    pub id: usize,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: String,
    pub base: u64,
    pub size: u64,
    pub cst: bool,
    pub init: (usize, usize), // text range of "type init"
    pub external: bool,
}

pub struct Module {
    pub text: &'static str,
    pub fnames: Vec<String>,
    pub fbody: Vec<Option<(usize, usize)>>,
    pub fweak: Vec<bool>,
    pub findex: HashMap<String, usize>,
    pub globals: Vec<Global>,
    pub gindex: HashMap<String, usize>,
    pub cache: RefCell<HashMap<usize, Rc<Func>>>,
    pub types: HashMap<String, Ty>,
}

pub const FBASE: u64 = 0x0000_7000_0000_0000;
pub const GBASE: u64 = 0x0000_1000_0000_0000;
pub const HBASE: u64 = 0x0000_2000_0000_0000;

// ------------------------------------------------------------------ lexer
#[derive(Clone, Debug, PartialEq)]
pub enum T<'a> {
    Id(&'a str),
    Loc(&'a str),
    Glob(&'a str),
    Str(&'a str),
    CStr(&'a str),
    Num(&'a str),
    P(u8),
    Meta,
    End,
}

pub struct Lex<'a> {
    s: &'a [u8],
    t: &'a str,
    pub i: usize,
}

impl<'a> Lex<'a> {
    pub fn new(t: &'a str) -> Self {
        Lex { s: t.as_bytes(), t, i: 0 }
    }
    fn idc(c: u8) -> bool {
        c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
    }
    pub fn peek(&mut self) -> T<'a> {
        let k = self.i;
        let t = self.next();
        self.i = k;
        t
    }
    pub fn next(&mut self) -> T<'a> {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t') {
            self.i += 1;
        }
        if self.i >= self.s.len() {
            return T::End;
        }
        let c = self.s[self.i];
        let st = self.i;
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let n = if self.i < self.s.len() && self.s[self.i] == b'"' {
                    let q = self.i + 1;
                    self.i = q;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                    &self.t[q..self.i - 1]
                } else {
                    while self.i < self.s.len() && Self::idc(self.s[self.i]) {
                        self.i += 1;
                    }
                    &self.t[st + 1..self.i]
                };
                if c == b'%' {
                    T::Loc(n)
                } else {
                    T::Glob(n)
                }
            }
            b'"' => {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                T::Str(&self.t[st + 1..self.i - 1])
            }
            b'c' if st + 1 < self.s.len() && self.s[st + 1] == b'"' => {
                self.i += 2;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                T::CStr(&self.t[st + 2..self.i - 1])
            }
            b'!' => {
                self.i += 1;
                while self.i < self.s.len() && Self::idc(self.s[self.i]) {
                    self.i += 1;
                }
                T::Meta
            }
            b'#' => {
                self.i += 1;
                while self.i < self.s.len() && Self::idc(self.s[self.i]) {
                    self.i += 1;
                }
                T::Id("#")
            }
            b'0'..=b'9' | b'-' | b'+' => {
                self.i += 1;
                while self.i < self.s.len()
                    && (self.s[self.i].is_ascii_alphanumeric()
                        || self.s[self.i] == b'.'
                        || (matches!(self.s[self.i], b'+' | b'-') && self.s[self.i - 1] == b'e'))
                {
                    self.i += 1;
                }
                T::Num(&self.t[st..self.i])
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                self.i += 1;
                while self.i < self.s.len() && Self::idc(self.s[self.i]) {
                    self.i += 1;
                }
                T::Id(&self.t[st..self.i])
            }
            c => {
                self.i += 1;
                T::P(c)
            }
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == T::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eat_id(&mut self, s: &str) -> bool {
        if self.peek() == T::Id(s) {
            self.next();
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' near {}", c as char, &self.t[self.i..(self.i + 60).min(self.t.len())]))
        }
    }
    fn skip_paren(&mut self) {
        // after '('
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                T::End => return,
                _ => {}
            }
        }
    }
}

const ATTRS: &[&str] = &[
    "noundef", "zeroext", "signext", "nonnull", "noalias", "nofree", "readonly", "readnone",
    "writeonly", "captures", "align", "dereferenceable", "dereferenceable_or_null", "sret", "byval",
    "range", "immarg", "inreg", "returned", "nocapture", "writable", "dead_on_unwind", "initializes",
    "allocptr", "allocalign", "nest", "swiftself", "elementtype", "nofpclass", "dead_on_return", "fastcc",
    "coldcc", "ccc", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "unnamed_addr",
    "local_unnamed_addr", "noext", "preallocated", "inalloca", "cc",
];

impl Module {
    pub fn parse_ty(&self, l: &mut Lex) -> Result<Ty, String> {
        let t = match l.next() {
            T::Id("void") => Ty::Void,
            T::Id("ptr") => Ty::Ptr,
            T::Id("float") => Ty::Fl(32),
            T::Id("double") => Ty::Fl(64),
            T::Id("half") => Ty::Fl(16),
            T::Id("fp128") => Ty::Fl(128),
            T::Id("metadata") | T::Id("token") | T::Id("label") => Ty::Other,
            T::Id(s) if s.starts_with('i') => {
                Ty::Int(s[1..].parse().map_err(|_| format!("type {s}"))?)
            }
            T::P(b'[') => {
                let n = match l.next() {
                    T::Num(n) => n.parse().map_err(|_| "array size")?,
                    x => return Err(format!("array size {x:?}")),
                };
                l.next(); // x
                let t = self.parse_ty(l)?;
                l.need(b']')?;
                Ty::Arr(n, Rc::new(t))
            }
            T::P(b'{') => Ty::St(self.ty_list(l, b'}')?, false),
            T::P(b'<') => {
                if l.eat(b'{') {
                    let v = self.ty_list(l, b'}')?;
                    l.need(b'>')?;
                    Ty::St(v, true)
                } else {
                    let n = match l.next() {
                        T::Num(n) => n.parse().map_err(|_| "vector size")?,
                        x => return Err(format!("vector size {x:?}")),
                    };
                    l.next();
                    let t = self.parse_ty(l)?;
                    l.need(b'>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            T::Loc(n) => self.types.get(n).cloned().ok_or_else(|| format!("type %{n}"))?,
            x => return Err(format!("type {x:?}")),
        };
        // function type
        if l.peek() == T::P(b'(') {
            l.next();
            l.skip_paren();
            return Ok(t);
        }
        Ok(t)
    }
    fn ty_list(&self, l: &mut Lex, end: u8) -> Result<Vec<Ty>, String> {
        let mut v = vec![];
        if l.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.parse_ty(l)?);
            if l.eat(b',') {
                continue;
            }
            l.need(end)?;
            return Ok(v);
        }
    }
    fn skip_attrs(&self, l: &mut Lex) {
        loop {
            match l.peek() {
                T::Id(s) if ATTRS.contains(&s) => {
                    l.next();
                    if l.peek() == T::P(b'(') {
                        l.next();
                        l.skip_paren();
                    } else if s == "align" || s == "cc" {
                        l.next();
                    }
                }
                T::Id("#") | T::Str(_) => {
                    l.next();
                }
                _ => return,
            }
        }
    }
    pub fn addr(&self, name: &str) -> Result<u64, String> {
        if let Some(g) = self.gindex.get(name) {
            let g = &self.globals[*g];
            return Ok(if g.external && g.size == 0 { 0 } else { g.base });
        }
        if let Some(f) = self.findex.get(name) {
            if self.fweak[*f] {
                return Ok(0);
            }
            return Ok(FBASE + 16 * *f as u64);
        }
        Err(format!("unknown symbol @{name}"))
    }
    fn num(&self, s: &str, ty: &Ty) -> Result<u128, String> {
        match ty {
            Ty::Fl(w) => {
                if let Some(h) = s.strip_prefix("f0x") {
                    return u128::from_str_radix(h, 16).map_err(|e| e.to_string());
                }
                let s = s.strip_prefix('+').unwrap_or(s).replace("qnan", "nan");
                if let Some(h) = s.strip_prefix("0x") {
                    let h = h.trim_start_matches(['H', 'L', 'K', 'M']);
                    let x = u128::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                    if *w == 32 {
                        return Ok((f64::from_bits(x as u64) as f32).to_bits() as u128);
                    }
                    return Ok(x);
                }
                let f: f64 = s.parse().map_err(|_| format!("float {s}"))?;
                Ok(if *w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 })
            }
            Ty::Int(w) => {
                if let Some(n) = s.strip_prefix('-') {
                    let x: u128 = n.parse().map_err(|_| format!("number {s}"))?;
                    Ok(x.wrapping_neg() & mask(*w))
                } else {
                    s.parse::<u128>().map(|x| x & mask(*w)).map_err(|_| format!("number {s}"))
                }
            }
            _ => Err(format!("number {s} of type {ty:?}")),
        }
    }
    /// a constant or register of the given type
    fn val(&self, l: &mut Lex, ty: &Ty, r: &mut Regs) -> Result<Op, String> {
        let k = match l.next() {
            T::Loc(n) => return Ok(Op::R(r.get(n))),
            T::Num(n) => V::C(self.num(n, ty)?),
            T::Id(n) if n.starts_with("f0x") => V::C(self.num(n, ty)?),
            T::Id("true") => V::C(1),
            T::Id("false") | T::Id("null") => V::C(0),
            T::Id("none") => V::C(0),
            T::Id("undef") | T::Id("poison") | T::Id("zeroinitializer") => ty.zero(),
            T::Id("splat") => {
                l.need(b'(')?;
                let t = self.parse_ty(l)?;
                let v = self.cval(l, &t)?;
                l.need(b')')?;
                V::Agg(Rc::new(vec![v; ty.elems()]))
            }
            T::CStr(s) => V::Agg(Rc::new(unescape(s).into_iter().map(|b| V::C(b as u128)).collect())),
            T::Glob(n) => V::C(self.addr(n)? as u128),
            T::P(b'[') => self.agg(l, b']')?,
            T::P(b'{') => self.agg(l, b'}')?,
            T::P(b'<') => {
                if l.eat(b'{') {
                    let v = self.agg(l, b'}')?;
                    l.need(b'>')?;
                    v
                } else {
                    self.agg(l, b'>')?
                }
            }
            T::Id(op @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr")) => {
                let _ = op;
                l.need(b'(')?;
                let t = self.parse_ty(l)?;
                let v = self.cval(l, &t)?;
                l.eat_id("to");
                let to = self.parse_ty(l)?;
                l.need(b')')?;
                match v {
                    V::C(c) => V::C(c & mask(to.bits())),
                    v => v,
                }
            }
            T::Id("getelementptr") => {
                loop {
                    match l.peek() {
                        T::Id("inrange") => {
                            l.next();
                            l.need(b'(')?;
                            l.skip_paren();
                        }
                        T::Id(_) => {
                            l.next();
                        }
                        _ => break,
                    }
                }
                l.need(b'(')?;
                let t = self.parse_ty(l)?;
                l.need(b',')?;
                let pt = self.parse_ty(l)?;
                let b = self.cval(l, &pt)?;
                let mut a = match b {
                    V::C(c) => c as u64,
                    _ => return Err("gep base".into()),
                };
                let mut first = true;
                let mut cur = t.clone();
                while l.eat(b',') {
                    let it = self.parse_ty(l)?;
                    let i = match self.cval(l, &it)? {
                        V::C(c) => crate::term::sx(c, it.bits()) as i64,
                        _ => return Err("gep index".into()),
                    };
                    if first {
                        a = a.wrapping_add((i as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::St(f, _) => {
                                a = a.wrapping_add(cur.field(i as usize));
                                cur = f[i as usize].clone();
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                a = a.wrapping_add((i as u64).wrapping_mul(e.size()));
                                cur = (*e).clone();
                            }
                            _ => return Err("gep type".into()),
                        }
                    }
                }
                l.need(b')')?;
                V::C(a as u128)
            }
            T::Id(op @ ("add" | "sub" | "xor" | "mul")) => {
                while let T::Id(_) = l.peek() {
                    l.next();
                }
                l.need(b'(')?;
                let t = self.parse_ty(l)?;
                let a = self.cval(l, &t)?;
                l.need(b',')?;
                let t2 = self.parse_ty(l)?;
                let b = self.cval(l, &t2)?;
                l.need(b')')?;
                match (a, b) {
                    (V::C(a), V::C(b)) => {
                        let o = match op {
                            "add" => B::Add,
                            "sub" => B::Sub,
                            "mul" => B::Mul,
                            _ => B::Xor,
                        };
                        V::C(crate::term::fold(o, t.bits(), a, b).unwrap())
                    }
                    _ => return Err("constant expression".into()),
                }
            }
            x => return Err(format!("value {x:?} of type {ty:?}")),
        };
        Ok(Op::K(k))
    }
    fn cval(&self, l: &mut Lex, ty: &Ty) -> Result<V, String> {
        let mut r = Regs::default();
        self.skip_attrs(l);
        match self.val(l, ty, &mut r)? {
            Op::K(v) => Ok(v),
            Op::R(_) => Err("register in a constant".into()),
        }
    }
    fn agg(&self, l: &mut Lex, end: u8) -> Result<V, String> {
        let mut v = vec![];
        if l.eat(end) {
            return Ok(V::Agg(Rc::new(v)));
        }
        loop {
            let t = self.parse_ty(l)?;
            v.push(self.cval(l, &t)?);
            if l.eat(b',') {
                continue;
            }
            l.need(end)?;
            return Ok(V::Agg(Rc::new(v)));
        }
    }
    pub fn init(&self, g: &Global) -> Result<(Ty, V), String> {
        let mut l = Lex::new(&self.text[g.init.0..g.init.1]);
        let t = self.parse_ty(&mut l)?;
        if g.external {
            return Ok((t.clone(), t.zero()));
        }
        let v = self.cval(&mut l, &t)?;
        Ok((t, v))
    }

    pub fn load(text: &'static str) -> Result<Module, String> {
        let mut m = Module {
            text,
            fnames: vec![],
            fbody: vec![],
            fweak: vec![],
            findex: HashMap::new(),
            globals: vec![],
            gindex: HashMap::new(),
            cache: RefCell::new(HashMap::new()),
            types: HashMap::new(),
        };
        let b = text.as_bytes();
        let mut i = 0;
        let mut next = GBASE;
        while i < b.len() {
            let e = text[i..].find('\n').map_or(b.len(), |k| i + k);
            match b[i] {
                b'@' => {
                    let line = &text[i..e];
                    let mut l = Lex::new(line);
                    let name = match l.next() {
                        T::Glob(n) => n.to_string(),
                        _ => return Err("global".into()),
                    };
                    l.next(); // =
                    let (mut cst, mut ext, mut weak) = (false, false, false);
                    loop {
                        match l.next() {
                            T::Id("global") => break,
                            T::Id("constant") => {
                                cst = true;
                                break;
                            }
                            T::Id("external") => ext = true,
                            T::Id("extern_weak") => {
                                ext = true;
                                weak = true;
                            }
                            T::Id("alias") => return Err("alias".into()),
                            T::End => return Err(format!("global {line}")),
                            _ => {}
                        }
                    }
                    let st = i + l.i;
                    let ty = m.parse_ty(&mut l)?;
                    let size = if weak { 0 } else { ty.size() };
                    let al = ty.align().max(16);
                    next = (next + al - 1) / al * al;
                    m.gindex.insert(name.clone(), m.globals.len());
                    m.globals.push(Global { name, base: next, size, cst, init: (st, e), external: ext });
                    next += size + 64;
                    i = e + 1;
                }
                b'd' if text[i..e].starts_with("define") || text[i..e].starts_with("declare") => {
                    let line = &text[i..e];
                    let k = line.find('@').ok_or("no name")?;
                    let mut l = Lex::new(&line[k..]);
                    let name = match l.next() {
                        T::Glob(n) => n.to_string(),
                        _ => return Err("function".into()),
                    };
                    let weak = line.starts_with("declare extern_weak");
                    m.findex.insert(name.clone(), m.fnames.len());
                    m.fnames.push(name);
                    m.fweak.push(weak);
                    if line.starts_with("define") {
                        let end = text[e..].find("\n}\n").ok_or("unterminated")? + e;
                        m.fbody.push(Some((i, end + 1)));
                        i = end + 3;
                    } else {
                        m.fbody.push(None);
                        i = e + 1;
                    }
                }
                b'%' => {
                    let line = &text[i..e];
                    let mut l = Lex::new(line);
                    if let T::Loc(n) = l.next() {
                        l.next();
                        l.next();
                        let t = m.parse_ty(&mut l)?;
                        m.types.insert(n.to_string(), t);
                    }
                    i = e + 1;
                }
                _ => i = e + 1,
            }
        }
        Ok(m)
    }

    pub fn func(&self, id: usize) -> Result<Rc<Func>, String> {
        if let Some(f) = self.cache.borrow().get(&id) {
            return Ok(f.clone());
        }
        let f = Rc::new(self.parse_func(id).map_err(|e| format!("{}: {e}", self.fnames[id]))?);
        self.cache.borrow_mut().insert(id, f.clone());
        Ok(f)
    }

    fn parse_func(&self, id: usize) -> Result<Func, String> {
        let (s, e) = self.fbody[id].ok_or("no body")?;
        let text = &self.text[s..e];
        let mut r = Regs::default();
        let mut lines = text.split('\n');
        let head = lines.next().unwrap();
        // parameters
        let k = head.find('@').unwrap();
        let mut l = Lex::new(&head[k..]);
        l.next();
        l.need(b'(')?;
        let mut np = 0;
        if !l.eat(b')') {
            loop {
                if l.eat(b'.') {
                    l.eat(b'.');
                    l.eat(b'.');
                    l.need(b')')?;
                    break;
                }
                self.parse_ty(&mut l)?;
                self.skip_attrs(&mut l);
                match l.next() {
                    T::Loc(n) => {
                        r.get(n);
                    }
                    x => return Err(format!("parameter {x:?}")),
                }
                np += 1;
                if l.eat(b',') {
                    continue;
                }
                l.need(b')')?;
                break;
            }
        }
        // blocks
        let mut labels: HashMap<&str, u32> = HashMap::new();
        let mut raw: Vec<Vec<&str>> = vec![];
        for line in lines {
            if line.is_empty() || line.starts_with(';') {
                continue;
            }
            if !line.starts_with(' ') {
                let name = if let Some(q) = line.strip_prefix('"') {
                    &q[..q.find('"').unwrap()]
                } else if let Some(c) = line.find(':') {
                    &line[..c]
                } else {
                    continue;
                };
                labels.insert(name, raw.len() as u32);
                raw.push(vec![]);
                continue;
            }
            if raw.is_empty() {
                // unnamed entry block takes the next number
                raw.push(vec![]);
                labels.insert("", 0);
            }
            raw.last_mut().unwrap().push(line);
        }
        // the unnamed entry block is numbered after the parameters
        let mut entry_name = String::new();
        if labels.contains_key("") {
            let n = r.unnamed;
            entry_name = n.to_string();
        }
        let lab = |n: &str| -> Result<u32, String> {
            if n == entry_name {
                return Ok(0);
            }
            labels.get(n).copied().ok_or_else(|| format!("label {n}"))
        };
        let mut blocks = vec![];
        for b in &raw {
            let mut blk = Block { phis: vec![], ins: vec![] };
            let mut i = 0;
            while i < b.len() {
                let mut line = b[i].to_string();
                i += 1;
                let tr = line.trim_start();
                let multi = (tr.starts_with("switch ") && !line.contains(']'))
                    || tr.starts_with("invoke ")
                    || (tr.starts_with('%') && tr.contains("= invoke "))
                    || (tr.starts_with('%') && tr.contains("= landingpad"));
                if multi {
                    if tr.starts_with("switch ") {
                        while i < b.len() {
                            line.push(' ');
                            line.push_str(b[i]);
                            i += 1;
                            if b[i - 1].trim_start().starts_with(']') {
                                break;
                            }
                        }
                    } else {
                        while i < b.len() && b[i].starts_with("          ") {
                            line.push(' ');
                            line.push_str(b[i]);
                            i += 1;
                        }
                    }
                }
                let mut l = Lex::new(&line);
                match self.ins(&mut l, &mut r, &lab, &mut blk) {
                    Ok(Some(x)) => blk.ins.push(x),
                    Ok(None) => {}
                    Err(e) => blk.ins.push(I::Bad(format!("{e}: {}", line.trim()))),
                }
            }
            blocks.push(blk);
        }
        Ok(Func { id, nparams: np, nregs: r.n, blocks })
    }

    fn typed(&self, l: &mut Lex, r: &mut Regs) -> Result<(Ty, Op), String> {
        let t = self.parse_ty(l)?;
        self.skip_attrs(l);
        let v = self.val(l, &t, r)?;
        Ok((t, v))
    }
    fn label(&self, l: &mut Lex, lab: &dyn Fn(&str) -> Result<u32, String>) -> Result<u32, String> {
        if !l.eat_id("label") {
            return Err("label expected".into());
        }
        match l.next() {
            T::Loc(n) => lab(n),
            x => Err(format!("label {x:?}")),
        }
    }

    fn ins(
        &self,
        l: &mut Lex,
        r: &mut Regs,
        lab: &dyn Fn(&str) -> Result<u32, String>,
        blk: &mut Block,
    ) -> Result<Option<I>, String> {
        let mut dst = None;
        if let T::Loc(n) = l.peek() {
            l.next();
            l.need(b'=')?;
            dst = Some(r.get(n));
        }
        let mut op = match l.next() {
            T::Id(s) => s.to_string(),
            x => return Err(format!("opcode {x:?}")),
        };
        while matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = match l.next() {
                T::Id(s) => s.to_string(),
                x => return Err(format!("opcode {x:?}")),
            };
        }
        let d = dst.unwrap_or(u32::MAX);
        let flags = |l: &mut Lex, fl: &[&str]| loop {
            match l.peek() {
                T::Id(s) if fl.contains(&s) => {
                    l.next();
                }
                _ => break,
            }
        };
        let b = match op.as_str() {
            "add" => Some(B::Add),
            "sub" => Some(B::Sub),
            "mul" => Some(B::Mul),
            "udiv" => Some(B::UDiv),
            "sdiv" => Some(B::SDiv),
            "urem" => Some(B::URem),
            "srem" => Some(B::SRem),
            "shl" => Some(B::Shl),
            "lshr" => Some(B::LShr),
            "ashr" => Some(B::AShr),
            "and" => Some(B::And),
            "or" => Some(B::Or),
            "xor" => Some(B::Xor),
            _ => None,
        };
        if let Some(b) = b {
            flags(l, &["nuw", "nsw", "exact", "disjoint"]);
            let (t, x) = self.typed(l, r)?;
            l.need(b',')?;
            let y = self.val(l, &t, r)?;
            return Ok(Some(I::Bin(d, b, t, x, y)));
        }
        Ok(Some(match op.as_str() {
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_attrs(l);
                let (t, x) = self.typed(l, r)?;
                l.need(b',')?;
                let y = self.val(l, &t, r)?;
                I::FBin(d, op, t, x, y)
            }
            "fneg" => {
                self.skip_attrs(l);
                let (t, x) = self.typed(l, r)?;
                I::FBin(d, op, t, x.clone(), x)
            }
            "icmp" => {
                flags(l, &["samesign"]);
                let p = match l.next() {
                    T::Id("eq") => Pred::Eq,
                    T::Id("ne") => Pred::Ne,
                    T::Id("ugt") => Pred::Ugt,
                    T::Id("uge") => Pred::Uge,
                    T::Id("ult") => Pred::Ult,
                    T::Id("ule") => Pred::Ule,
                    T::Id("sgt") => Pred::Sgt,
                    T::Id("sge") => Pred::Sge,
                    T::Id("slt") => Pred::Slt,
                    T::Id("sle") => Pred::Sle,
                    x => return Err(format!("predicate {x:?}")),
                };
                let (t, x) = self.typed(l, r)?;
                l.need(b',')?;
                let y = self.val(l, &t, r)?;
                I::Icmp(d, p, t, x, y)
            }
            "fcmp" => {
                self.skip_attrs(l);
                let p = match l.next() {
                    T::Id(s) => s.to_string(),
                    x => return Err(format!("predicate {x:?}")),
                };
                let (t, x) = self.typed(l, r)?;
                l.need(b',')?;
                let y = self.val(l, &t, r)?;
                I::Fcmp(d, p, t, x, y)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "inttoptr" | "ptrtoint" | "uitofp" | "sitofp"
            | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                flags(l, &["nuw", "nsw", "nneg"]);
                self.skip_attrs(l);
                let (t, x) = self.typed(l, r)?;
                if !l.eat_id("to") {
                    return Err("cast".into());
                }
                let to = self.parse_ty(l)?;
                let k = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "bitcast" => Cast::Bit,
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" => {
                        let (a, b) = (t.bits(), to.bits());
                        if a > b {
                            Cast::Trunc
                        } else if a < b {
                            Cast::Zext
                        } else {
                            Cast::Bit
                        }
                    }
                    _ => Cast::Fp,
                };
                I::Cast(d, k, op, t, to, x)
            }
            "load" => {
                let at = l.peek() == T::Id("atomic");
                flags(l, &["atomic", "volatile"]);
                let t = self.parse_ty(l)?;
                l.need(b',')?;
                let (_, p) = self.typed(l, r)?;
                I::Load(d, t, p, at)
            }
            "store" => {
                let at = l.peek() == T::Id("atomic");
                flags(l, &["atomic", "volatile"]);
                let (t, v) = self.typed(l, r)?;
                l.need(b',')?;
                let (_, p) = self.typed(l, r)?;
                I::Store(t, v, p, at)
            }
            "alloca" => {
                let t = self.parse_ty(l)?;
                let mut n = Op::K(V::C(1));
                let mut al = t.align();
                while l.eat(b',') {
                    if l.eat_id("align") {
                        if let T::Num(k) = l.next() {
                            al = k.parse().unwrap();
                        }
                    } else {
                        n = self.typed(l, r)?.1;
                    }
                }
                I::Alloca(d, t.size(), al, n)
            }
            "getelementptr" => {
                flags(l, &["inbounds", "nuw", "nusw"]);
                let t = self.parse_ty(l)?;
                l.need(b',')?;
                let (_, base) = self.typed(l, r)?;
                let mut off = 0i64;
                let mut idx = vec![];
                let mut first = true;
                let mut cur = t;
                while l.eat(b',') {
                    if l.peek() == T::Meta {
                        break;
                    }
                    let (it, iv) = self.typed(l, r)?;
                    let sc;
                    if first {
                        sc = cur.size();
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::St(f, _) => {
                                let k = match iv {
                                    Op::K(V::C(k)) => k as usize,
                                    _ => return Err("struct index".into()),
                                };
                                off += cur.field(k) as i64;
                                cur = f[k].clone();
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                sc = e.size();
                                cur = (*e).clone();
                            }
                            _ => return Err("gep".into()),
                        }
                    }
                    match iv {
                        Op::K(V::C(k)) => {
                            off = off.wrapping_add(
                                (crate::term::sx(k, it.bits()) as i64).wrapping_mul(sc as i64),
                            )
                        }
                        v => idx.push((v, it.bits(), sc)),
                    }
                }
                I::Gep(d, base, off, idx)
            }
            "select" => {
                self.skip_attrs(l);
                let (ct, c) = self.typed(l, r)?;
                l.need(b',')?;
                let (t, x) = self.typed(l, r)?;
                l.need(b',')?;
                let (_, y) = self.typed(l, r)?;
                I::Select(d, ct, t, c, x, y)
            }
            "phi" => {
                self.skip_attrs(l);
                let t = self.parse_ty(l)?;
                let mut v = vec![];
                loop {
                    l.need(b'[')?;
                    let x = self.val(l, &t, r)?;
                    l.need(b',')?;
                    let b = match l.next() {
                        T::Loc(n) => lab(n)?,
                        x => return Err(format!("phi {x:?}")),
                    };
                    l.need(b']')?;
                    v.push((b, x));
                    if l.peek() == T::P(b',') {
                        let k = l.i;
                        l.next();
                        if l.peek() == T::P(b'[') {
                            continue;
                        }
                        l.i = k;
                    }
                    break;
                }
                blk.phis.push((d, v));
                return Ok(None);
            }
            "call" | "invoke" => {
                self.skip_attrs(l);
                let rt = self.parse_ty(l)?;
                let callee = match l.next() {
                    T::Glob(n) => match self.findex.get(n) {
                        Some(f) => Callee::Fn(*f),
                        None => return Err(format!("callee {n}")),
                    },
                    T::Loc(n) => Callee::Ind(Op::R(r.get(n))),
                    T::Id("asm") => {
                        let mut s = String::new();
                        loop {
                            match l.next() {
                                T::Str(x) => {
                                    s = x.to_string();
                                    break;
                                }
                                T::End => return Err("asm".into()),
                                _ => {}
                            }
                        }
                        l.need(b',')?;
                        l.next();
                        Callee::Asm(s)
                    }
                    T::Id("inttoptr") => return Err("call of constant".into()),
                    x => return Err(format!("callee {x:?}")),
                };
                l.need(b'(')?;
                let mut a = vec![];
                let mut at = vec![];
                if !l.eat(b')') {
                    loop {
                        let t = self.parse_ty(l)?;
                        if t == Ty::Other {
                            // metadata argument
                            let mut d = 0;
                            loop {
                                match l.peek() {
                                    T::P(b'(') => d += 1,
                                    T::P(b')') if d > 0 => d -= 1,
                                    T::P(b')') => break,
                                    T::P(b',') if d == 0 => break,
                                    T::End => return Err("metadata".into()),
                                    _ => {}
                                }
                                l.next();
                            }
                            a.push(Op::K(V::C(0)));
                            at.push(t);
                        } else {
                            self.skip_attrs(l);
                            a.push(self.val(l, &t, r)?);
                            at.push(t);
                        }
                        if l.eat(b',') {
                            continue;
                        }
                        l.need(b')')?;
                        break;
                    }
                }
                let mut to = None;
                if op == "invoke" {
                    loop {
                        match l.next() {
                            T::Id("to") => break,
                            T::End => return Err("invoke".into()),
                            _ => {}
                        }
                    }
                    to = Some(self.label(l, lab)?);
                }
                let dd = if rt == Ty::Void { None } else { dst };
                I::Call(dd, Rc::new((callee, a, rt, at)), to)
            }
            "extractvalue" => {
                let (_, x) = self.typed(l, r)?;
                let mut p = vec![];
                while l.eat(b',') {
                    if let T::Num(n) = l.peek() {
                        l.next();
                        p.push(n.parse().unwrap());
                    } else {
                        break;
                    }
                }
                I::ExtV(d, x, p)
            }
            "insertvalue" => {
                let (t, x) = self.typed(l, r)?;
                l.need(b',')?;
                let (_, y) = self.typed(l, r)?;
                let mut p = vec![];
                while l.eat(b',') {
                    if let T::Num(n) = l.peek() {
                        l.next();
                        p.push(n.parse().unwrap());
                    } else {
                        break;
                    }
                }
                I::InsV(d, t, x, y, p)
            }
            "extractelement" => {
                let (_, x) = self.typed(l, r)?;
                l.need(b',')?;
                let (_, i) = self.typed(l, r)?;
                I::ExtE(d, x, i)
            }
            "insertelement" => {
                let (_, x) = self.typed(l, r)?;
                l.need(b',')?;
                let (_, y) = self.typed(l, r)?;
                l.need(b',')?;
                let (_, i) = self.typed(l, r)?;
                I::InsE(d, x, y, i)
            }
            "shufflevector" => {
                let (t, x) = self.typed(l, r)?;
                l.need(b',')?;
                let (_, y) = self.typed(l, r)?;
                l.need(b',')?;
                let (_, m) = self.typed(l, r)?;
                let m = match m {
                    Op::K(V::Agg(a)) => a
                        .iter()
                        .map(|v| match v {
                            V::C(c) => *c as usize,
                            _ => 0,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                I::Shuf(d, t.elems() as u32, x, y, m)
            }
            "atomicrmw" => {
                flags(l, &["volatile"]);
                let o = match l.next() {
                    T::Id(s) => s.to_string(),
                    x => return Err(format!("{x:?}")),
                };
                let (_, p) = self.typed(l, r)?;
                l.need(b',')?;
                let (t, v) = self.typed(l, r)?;
                I::Rmw(d, o, t, p, v)
            }
            "cmpxchg" => {
                flags(l, &["weak", "volatile"]);
                let (_, p) = self.typed(l, r)?;
                l.need(b',')?;
                let (t, c) = self.typed(l, r)?;
                l.need(b',')?;
                let (_, n) = self.typed(l, r)?;
                I::Cx(d, t, p, c, n)
            }
            "freeze" => {
                let (_, x) = self.typed(l, r)?;
                I::Freeze(d, x)
            }
            "fence" => I::Nop,
            "br" => {
                if l.peek() == T::Id("label") {
                    I::Br(self.label(l, lab)?)
                } else {
                    let (_, c) = self.typed(l, r)?;
                    l.need(b',')?;
                    let a = self.label(l, lab)?;
                    l.need(b',')?;
                    let b = self.label(l, lab)?;
                    I::CBr(c, a, b)
                }
            }
            "switch" => {
                let (t, c) = self.typed(l, r)?;
                l.need(b',')?;
                let def = self.label(l, lab)?;
                l.need(b'[')?;
                let mut v = vec![];
                while !l.eat(b']') {
                    let (_, k) = self.typed(l, r)?;
                    l.need(b',')?;
                    let b = self.label(l, lab)?;
                    match k {
                        Op::K(V::C(k)) => v.push((k, b)),
                        _ => return Err("case".into()),
                    }
                }
                I::Switch(t, c, def, Rc::new(v))
            }
            "ret" => {
                if l.eat_id("void") {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.typed(l, r)?.1))
                }
            }
            "unreachable" => I::Unreachable,
            "landingpad" | "resume" => I::Bad("unwinding".into()),
            x => return Err(format!("opcode {x}")),
        }))
    }
}

#[derive(Default)]
struct Regs {
    m: HashMap<String, u32>,
    n: u32,
    unnamed: u32,
}

impl Regs {
    fn get(&mut self, n: &str) -> u32 {
        if let Some(k) = self.m.get(n) {
            return *k;
        }
        if let Ok(x) = n.parse::<u32>() {
            self.unnamed = self.unnamed.max(x + 1);
        }
        let k = self.n;
        self.n += 1;
        self.m.insert(n.to_string(), k);
        k
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
