//! Scenarios, written once and compiled twice: against the symbolic stand-in
//! group (crate `symx`, where every `Eq` verdict goes to the SMT solver) and
//! against the real BLS12-381 crate (crate `replay`, where it is evaluated).
//! Only the public API of `cosmian_abe_gpsw` is used.
#![allow(dead_code)]
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::convert::TryInto;

use abe_policy::{AccessPolicy, Attribute, Policy, PolicyAxis};
use cosmian_abe_gpsw::core::bilinear_map::bls12_381::Bls12_381;
use cosmian_abe_gpsw::core::gpsw::{AbeScheme, AsBytes, Gpsw};
use cosmian_abe_gpsw::core::msp::{MonotoneSpanProgram, Node};
use cosmian_abe_gpsw::core::Engine;
use cosmian_bls12_381::{G1Affine, G2Affine, Gt};
use rand_core::SeedableRng;

#[cfg(feature = "bindings")]
#[path = "bind.rs"]
mod bind;

pub type S = Gpsw<Bls12_381>;
pub type Msk = <S as AbeScheme>::MasterPrivateKey;
pub type Mpk = <S as AbeScheme>::MasterPublicKey;
pub type Mdk = <S as AbeScheme>::MasterPublicDelegationKey;
pub type Usk = <S as AbeScheme>::UserDecryptionKey;
pub type Ct = <S as AbeScheme>::CipherText;

/// What must hold at one point of a scenario.
pub enum Verdict {
    /// two group elements must be equal, for every value of every random draw
    Eq { what: String, got: Gt, want: Gt },
    /// no linear combination of these rows gives (1, .., 1)
    NoSol { what: String, rows: Vec<Vec<cosmian_bls12_381::Scalar>> },
    /// decided by the structure alone (no symbolic value involved)
    Must { what: String, ok: bool },
}

pub fn must(v: &mut Vec<Verdict>, what: impl Into<String>, ok: bool) {
    v.push(Verdict::Must { what: what.into(), ok });
}

// ------------------------------------------------------------------ formulas
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum F {
    L(u32),
    And(Box<F>, Box<F>),
    Or(Box<F>, Box<F>),
}

impl F {
    pub fn text(&self) -> String {
        match self {
            F::L(v) => v.to_string(),
            F::And(a, b) => format!("({}&{})", a.text(), b.text()),
            F::Or(a, b) => format!("({}|{})", a.text(), b.text()),
        }
    }

    /// text for `Node::parse`: operands that are not leaves parenthesised
    pub fn surface(&self) -> String {
        fn par(f: &F) -> String {
            match f {
                F::L(v) => v.to_string(),
                _ => format!("({})", f.surface()),
            }
        }
        match self {
            F::L(v) => v.to_string(),
            F::And(a, b) => format!("{} & {}", par(a), par(b)),
            F::Or(a, b) => format!("{} | {}", par(a), par(b)),
        }
    }

    pub fn parse(s: &str) -> F {
        let b = s.as_bytes();
        let mut i = 0;
        let f = Self::p(b, &mut i);
        assert_eq!(i, b.len(), "bad formula {s}");
        f
    }

    fn p(b: &[u8], i: &mut usize) -> F {
        if b[*i] == b'(' {
            *i += 1;
            let a = Self::p(b, i);
            let op = b[*i];
            *i += 1;
            let c = Self::p(b, i);
            assert_eq!(b[*i], b')');
            *i += 1;
            if op == b'&' {
                F::And(Box::new(a), Box::new(c))
            } else {
                F::Or(Box::new(a), Box::new(c))
            }
        } else {
            let s = *i;
            while *i < b.len() && b[*i].is_ascii_digit() {
                *i += 1;
            }
            F::L(std::str::from_utf8(&b[s..*i]).unwrap().parse().unwrap())
        }
    }

    pub fn node(&self) -> Node {
        match self {
            F::L(v) => Node::Leaf(*v),
            F::And(a, b) => Node::And(Box::new(a.node()), Box::new(b.node())),
            F::Or(a, b) => Node::Or(Box::new(a.node()), Box::new(b.node())),
        }
    }

    pub fn leaves(&self) -> Vec<u32> {
        match self {
            F::L(v) => vec![*v],
            F::And(a, b) | F::Or(a, b) => {
                let mut x = a.leaves();
                x.extend(b.leaves());
                x
            }
        }
    }

    pub fn eval(&self, s: &dyn Fn(u32) -> bool) -> bool {
        match self {
            F::L(v) => s(*v),
            F::And(a, b) => a.eval(s) && b.eval(s),
            F::Or(a, b) => a.eval(s) || b.eval(s),
        }
    }

    pub fn map(&self, f: &dyn Fn(u32) -> u32) -> F {
        match self {
            F::L(v) => F::L(f(*v)),
            F::And(a, b) => F::And(Box::new(a.map(f)), Box::new(b.map(f))),
            F::Or(a, b) => F::Or(Box::new(a.map(f)), Box::new(b.map(f))),
        }
    }

    /// minimal satisfying sets
    pub fn minimal(&self) -> BTreeSet<BTreeSet<u32>> {
        let raw: BTreeSet<BTreeSet<u32>> = match self {
            F::L(v) => [[*v].into_iter().collect()].into_iter().collect(),
            F::Or(a, b) => a.minimal().union(&b.minimal()).cloned().collect(),
            F::And(a, b) => {
                let (x, y) = (a.minimal(), b.minimal());
                let mut r = BTreeSet::new();
                for i in &x {
                    for j in &y {
                        r.insert(i.union(j).copied().collect());
                    }
                }
                r
            }
        };
        raw.iter()
            .filter(|s| !raw.iter().any(|t| t != *s && t.is_subset(s)))
            .cloned()
            .collect()
    }
}

/// every formula over exactly the given leaves, in that order
pub fn shapes(leaves: &[u32]) -> Vec<F> {
    if leaves.len() == 1 {
        return vec![F::L(leaves[0])];
    }
    let mut r = Vec::new();
    for k in 1..leaves.len() {
        for a in shapes(&leaves[..k]) {
            for b in shapes(&leaves[k..]) {
                r.push(F::And(Box::new(a.clone()), Box::new(b.clone())));
                r.push(F::Or(Box::new(a.clone()), Box::new(b.clone())));
            }
        }
    }
    r
}

// ------------------------------------------------------------------ helpers
#[derive(Clone, Debug)]
pub struct Spec(pub BTreeMap<String, String>);

impl Spec {
    pub fn new(family: &str) -> Spec {
        let mut m = BTreeMap::new();
        m.insert("family".to_string(), family.to_string());
        Spec(m)
    }

    pub fn with(mut self, k: &str, v: impl ToString) -> Spec {
        self.0.insert(k.to_string(), v.to_string());
        self
    }

    pub fn text(&self) -> String {
        self.0
            .iter()
            .map(|(k, v)| format!("{k}={v}"))
            .collect::<Vec<_>>()
            .join(";")
    }

    pub fn parse(s: &str) -> Spec {
        Spec(
            s.trim()
                .split(';')
                .filter(|x| !x.is_empty())
                .map(|x| {
                    let (k, v) = x.split_once('=').expect("bad spec");
                    (k.to_string(), v.to_string())
                })
                .collect(),
        )
    }

    pub fn get(&self, k: &str) -> &str {
        self.0.get(k).map_or("", |s| s.as_str())
    }

    pub fn nums(&self, k: &str) -> Vec<u32> {
        parse_nums(self.get(k))
    }
}

pub fn parse_nums(s: &str) -> Vec<u32> {
    s.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| x.parse().unwrap())
        .collect()
}

pub fn nums(v: &[u32]) -> String {
    v.iter()
        .map(ToString::to_string)
        .collect::<Vec<_>>()
        .join(",")
}

pub fn via_bytes<T: AsBytes>(v: &mut Vec<Verdict>, what: &str, x: &T) -> Option<T> {
    let b = match x.try_into_bytes() {
        Ok(b) => b,
        Err(e) => {
            must(v, format!("{what}: serialisation failed: {e}"), false);
            return None;
        }
    };
    must(
        v,
        format!("{what}: announced length {} = real length {}", x.len_bytes(), b.len()),
        x.len_bytes() == b.len(),
    );
    match T::try_from_bytes(&b) {
        Ok(y) => Some(y),
        Err(e) => {
            must(v, format!("{what}: own serialisation rejected: {e}"), false);
            None
        }
    }
}

fn be32(b: &[u8]) -> usize {
    u32::from_be_bytes(b[..4].try_into().unwrap()) as usize
}

/// public components of a key / ciphertext, read from the documented encoding
pub fn g2_list(b: &[u8]) -> Vec<G2Affine> {
    let n = be32(b);
    (0..n)
        .map(|i| {
            let s: &[u8; 96] = b[4 + 96 * i..4 + 96 * (i + 1)].try_into().unwrap();
            G2Affine::from_compressed(s).unwrap()
        })
        .collect()
}

pub fn g1_list(b: &[u8]) -> Vec<G1Affine> {
    let n = be32(b);
    (0..n)
        .map(|i| {
            let s: &[u8; 48] = b[4 + 48 * i..4 + 48 * (i + 1)].try_into().unwrap();
            G1Affine::from_compressed(s).unwrap()
        })
        .collect()
}

pub fn gt_at(b: &[u8], at: usize) -> Gt {
    let s: &[u8; 288] = b[at..at + 288].try_into().unwrap();
    Gt::from_compressed(s).unwrap()
}

pub fn msp(f: &F) -> MonotoneSpanProgram<i32> {
    f.node().to_msp().expect("formula rejected")
}

/// decrypt and compare with what the access structure says
pub fn check_decrypt(
    v: &mut Vec<Verdict>,
    what: &str,
    ct: &Ct,
    key: &Usk,
    msg: &Gt,
    expect: bool,
) {
    let r = S::default().decrypt(ct, key);
    match (r, expect) {
        (Ok(Some(got)), true) => v.push(Verdict::Eq {
            what: format!("{what}: decrypted message = encrypted message"),
            got,
            want: *msg,
        }),
        (Ok(Some(_)), false) => must(
            v,
            format!("{what}: policy not satisfied but a plaintext was returned"),
            false,
        ),
        (Ok(None), true) => must(v, format!("{what}: policy satisfied but nothing returned"), false),
        (Err(e), true) => must(v, format!("{what}: policy satisfied but decryption fails: {e}"), false),
        (Ok(None) | Err(_), false) => must(v, format!("{what}: unsatisfied, refused"), true),
    }
}

// ------------------------------------------------------------------ families
pub fn run(spec: &Spec) -> Vec<Verdict> {
    let mut v = Vec::new();
    match spec.get("family") {
        "fml" => fml(spec, &mut v),
        "pol" => pol(spec, &mut v),
        #[cfg(feature = "bindings")]
        "bind" => via_binding(spec, &mut v),
        "del" => del(spec, &mut v),
        "cap" => cap(spec, &mut v),
        "sk" => sk(spec, &mut v),
        "mis" => mis(spec, &mut v),
        "own" => own(spec, &mut v),
        "span" => span(spec, &mut v),
        "ser" => ser(spec, &mut v),
        "wide" => wide(spec, &mut v),
        f => panic!("unknown scenario family {f}"),
    }
    v
}

/// formula x attribute list x route
fn fml(spec: &Spec, v: &mut Vec<Verdict>) {
    let f = F::parse(spec.get("f"));
    let attrs = spec.nums("attrs");
    let size = spec.get("size").parse::<usize>().unwrap();
    let s = S::default();
    let route = spec.get("route");
    let (mut msk, mut mpk, _) = AbeScheme::generate_master_key(&s, size).expect("master key");
    let node = if route == "parse" { Node::parse(&f.surface()).expect("parse") } else { f.node() };
    let l = f.leaves();
    let mut m = match node.to_msp() {
        Ok(m) => m,
        // (an attribute used twice is documented as unsupported)
        Err(e) => return must(v, format!("{}: formula refused: {e}", spec.text()), l.iter().any(|x| l.iter().filter(|y| x == *y).count() > 1)),
    };
    if route == "bytes" {
        m = via_bytes(v, "span program", &m).unwrap();
        msk = via_bytes(v, "master private key", &msk).unwrap();
        mpk = via_bytes(v, "master public key", &mpk).unwrap();
    }
    let mut key = AbeScheme::key_generation(&s, &m, &msk).expect("user key");
    let msg = if route == "encode" {
        AbeScheme::msg_encode(&s, spec.get("msg").as_bytes()).expect("encode")
    } else {
        s.generate_random_plaintext().expect("message")
    };
    let mut ct = AbeScheme::encrypt(&s, &msg, &attrs, &mpk).expect("encrypt");
    if route == "bytes" {
        key = via_bytes(v, "user key", &key).unwrap();
        if attrs.is_empty() {
            // an empty ciphertext has no byte encoding; see the "ser" checks
        } else {
            ct = via_bytes(v, "ciphertext", &ct).unwrap();
        }
    }
    let sat = f.eval(&|a| attrs.contains(&a));
    check_decrypt(v, &spec.text(), &ct, &key, &msg, sat);
}

// -- policies -------------------------------------------------------------
/// reference model of the policy, independent of the implementation
#[derive(Clone, Default)]
pub struct RefPolicy {
    pub max: u32,
    pub last: u32,
    /// axis -> (attributes, hierarchical)
    pub axes: BTreeMap<String, (Vec<String>, bool)>,
    pub values: BTreeMap<(String, String), Vec<u32>>,
}

/// "A!:a1,a2,a3/B:b1,b2" (`!` = hierarchical)
pub fn parse_policy(text: &str, max: u32) -> (Policy, RefPolicy) {
    let mut p = Policy::new(max);
    let mut r = RefPolicy { max, ..RefPolicy::default() };
    for ax in text.split('/') {
        let (name, list) = ax.split_once(':').unwrap();
        let (name, h) = match name.strip_suffix('!') {
            Some(n) => (n, true),
            None => (name, false),
        };
        let attrs: Vec<&str> = list.split(',').collect();
        p.add_axis(&PolicyAxis::new(name, &attrs, h)).expect("axis");
        for a in &attrs {
            r.last += 1;
            r.values.insert((name.to_string(), (*a).to_string()), vec![r.last]);
        }
        r.axes.insert(
            name.to_string(),
            (attrs.iter().map(|s| (*s).to_string()).collect(), h),
        );
    }
    (p, r)
}

pub fn attr(s: &str) -> Attribute {
    let (a, b) = s.split_once('.').unwrap();
    Attribute::new(a, b)
}

pub fn ref_rotate(r: &mut RefPolicy, s: &str) {
    let (a, b) = s.split_once('.').unwrap();
    r.last += 1;
    let l = r.last;
    r.values.get_mut(&(a.to_string(), b.to_string())).unwrap().push(l);
}

/// values that satisfy one policy attribute at this point of the history
pub fn ref_values(r: &RefPolicy, s: &str) -> Vec<u32> {
    let (a, b) = s.split_once('.').unwrap();
    let (list, h) = &r.axes[a];
    let pos = list.iter().position(|x| x == b).unwrap();
    let mut out = Vec::new();
    let lo = if *h { 0 } else { pos };
    for at in &list[lo..=pos] {
        out.extend(&r.values[&(a.to_string(), at.clone())]);
    }
    out
}

pub fn ref_current(r: &RefPolicy, s: &str) -> u32 {
    let (a, b) = s.split_once('.').unwrap();
    *r.values[&(a.to_string(), b.to_string())].last().unwrap()
}

/// access policy over attribute names: F over indices into `names`
pub fn access(f: &F, names: &[String]) -> AccessPolicy {
    match f {
        F::L(i) => AccessPolicy::Attr(attr(&names[*i as usize])),
        F::And(a, b) => AccessPolicy::And(Box::new(access(a, names)), Box::new(access(b, names))),
        F::Or(a, b) => AccessPolicy::Or(Box::new(access(a, names)), Box::new(access(b, names))),
    }
}

fn names(spec: &Spec) -> Vec<String> {
    spec.get("names")
        .split(',')
        .map(ToString::to_string)
        .collect()
}

/// history: `hist` = events separated by '+': "K" issue key, "E" encrypt,
/// "R<axis.attr>" rotate, "D" re-randomised key, "P!<formula>" (or ~, ?) delegate the last key.  `f` is the access policy over `names` ("all" = All),
/// `ct` the indices of the ciphertext attributes.
fn pol(spec: &Spec, v: &mut Vec<Verdict>) {
    let max: u32 = spec.get("max").parse().unwrap();
    let (mut p, mut r) = parse_policy(spec.get("pol"), max);
    let names = names(spec);
    let all = spec.get("f") == "all";
    let f = if all { F::L(0) } else { F::parse(spec.get("f")) };
    let cts: Vec<String> = spec.nums("ct").iter().map(|i| names[*i as usize].clone()).collect();
    let e = Engine::<S>::new();
    let (msk, mpk, mdk) = e.generate_master_key(&p).expect("master key");
    // (key, its formula, what it opens: leaf -> accepted values)
    let mut keys: Vec<(Usk, F, HashMap<u32, Vec<u32>>, String)> = Vec::new();
    let mut ciphers: Vec<(Ct, Gt, Vec<u32>, String)> = Vec::new();
    for (n, ev) in spec.get("hist").split('+').enumerate() {
        if let Some(a) = ev.strip_prefix('R') {
            p.rotate(&attr(a)).expect("rotate");
            ref_rotate(&mut r, a);
        } else if ev == "J" {
            // policy goes through its JSON form
            let j = serde_json::to_string(&p).expect("json");
            p = serde_json::from_str(&j).expect("json");
        } else if ev == "K" || ev == "D" {
            let ap = if all { AccessPolicy::All } else { access(&f, &names) };
            let mut open = HashMap::new();
            let mut every: Vec<u32> = Vec::new();
            if all {
                let x: Vec<u32> = r.values.values().flatten().copied().collect();
                open.insert(0, x.clone());
                every.extend(x);
            } else {
                for l in f.leaves() {
                    let x = ref_values(&r, &names[l as usize]);
                    every.extend(&x);
                    open.insert(l, x);
                }
            }
            let distinct: BTreeSet<u32> = every.iter().copied().collect();
            match e.generate_user_key(&p, &msk, &ap) {
                Ok(k) => {
                    must(v, "key generated", true);
                    let k = if ev == "D" {
                        e.delegate_user_key(&p, &mdk, &k, &AccessPolicy::All)
                            .expect("randomise")
                    } else {
                        k
                    };
                    keys.push((k, f.clone(), open, format!("key#{n}")));
                }
                Err(err) => {
                    // a policy naming the same value twice is documented as
                    // unsupported; anything else must give a key
                    must(
                        v,
                        format!("{}: key generation refused: {err}", spec.text()),
                        distinct.len() != every.len(),
                    );
                }
            }
        } else if let Some(g) = ev.strip_prefix('P') {
            // a documented restriction (!) must be granted; of the others, some (~) may be
            let (sure, wild, g) = (g.starts_with('!'), g.starts_with('?'), F::parse(&g[1..]));
            let Some((k, _, old, kn)) = keys.last().cloned() else { continue };
            let open: HashMap<u32, Vec<u32>> = g.leaves().iter().map(|l| (*l, ref_values(&r, &names[*l as usize]))).collect();
            let wider = open.values().flatten().any(|x| !old.values().flatten().any(|y| x == y));
            match e.delegate_user_key(&p, &mdk, &k, &access(&g, &names)) {
                Ok(k) => {
                    must(v, format!("{}: delegation to what the parent does not have refused", spec.text()), !wider);
                    if !wild {
                        keys.push((k, g, open, format!("{kn} delegated#{n}")));
                    }
                }
                Err(err) => must(v, format!("{}: delegation refused: {err}", spec.text()), wider || !sure),
            }
        } else if ev == "E" {
            let at: Vec<Attribute> = cts.iter().map(|s| attr(s)).collect();
            let m = e.random_message().expect("message");
            match e.encrypt(&p, &mpk, &at, &m) {
                Ok(c) => {
                    let vals = cts.iter().map(|s| ref_current(&r, s)).collect();
                    ciphers.push((c, m, vals, format!("ct#{n}")));
                }
                Err(err) => must(v, format!("{}: encryption refused: {err}", spec.text()), false),
            }
        } else {
            panic!("bad event {ev}");
        }
    }
    for (k, f, open, kn) in &keys {
        for (c, m, vals, cn) in &ciphers {
            let sat = f.eval(&|l| open[&l].iter().any(|x| vals.contains(x)));
            check_decrypt(v, &format!("{} {kn} {cn}", spec.text()), c, k, m, sat);
        }
    }
}

// -- bindings ---------------------------------------------------------------
/// like `pol` (events K, D<index of an attribute of a disjunction: delegate to it>, E,
/// R<axis.attr>[,<axis.attr>..]), but the policy (Python only), the keys and the rotations come from
/// the binding `via` = c | py | js, and the core encrypts and decrypts
#[cfg(feature = "bindings")]
fn via_binding(spec: &Spec, v: &mut Vec<Verdict>) {
    let via = spec.get("via");
    let max: u32 = spec.get("max").parse().unwrap();
    let (mut p, mut r) = parse_policy(spec.get("pol"), max);
    if via == "py" {
        let axes: Vec<(String, Vec<String>, bool)> = spec
            .get("pol")
            .split('/')
            .map(|ax| {
                let (n, l) = ax.split_once(':').unwrap();
                let h = n.ends_with('!');
                (n.trim_end_matches('!').to_string(), l.split(',').map(ToString::to_string).collect(), h)
            })
            .collect();
        match bind::policy(&axes, max) {
            Ok(q) => p = q,
            Err(e) => return must(v, format!("{}: policy refused: {e}", spec.text()), false),
        }
    }
    let names = names(spec);
    let f = F::parse(spec.get("f"));
    let ap = access(&f, &names);
    let cts: Vec<String> = spec.nums("ct").iter().map(|i| names[*i as usize].clone()).collect();
    let at: Vec<Attribute> = cts.iter().map(|s| attr(s)).collect();
    let e = Engine::<S>::new();
    let (msk, mpk, mdk) = match bind::master(via, &p) {
        Ok(k) => k,
        Err(e) => return must(v, format!("{}: master keys refused: {e}", spec.text()), false),
    };
    // keys: formula, values accepted when issued
    let mut keys: Vec<(Usk, F, HashMap<u32, Vec<u32>>, String)> = Vec::new();
    let mut ciphers: Vec<(Ct, Gt, Vec<u32>, String)> = Vec::new();
    for (n, ev) in spec.get("hist").split('+').enumerate() {
        if let Some(a) = ev.strip_prefix('R') {
            let l: Vec<&str> = a.split('&').collect();
            match bind::rotate(via, &p, &l) {
                Ok(q) => p = q,
                Err(e) => must(v, format!("{}: rotation refused: {e}", spec.text()), false),
            }
            l.iter().for_each(|a| ref_rotate(&mut r, a));
        } else if ev == "K" {
            let open: HashMap<u32, Vec<u32>> = f.leaves().iter().map(|l| (*l, ref_values(&r, &names[*l as usize]))).collect();
            match bind::user(via, &p, &msk, &ap) {
                Ok(k) => keys.push((k, f.clone(), open, format!("key#{n}"))),
                Err(err) => must(v, format!("{}: key generation refused: {err}", spec.text()), false),
            }
        } else if let Some(i) = ev.strip_prefix('D') {
            let g = F::L(i.parse().unwrap());
            let (k, _, open, kn) = keys.last().expect("key").clone();
            match bind::delegate(&p, mdk.as_ref().expect("delegation key"), &k, &access(&g, &names)) {
                Ok(k) => keys.push((k, g, open, format!("{kn} delegated#{n}"))),
                Err(err) => must(v, format!("{}: delegation refused: {err}", spec.text()), false),
            }
        } else {
            let m = e.random_message().expect("message");
            match e.encrypt(&p, &mpk, &at, &m) {
                Ok(c) => ciphers.push((c, m, cts.iter().map(|s| ref_current(&r, s)).collect(), format!("ct#{n}"))),
                Err(err) => must(v, format!("{}: encryption refused: {err}", spec.text()), false),
            }
        }
    }
    for (k, f, open, kn) in &keys {
        for (c, m, vals, cn) in &ciphers {
            let sat = f.eval(&|l| open[&l].iter().any(|x| vals.contains(x)));
            check_decrypt(v, &format!("{} {kn} {cn}", spec.text()), c, k, m, sat);
        }
    }
}

// -- delegation -----------------------------------------------------------
/// `f` parent formula, `chain` = formulas separated by '>' ("R" = re-randomise),
/// `attrs` ciphertext attributes, `expect` = refuse | semantics
fn del(spec: &Spec, v: &mut Vec<Verdict>) {
    let f = F::parse(spec.get("f"));
    let attrs = spec.nums("attrs");
    let size = spec.get("size").parse::<usize>().unwrap();
    let s = S::default();
    let (msk, mpk, mut mdk) = AbeScheme::generate_master_key(&s, size).expect("master key");
    let parent = AbeScheme::key_generation(&s, &msp(&f), &msk).expect("user key");
    let mut key = parent.clone();
    let mut cur = f.clone();
    if spec.get("route") == "bytes" {
        mdk = via_bytes(v, "delegation key", &mdk).unwrap();
        key = via_bytes(v, "user key", &key).unwrap();
    }
    for step in spec.get("chain").split('>') {
        let r = if step == "R" {
            AbeScheme::key_delegation(&s, &None, &key, &mdk)
        } else {
            let g = F::parse(step);
            let r = AbeScheme::key_delegation(&s, &Some(msp(&g)), &key, &mdk);
            let known = cur.leaves();
            if g.leaves().iter().any(|l| !known.contains(l)) {
                must(
                    v,
                    format!("{}: delegation to a new attribute refused", spec.text()),
                    r.is_err(),
                );
                return;
            }
            cur = g;
            r
        };
        match r {
            Ok(k) => {
                // the issued key must be new material
                key = k;
                if spec.get("route") == "bytes" {
                    key = via_bytes(v, "delegated key", &key).unwrap();
                }
            }
            Err(e) => {
                must(v, format!("{}: delegation refused: {e}", spec.text()), false);
                return;
            }
        }
    }
    let msg = s.generate_random_plaintext().expect("message");
    let ct = AbeScheme::encrypt(&s, &msg, &attrs, &mpk).expect("encrypt");
    let sat = cur.eval(&|a| attrs.contains(&a));
    check_decrypt(v, &spec.text(), &ct, &key, &msg, sat);
    // the parent key still works
    let psat = f.eval(&|a| attrs.contains(&a));
    check_decrypt(v, &format!("{} (parent)", spec.text()), &ct, &parent, &msg, psat);
}

// -- capacity -------------------------------------------------------------
/// one axis of `n` attributes, room for `max`, `rot` rotations of attribute `i`:
/// every value the policy hands out must be usable for keys and encryption
fn cap(spec: &Spec, v: &mut Vec<Verdict>) {
    let max: u32 = spec.get("max").parse().unwrap();
    let n: u32 = spec.get("n").parse().unwrap();
    let list: Vec<String> = (0..n).map(|i| format!("a{i}")).collect();
    let text = format!("A:{}", list.join(","));
    let (mut p, mut r) = parse_policy(&text, max);
    let e = Engine::<S>::new();
    let (msk, mpk, mdk) = e.generate_master_key(&p).expect("master key");
    let late = spec.get("late") == "1";
    for i in spec.nums("rot") {
        let name = format!("A.a{i}");
        p.rotate(&attr(&name)).expect("rotate within capacity");
        ref_rotate(&mut r, &name);
    }
    let who: Vec<u32> = match spec.get("who") {
        "" => (0..n).collect(),
        x => parse_nums(x),
    };
    let msg = e.random_message().expect("message");
    let at: Vec<Attribute> = if late {
        list.iter().map(|a| Attribute::new("A", a)).collect()
    } else {
        Vec::new()
    };
    for i in who {
        let name = format!("a{i}");
        let ap = AccessPolicy::Attr(Attribute::new("A", &name));
        let one = [Attribute::new("A", &name)];
        let using: &[Attribute] = if late { &at } else { &one };
        let ct = match e.encrypt(&p, &mpk, using, &msg) {
            Ok(c) => c,
            Err(err) => {
                must(v, format!("{}: encrypting for {name} refused: {err}", spec.text()), false);
                continue;
            }
        };
        match e.generate_user_key(&p, &msk, &ap) {
            Ok(k) => {
                check_decrypt(v, &format!("{} {name}", spec.text()), &ct, &k, &msg, true);
                match e.delegate_user_key(&p, &mdk, &k, &ap) {
                    Ok(k2) => check_decrypt(
                        v,
                        &format!("{} delegated {name}", spec.text()),
                        &ct,
                        &k2,
                        &msg,
                        true,
                    ),
                    Err(err) => must(
                        v,
                        format!("{}: delegating key for {name} refused: {err}", spec.text()),
                        false,
                    ),
                }
            }
            Err(err) => must(
                v,
                format!("{}: key for {name} refused: {err}", spec.text()),
                false,
            ),
        }
    }
}

// -- symmetric key encapsulation --------------------------------------------
fn sk(spec: &Spec, v: &mut Vec<Verdict>) {
    let len: usize = spec.get("len").parse().unwrap();
    let len2: usize = spec.get("len2").parse().unwrap();
    let (p, r) = parse_policy("A:a,b,c", 6);
    let names = ["A.a", "A.b", "A.c"].map(String::from).to_vec();
    let f = F::parse(spec.get("f"));
    let e = Engine::<S>::new();
    let (msk, mpk, _) = e.generate_master_key(&p).expect("master key");
    let key = e
        .generate_user_key(&p, &msk, &access(&f, &names))
        .expect("user key");
    let at: Vec<Attribute> = spec.nums("ct").iter().map(|i| attr(&names[*i as usize])).collect();
    let (k1, enc1) = e.generate_symmetric_key(&p, &mpk, &at, len).expect("encapsulate");
    let (k2, enc2) = e.generate_symmetric_key(&p, &mpk, &at, len).expect("encapsulate");
    must(v, format!("{}: key length", spec.text()), k1.len() == len && k2.len() == len);
    must(
        v,
        format!("{}: announced ciphertext length", spec.text()),
        enc1.len() == S::ciphertext_len(at.len()),
    );
    if len >= 8 {
        must(v, format!("{}: two encapsulations give different keys", spec.text()), k1 != k2);
    }
    must(v, format!("{}: two encapsulations differ", spec.text()), enc1 != enc2);
    let vals: Vec<u32> = spec
        .nums("ct")
        .iter()
        .map(|i| ref_current(&r, &names[*i as usize]))
        .collect();
    let sat = f.eval(&|l| {
        ref_values(&r, &names[l as usize])
            .iter()
            .any(|x| vals.contains(x))
    });
    for (k, enc) in [(&k1, &enc1), (&k2, &enc2)] {
        match e.decrypt_symmetric_key(&key, enc, len) {
            Ok(got) => {
                must(v, format!("{}: only an authorised key opens", spec.text()), sat);
                must(v, format!("{}: recovered key = original key", spec.text()), &got == k);
            }
            Err(_) => must(v, format!("{}: authorised key opens", spec.text()), !sat),
        }
        if sat {
            // a different requested length yields a prefix-consistent key
            let got = e.decrypt_symmetric_key(&key, enc, len2).expect("decapsulate");
            let n = len.min(len2);
            must(
                v,
                format!("{}: derived key has the requested length", spec.text()),
                got.len() == len2 && got[..n] == k[..n],
            );
        }
    }
}

// -- mismatched / out of range material ---------------------------------------
/// every operation with attributes the key material does not cover must refuse
/// with an error (a panic is reported by the caller)
fn mis(spec: &Spec, v: &mut Vec<Verdict>) {
    let size = spec.get("size").parse::<usize>().unwrap();
    let small = spec.get("small").parse::<usize>().unwrap();
    let f = F::parse(spec.get("f"));
    let attrs = spec.nums("attrs");
    let s = S::default();
    let (msk, mpk, mdk) = AbeScheme::generate_master_key(&s, size).expect("master key");
    let (_, mpk2, mdk2) = AbeScheme::generate_master_key(&s, small).expect("master key");
    let msg = s.generate_random_plaintext().expect("message");
    let m = msp(&f);
    let in_range = |n: usize| f.leaves().iter().all(|l| (*l as usize) < n);
    for (n, pk, name) in [(size, &mpk, "full"), (small, &mpk2, "small")] {
        let r = AbeScheme::encrypt(&s, &msg, &attrs, pk);
        let fits = attrs.iter().all(|a| (*a as usize) < n);
        if !fits {
            must(
                v,
                format!("{}: encryption outside the {name} public key refused", spec.text()),
                r.is_err(),
            );
        }
    }
    match AbeScheme::key_generation(&s, &m, &msk) {
        Ok(k) => {
            must(v, format!("{}: key generation within range only", spec.text()), in_range(size));
            for (n, dk, name) in [(size, &mdk, "full"), (small, &mdk2, "small")] {
                let a = AbeScheme::key_delegation(&s, &None, &k, dk);
                let b = AbeScheme::key_delegation(&s, &Some(msp(&f)), &k, dk);
                if !in_range(n) {
                    must(
                        v,
                        format!("{}: delegation outside the {name} key refused", spec.text()),
                        a.is_err() && b.is_err(),
                    );
                }
            }
            if !attrs.is_empty() && attrs.iter().all(|a| (*a as usize) < size) {
                if let Ok(ct) = AbeScheme::encrypt(&s, &msg, &attrs, &mpk) {
                    let sat = f.eval(&|a| attrs.contains(&a));
                    check_decrypt(v, &spec.text(), &ct, &k, &msg, sat);
                }
            }
        }
        Err(_) => must(
            v,
            format!("{}: key generation refused only out of range", spec.text()),
            !in_range(size),
        ),
    }
}

// -- ownership: a key only opens ciphertexts of its own authority ---------------
fn own(spec: &Spec, v: &mut Vec<Verdict>) {
    let f = F::parse(spec.get("f"));
    let attrs = f.leaves();
    let size = attrs.iter().max().unwrap() + 2;
    let s = S::default();
    let (msk1, mpk1, _) = AbeScheme::generate_master_key(&s, size as usize).expect("master key");
    let (_, mpk2, _) = AbeScheme::generate_master_key(&s, size as usize).expect("master key");
    let k = AbeScheme::key_generation(&s, &msp(&f), &msk1).expect("key");
    let msg = s.generate_random_plaintext().expect("message");
    let c1 = AbeScheme::encrypt(&s, &msg, &attrs, &mpk1).expect("encrypt");
    let c2 = AbeScheme::encrypt(&s, &msg, &attrs, &mpk2).expect("encrypt");
    check_decrypt(v, &format!("{} own", spec.text()), &c1, &k, &msg, true);
    if let Ok(Some(x)) = AbeScheme::decrypt(&s, &c2, &k) {
        must(
            v,
            format!("{}: foreign authority's ciphertext not opened", spec.text()),
            x != msg,
        );
    }
}

// -- serialisation ---------------------------------------------------------------
fn rt<T: AsBytes>(v: &mut Vec<Verdict>, what: &str, x: &T, want_len: usize) -> Option<T> {
    let b = match x.try_into_bytes() {
        Ok(b) => b,
        Err(e) => {
            must(v, format!("{what}: serialisation failed: {e}"), false);
            return None;
        }
    };
    must(v, format!("{what}: announced length"), x.len_bytes() == b.len());
    must(
        v,
        format!("{what}: length {} = documented length {want_len}", b.len()),
        b.len() == want_len,
    );
    match T::try_from_bytes(&b) {
        Ok(y) => {
            must(
                v,
                format!("{what}: same bytes after a round trip"),
                y.try_into_bytes().ok().as_ref() == Some(&b),
            );
            // every strict prefix must be refused, never misread
            for cut in [0, 1, 3, 4, 5, b.len() / 2, b.len() - 1] {
                // (no byte at all reads as the empty list)
                if cut < b.len() && (cut > 0 || what.ends_with("user key")) {
                    must(
                        v,
                        format!("{what}: truncation to {cut} bytes refused"),
                        T::try_from_bytes(&b[..cut]).is_err(),
                    );
                }
            }
            Some(y)
        }
        Err(e) => {
            must(v, format!("{what}: own serialisation rejected: {e}"), false);
            None
        }
    }
}

fn ser(spec: &Spec, v: &mut Vec<Verdict>) {
    let f = F::parse(spec.get("f"));
    let attrs = spec.nums("attrs");
    let n = spec.get("size").parse::<usize>().unwrap();
    let t = spec.text();
    let s = S::default();
    let (msk, mpk, mdk) = AbeScheme::generate_master_key(&s, n).expect("master key");
    if let Some(x) = rt(v, &format!("{t}: master private key"), &msk, 4 + 32 * n + 32) {
        must(v, format!("{t}: master private key equal"), x == msk);
    }
    if let Some(x) = rt(v, &format!("{t}: master public key"), &mpk, 4 + 48 * n + 288) {
        must(v, format!("{t}: master public key equal"), x == mpk);
    }
    if let Some(x) = rt(v, &format!("{t}: delegation key"), &mdk, 4 + 96 * n) {
        must(v, format!("{t}: delegation key equal"), x == mdk);
    }
    let m = msp(&f);
    let k = AbeScheme::key_generation(&s, &m, &msk).expect("user key");
    let (r, c) = (m.rows(), m.cols());
    if let Some(x) = rt(v, &format!("{t}: span program"), &m, 8 + 4 * r + 4 * r * c) {
        must(v, format!("{t}: span program equal"), x == m);
    }
    if let Some(x) = rt(
        v,
        &format!("{t}: user key"),
        &k,
        4 + 96 * r + 8 + 4 * r + 32 * r * c,
    ) {
        must(v, format!("{t}: user key equal"), x == k);
    }
    let msg = s.generate_random_plaintext().expect("message");
    if let Some(x) = rt(v, &format!("{t}: plaintext"), &msg, 288) {
        v.push(Verdict::Eq { what: format!("{t}: plaintext equal"), got: x, want: msg });
    }
    let ct = AbeScheme::encrypt(&s, &msg, &attrs, &mpk).expect("encrypt");
    if attrs.is_empty() {
        return;
    }
    let want = S::ciphertext_len(attrs.len());
    must(v, format!("{t}: documented ciphertext length"), want == 4 + 4 * attrs.len() + 4 + 48 * attrs.len() + 288);
    if let Some(x) = rt(v, &format!("{t}: ciphertext"), &ct, want) {
        let sat = f.eval(&|a| attrs.contains(&a));
        check_decrypt(v, &format!("{t}: ciphertext after a round trip"), &x, &k, &msg, sat);
    }
}

/// objects of `n` parts (the same part again and again), written in the
/// documented layout: read back, written again and used
fn wide(spec: &Spec, v: &mut Vec<Verdict>) {
    let n = spec.get("n").parse::<usize>().unwrap();
    let t = spec.text();
    let s = S::default();
    let count = (n as u32).to_be_bytes().to_vec();
    let rows: Vec<u8> = (0..n as u32).flat_map(|i| i.to_be_bytes()).collect();
    let (msk, mpk, mdk) = AbeScheme::generate_master_key(&s, 2).expect("master key");
    let k = AbeScheme::key_generation(&s, &msp(&F::L(1)), &msk).expect("user key");
    let msg = s.generate_random_plaintext().expect("message");
    let c = AbeScheme::encrypt(&s, &msg, &[1], &mpk).expect("encrypt");
    let (msk, mpk, mdk) = (msk.try_into_bytes().unwrap(), mpk.try_into_bytes().unwrap(), mdk.try_into_bytes().unwrap());
    let (kb, cb) = (k.try_into_bytes().unwrap(), c.try_into_bytes().unwrap());
    fn read<T: AsBytes>(v: &mut Vec<Verdict>, what: String, b: &[u8]) -> Option<T> {
        let x = match T::try_from_bytes(b) {
            Ok(x) => x,
            Err(e) => {
                must(v, format!("{what} refused: {e}"), false);
                return None;
            }
        };
        let x = rt(v, &what, &x, b.len())?;
        must(v, format!("{what}: same bytes"), x.try_into_bytes().ok().as_deref() == Some(b));
        Some(x)
    }
    let b = [&count[..], &msk[36..68].repeat(n), &msk[68..]].concat();
    let msk: Option<<S as AbeScheme>::MasterPrivateKey> = read(v, format!("{t}: master private key"), &b);
    let b = [&count[..], &mpk[52..100].repeat(n), &mpk[100..]].concat();
    let mpk: Option<<S as AbeScheme>::MasterPublicKey> = read(v, format!("{t}: master public key"), &b);
    let b = [&count[..], &mdk[100..196].repeat(n)].concat();
    let mdk: Option<<S as AbeScheme>::MasterPublicDelegationKey> = read(v, format!("{t}: delegation key"), &b);
    let b = [&count[..], &kb[4..100].repeat(n), &count, &kb[104..108], &rows, &kb[112..].repeat(n)].concat();
    let key: Option<Usk> = read(v, format!("{t}: user key"), &b);
    let b = [&count[..], &rows, &count, &cb[12..60].repeat(n), &cb[60..]].concat();
    let ct: Option<<S as AbeScheme>::CipherText> = read(v, format!("{t}: ciphertext"), &b);
    let b = [&count[..], &1_u32.to_be_bytes(), &rows, &1_i32.to_be_bytes().repeat(n)].concat();
    let _: Option<MonotoneSpanProgram<i32>> = read(v, format!("{t}: span program"), &b);
    let (Some(msk), Some(mpk), Some(mdk), Some(key), Some(ct)) = (msk, mpk, mdk, key, ct) else {
        return;
    };
    // what was read works
    check_decrypt(v, &format!("{t}: ciphertext"), &ct, &k, &msg, true);
    let last = n as u32 - 1;
    let c = AbeScheme::encrypt(&s, &msg, &[last], &mpk).expect("encrypt");
    check_decrypt(v, &format!("{t}: last attribute"), &c, &key, &msg, true);
    let k = AbeScheme::key_generation(&s, &msp(&F::L(last)), &msk).expect("user key");
    check_decrypt(v, &format!("{t}: key for the last attribute"), &c, &k, &msg, true);
    let m = Some(msp(&F::L(last)));
    let k = AbeScheme::key_delegation(&s, &m, &key, &mdk).expect("delegation");
    check_decrypt(v, &format!("{t}: delegated key for the last attribute"), &c, &k, &msg, true);
}

// -- arbitrary span programs -----------------------------------------------------
/// `rows` x `cols` matrix `m` (row major; "?" = arbitrary field element): the
/// linear solver must be right, and a key for that span program must open a
/// ciphertext exactly when the rows span (1, .., 1)
fn span(spec: &Spec, v: &mut Vec<Verdict>) {
    use cosmian_abe_gpsw::core::bilinear_map::bls12_381::Scalar as Abe;
    use cosmian_bls12_381::{G2Projective, Scalar};
    use ff::Field;
    use group::Group;
    let rows: usize = spec.get("rows").parse().unwrap();
    let cols: usize = spec.get("cols").parse().unwrap();
    let flat: Vec<Scalar> = spec.get("m").split(',').map(crate::entry).collect();
    assert_eq!(flat.len(), rows * cols);
    let m: Vec<Vec<Scalar>> = flat.chunks(cols).map(<[Scalar]>::to_vec).collect();
    let wrap = |x: &Scalar| {
        let mut a = Abe::from(0);
        *a = *x;
        a
    };
    let mut mat: Vec<Vec<Abe>> = m.iter().map(|r| r.iter().map(wrap).collect()).collect();
    let gt = <Gt as Group>::generator();
    match S::span_coefs(&mut mat) {
        Ok(Some(alpha)) => {
            must(v, "one coefficient per row", alpha.len() == rows);
            for j in 0..cols {
                let mut acc = Scalar::zero();
                for i in 0..rows {
                    acc = acc + *alpha[i] * m[i][j];
                }
                v.push(Verdict::Eq {
                    what: format!("{}: the coefficients span column {j}", spec.text()),
                    got: gt * acc,
                    want: gt,
                });
            }
        }
        Ok(None) => v.push(Verdict::NoSol {
            what: format!("{}: span_coefs reports no solution", spec.text()),
            rows: m.clone(),
        }),
        Err(e) => must(v, format!("{}: span_coefs fails: {e}", spec.text()), false),
    }
    if spec.get("key") != "1" {
        return;
    }
    // a user key for this span program, issued by an independent key generator
    let s = S::default();
    let (msk, mpk, _) = AbeScheme::generate_master_key(&s, rows + 2).expect("master key");
    let b = msk.try_into_bytes().unwrap();
    let n = be32(&b);
    let sc = |at: usize| -> Scalar {
        let x: [u8; 32] = b[at..at + 32].try_into().unwrap();
        Scalar::from_bytes(&x).unwrap()
    };
    let t: Vec<Scalar> = (0..n).map(|i| sc(4 + 32 * i)).collect();
    let y = sc(4 + 32 * n);
    let mut rng = rand_hc::Hc128Rng::from_entropy();
    let mut u: Vec<Scalar> = (1..cols).map(|_| <Scalar as Field>::random(&mut rng)).collect();
    let sum = u.iter().fold(Scalar::zero(), |a, x| a + *x);
    u.push(y - sum);
    let mut kb: Vec<u8> = (rows as u32).to_be_bytes().to_vec();
    for (i, r) in m.iter().enumerate() {
        let dot = r.iter().zip(&u).fold(Scalar::zero(), |a, (x, w)| a + *x * *w);
        let d = G2Projective::generator() * (dot * t[i + 1].invert().unwrap());
        kb.extend(G2Affine::from(d).to_compressed());
    }
    kb.extend((rows as u32).to_be_bytes());
    kb.extend((cols as u32).to_be_bytes());
    for i in 0..rows {
        kb.extend((i as u32 + 1).to_be_bytes());
    }
    for x in &flat {
        kb.extend(x.to_bytes());
    }
    let key = Usk::try_from_bytes(&kb).expect("key bytes");
    let attrs: Vec<u32> = spec.nums("attrs");
    let msg = s.generate_random_plaintext().expect("message");
    let ct = AbeScheme::encrypt(&s, &msg, &attrs, &mpk).expect("encrypt");
    match AbeScheme::decrypt(&s, &ct, &key) {
        Ok(Some(got)) => v.push(Verdict::Eq {
            what: format!("{}: decrypted message", spec.text()),
            got,
            want: msg,
        }),
        Ok(None) => v.push(Verdict::NoSol {
            what: format!("{}: decryption refused", spec.text()),
            rows: attrs
                .iter()
                .filter(|a| **a >= 1 && **a as usize <= rows)
                .map(|a| m[*a as usize - 1].clone())
                .collect(),
        }),
        Err(e) => must(
            v,
            format!("{}: decryption fails: {e}", spec.text()),
            !attrs.iter().any(|a| *a >= 1 && *a as usize <= rows),
        ),
    }
}

// ------------------------------------------------------------------ adversary
/// everything a coalition sees, plus what it must not learn
pub struct World {
    /// elements on the key side / on the ciphertext side / in the target group
    pub d: Vec<G2Affine>,
    pub e: Vec<G1Affine>,
    pub gt: Vec<Gt>,
    /// which ciphertext-side elements only exist if attribute `a` is attached
    /// to ciphertext `c`
    pub guard: Vec<Option<(usize, u32)>>,
    /// the plaintexts
    pub targets: Vec<Gt>,
    /// access formula of every key held (None: no key)
    pub held: Vec<F>,
    pub universe: Vec<u32>,
}

/// `keys` = list "formula" or "formula>delegated" or "formula>R", separated by
/// '+'; `n` attributes 0..n; `cts` number of ciphertexts
pub fn world(spec: &Spec) -> World {
    let n: u32 = spec.get("n").parse().unwrap();
    let cts: usize = spec.get("cts").parse().unwrap();
    let s = S::default();
    let (msk, mpk, mdk) = AbeScheme::generate_master_key(&s, n as usize + 1).expect("master key");
    let universe: Vec<u32> = (0..n).collect();
    let mut w = World {
        d: vec![G2Affine::generator()],
        e: vec![G1Affine::generator()],
        gt: Vec::new(),
        guard: vec![None],
        targets: Vec::new(),
        held: Vec::new(),
        universe: universe.clone(),
    };
    let pk = mpk.try_into_bytes().unwrap();
    let ts = g1_list(&pk);
    w.gt.push(gt_at(&pk, 4 + 48 * ts.len()));
    for t in ts {
        w.e.push(t);
        w.guard.push(None);
    }
    w.d.extend(g2_list(&mdk.try_into_bytes().unwrap()));
    for k in spec.get("keys").split('+').filter(|x| !x.is_empty()) {
        let mut steps = k.split('>');
        let f = F::parse(steps.next().unwrap());
        let mut key = AbeScheme::key_generation(&s, &msp(&f), &msk).expect("key");
        let mut cur = f;
        let only_last = spec.get("only") == "last";
        let mut material = g2_list(&key.try_into_bytes().unwrap());
        let mut holds = vec![cur.clone()];
        for st in steps {
            key = if st == "R" {
                AbeScheme::key_delegation(&s, &None, &key, &mdk).expect("delegate")
            } else {
                cur = F::parse(st);
                AbeScheme::key_delegation(&s, &Some(msp(&cur)), &key, &mdk).expect("delegate")
            };
            let m = g2_list(&key.try_into_bytes().unwrap());
            if only_last {
                material = m;
                holds = vec![cur.clone()];
            } else {
                material.extend(m);
                holds.push(cur.clone());
            }
        }
        w.d.extend(material);
        w.held.extend(holds);
    }
    for c_no in 0..cts {
        let m = s.generate_random_plaintext().expect("message");
        let c = AbeScheme::encrypt(&s, &m, &universe, &mpk).expect("encrypt");
        let b = c.try_into_bytes().unwrap();
        let g = be32(&b);
        let es = g1_list(&b[4 + 4 * g..]);
        for (i, x) in es.into_iter().enumerate() {
            w.e.push(x);
            w.guard.push(Some((c_no, universe[i])));
        }
        w.gt.push(gt_at(&b, 8 + 52 * g));
        w.targets.push(m);
    }
    w
}
