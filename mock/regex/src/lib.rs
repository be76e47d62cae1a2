//! A small backtracking matcher with the interface of `regex`.
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub enum Error {
    Syntax(String),
    CompiledTooBig(usize),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::Syntax(s) => write!(f, "{s}"),
            Error::CompiledTooBig(n) => write!(f, "too big: {n}"),
        }
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug)]
enum Re {
    Start,
    End,
    Set(Vec<(u8, u8)>, bool),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, usize, bool),
    Group(Box<Re>, usize),
}

struct Parser<'a> {
    s: &'a [u8],
    i: usize,
    groups: usize,
}

impl Parser<'_> {
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn alt(&mut self) -> Result<Re, Error> {
        let mut v = vec![self.cat()?];
        while self.peek() == Some(b'|') {
            self.i += 1;
            v.push(self.cat()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) })
    }
    fn cat(&mut self) -> Result<Re, Error> {
        let mut v = Vec::new();
        while let Some(c) = self.peek() {
            if c == b'|' || c == b')' {
                break;
            }
            let a = self.atom()?;
            v.push(self.rep(a)?);
        }
        Ok(Re::Cat(v))
    }
    fn rep(&mut self, a: Re) -> Result<Re, Error> {
        let (lo, hi) = match self.peek() {
            Some(b'*') => (0, usize::MAX),
            Some(b'+') => (1, usize::MAX),
            Some(b'?') => (0, 1),
            Some(b'{') => {
                let mut n = [0usize, 0];
                let mut k = 0;
                let mut open = false;
                self.i += 1;
                loop {
                    match self.peek() {
                        Some(d @ b'0'..=b'9') => {
                            n[k] = n[k] * 10 + (d - b'0') as usize;
                            open = false;
                        }
                        Some(b',') if k == 0 => {
                            k = 1;
                            open = true;
                        }
                        Some(b'}') => break,
                        _ => return Err(Error::Syntax("repetition".to_string())),
                    }
                    self.i += 1;
                }
                (n[0], if k == 0 { n[0] } else if open { usize::MAX } else { n[1] })
            }
            _ => return Ok(a),
        };
        self.i += 1;
        let greedy = if self.peek() == Some(b'?') {
            self.i += 1;
            false
        } else {
            true
        };
        Ok(Re::Rep(Box::new(a), lo, hi, greedy))
    }
    fn escape(c: u8) -> Result<(Vec<(u8, u8)>, bool), Error> {
        Ok(match c {
            b'd' => (vec![(b'0', b'9')], false),
            b'D' => (vec![(b'0', b'9')], true),
            b's' => (vec![(b' ', b' '), (9, 13)], false),
            b'S' => (vec![(b' ', b' '), (9, 13)], true),
            b'w' => (vec![(b'0', b'9'), (b'a', b'z'), (b'A', b'Z'), (b'_', b'_')], false),
            b'W' => (vec![(b'0', b'9'), (b'a', b'z'), (b'A', b'Z'), (b'_', b'_')], true),
            b'n' => (vec![(10, 10)], false),
            b't' => (vec![(9, 9)], false),
            c if !c.is_ascii_alphanumeric() => (vec![(c, c)], false),
            _ => panic!("pattern not handled by the stand-in for regex"),
        })
    }
    fn atom(&mut self) -> Result<Re, Error> {
        let c = self.peek().ok_or_else(|| Error::Syntax("end".to_string()))?;
        self.i += 1;
        Ok(match c {
            b'^' => Re::Start,
            b'$' => Re::End,
            b'.' => Re::Set(vec![(10, 10)], true),
            b'\\' => {
                let c = self.peek().ok_or_else(|| Error::Syntax("end".to_string()))?;
                self.i += 1;
                if c == b'A' {
                    Re::Start
                } else if c == b'z' {
                    Re::End
                } else {
                    let (v, n) = Self::escape(c)?;
                    Re::Set(v, n)
                }
            }
            b'[' => {
                let neg = self.peek() == Some(b'^');
                if neg {
                    self.i += 1;
                }
                let mut v = Vec::new();
                let mut first = true;
                loop {
                    let c = self.peek().ok_or_else(|| Error::Syntax("class".to_string()))?;
                    self.i += 1;
                    if c == b']' && !first {
                        break;
                    }
                    first = false;
                    if c == b'\\' {
                        let e = self.peek().ok_or_else(|| Error::Syntax("class".to_string()))?;
                        self.i += 1;
                        let (w, n) = Self::escape(e)?;
                        assert!(!n, "pattern not handled by the stand-in for regex");
                        v.extend(w);
                    } else if self.peek() == Some(b'-') && self.s.get(self.i + 1).is_some_and(|x| *x != b']') {
                        v.push((c, self.s[self.i + 1]));
                        self.i += 2;
                    } else {
                        v.push((c, c));
                    }
                }
                Re::Set(v, neg)
            }
            b'(' => {
                let mut id = 0;
                if self.peek() == Some(b'?') {
                    assert!(self.s.get(self.i + 1) == Some(&b':'), "pattern not handled by the stand-in for regex");
                    self.i += 2;
                } else {
                    self.groups += 1;
                    id = self.groups;
                }
                let a = self.alt()?;
                if self.peek() != Some(b')') {
                    return Err(Error::Syntax("unclosed group".to_string()));
                }
                self.i += 1;
                if id == 0 {
                    a
                } else {
                    Re::Group(Box::new(a), id)
                }
            }
            b')' | b'*' | b'+' | b'?' | b'{' => return Err(Error::Syntax("operator".to_string())),
            c => Re::Set(vec![(c, c)], false),
        })
    }
}

type Caps = Vec<Option<(usize, usize)>>;

/// matches `re` at `i`, then `k`
fn go(re: &Re, s: &[u8], i: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    match re {
        Re::Start => i == 0 && k(i, caps),
        Re::End => i == s.len() && k(i, caps),
        Re::Set(v, neg) => {
            if i >= s.len() {
                return false;
            }
            let c = s[i];
            let mut hit = false;
            for (a, b) in v {
                hit |= (c >= *a) & (c <= *b);
            }
            hit != *neg && k(i + 1, caps)
        }
        Re::Cat(v) => cat(v, s, i, caps, k),
        Re::Alt(v) => {
            for a in v {
                if go(a, s, i, caps, k) {
                    return true;
                }
            }
            false
        }
        Re::Rep(a, lo, hi, greedy) => rep(a, *lo, *hi, *greedy, s, i, 0, caps, k),
        Re::Group(a, id) => {
            let old = caps[*id];
            let ok = go(a, s, i, caps, &mut |j, c| {
                let prev = c[*id];
                c[*id] = Some((i, j));
                if k(j, c) {
                    return true;
                }
                c[*id] = prev;
                false
            });
            if !ok {
                caps[*id] = old;
            }
            ok
        }
    }
}

fn cat(v: &[Re], s: &[u8], i: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    match v.split_first() {
        None => k(i, caps),
        Some((a, rest)) => go(a, s, i, caps, &mut |j, c| cat(rest, s, j, c, k)),
    }
}

#[allow(clippy::too_many_arguments)]
fn rep(a: &Re, lo: usize, hi: usize, greedy: bool, s: &[u8], i: usize, n: usize, caps: &mut Caps,
       k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    if n >= lo && !greedy && k(i, caps) {
        return true;
    }
    if n < hi && go(a, s, i, caps, &mut |j, c| (j > i || n < lo) && rep(a, lo, hi, greedy, s, j, n + 1, c, k)) {
        return true;
    }
    n >= lo && greedy && k(i, caps)
}

#[derive(Clone, Debug)]
pub struct Regex {
    re: Re,
    groups: usize,
    text: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Match<'h> {
    s: &'h str,
    a: usize,
    b: usize,
}

impl<'h> Match<'h> {
    pub fn start(&self) -> usize {
        self.a
    }
    pub fn end(&self) -> usize {
        self.b
    }
    pub fn len(&self) -> usize {
        self.b - self.a
    }
    pub fn is_empty(&self) -> bool {
        self.a == self.b
    }
    pub fn range(&self) -> std::ops::Range<usize> {
        self.a..self.b
    }
    pub fn as_str(&self) -> &'h str {
        &self.s[self.a..self.b]
    }
}

#[derive(Debug)]
pub struct Captures<'h> {
    s: &'h str,
    caps: Caps,
}

impl<'h> Captures<'h> {
    pub fn get(&self, i: usize) -> Option<Match<'h>> {
        self.caps.get(i).copied().flatten().map(|(a, b)| Match { s: self.s, a, b })
    }
    pub fn len(&self) -> usize {
        self.caps.len()
    }
    pub fn is_empty(&self) -> bool {
        self.caps.is_empty()
    }
}

impl std::ops::Index<usize> for Captures<'_> {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        let (a, b) = self.caps[i].expect("no group");
        &self.s[a..b]
    }
}

pub struct Matches<'r, 'h> {
    re: &'r Regex,
    s: &'h str,
    at: usize,
}

impl<'h> Iterator for Matches<'_, 'h> {
    type Item = Match<'h>;
    fn next(&mut self) -> Option<Match<'h>> {
        if self.at > self.s.len() {
            return None;
        }
        let m = self.re.find_at(self.s, self.at)?;
        self.at = if m.b == m.a { m.b + 1 } else { m.b };
        Some(m)
    }
}

impl Regex {
    pub fn new(p: &str) -> Result<Regex, Error> {
        let mut q = Parser { s: p.as_bytes(), i: 0, groups: 0 };
        let re = q.alt()?;
        if q.i != p.len() {
            return Err(Error::Syntax("unopened group".to_string()));
        }
        Ok(Regex { re, groups: q.groups, text: p.to_string() })
    }
    pub fn as_str(&self) -> &str {
        &self.text
    }
    fn run(&self, s: &str, at: usize) -> Option<Caps> {
        for i in at..=s.len() {
            let mut caps: Caps = vec![None; self.groups + 1];
            let mut end = None;
            let mut out = Vec::new();
            if go(&self.re, s.as_bytes(), i, &mut caps, &mut |j, c| {
                end = Some(j);
                out = c.clone();
                true
            }) {
                out[0] = Some((i, end.unwrap()));
                return Some(out);
            }
        }
        None
    }
    pub fn is_match(&self, s: &str) -> bool {
        self.run(s, 0).is_some()
    }
    pub fn is_match_at(&self, s: &str, at: usize) -> bool {
        self.run(s, at).is_some()
    }
    pub fn captures_len(&self) -> usize {
        self.groups + 1
    }
    pub fn find<'h>(&self, s: &'h str) -> Option<Match<'h>> {
        self.find_at(s, 0)
    }
    pub fn find_at<'h>(&self, s: &'h str, at: usize) -> Option<Match<'h>> {
        let (a, b) = self.run(s, at)?[0]?;
        Some(Match { s, a, b })
    }
    pub fn find_iter<'r, 'h>(&'r self, s: &'h str) -> Matches<'r, 'h> {
        Matches { re: self, s, at: 0 }
    }
    pub fn captures<'h>(&self, s: &'h str) -> Option<Captures<'h>> {
        self.captures_at(s, 0)
    }
    pub fn captures_at<'h>(&self, s: &'h str, at: usize) -> Option<Captures<'h>> {
        Some(Captures { s, caps: self.run(s, at)? })
    }
    pub fn replace_all<'h>(&self, s: &'h str, by: &str) -> std::borrow::Cow<'h, str> {
        let mut o = String::new();
        let mut at = 0;
        for m in self.find_iter(s) {
            o.push_str(&s[at..m.a]);
            o.push_str(by);
            at = m.b;
        }
        o.push_str(&s[at..]);
        std::borrow::Cow::Owned(o)
    }
    pub fn split<'h>(&self, s: &'h str) -> std::vec::IntoIter<&'h str> {
        let mut o = Vec::new();
        let mut at = 0;
        for m in self.find_iter(s) {
            o.push(&s[at..m.a]);
            at = m.b;
        }
        o.push(&s[at..]);
        o.into_iter()
    }
}
