//! The text syntax of formulas.
use crate::api::*;
use cosmian_abe_gpsw::core::msp::{MonotoneSpanProgram, Node};

#[derive(PartialEq)]
enum T {
    And(Box<T>, Box<T>),
    Or(Box<T>, Box<T>),
    Leaf(u32),
}

/// F := integer [op F] | '(' F ')' [op F], op := '&' | '|'; spaces are ignored
fn formula(s: &[u8], i: &mut usize) -> Option<T> {
    let first = if *i < s.len() && s[*i].is_ascii_digit() {
        let mut v: u32 = 0;
        while *i < s.len() && s[*i].is_ascii_digit() {
            v = v.checked_mul(10)?.checked_add(u32::from(s[*i]).wrapping_sub(48))?;
            *i += 1;
        }
        T::Leaf(v)
    } else if *i < s.len() && s[*i] == b'(' {
        *i += 1;
        let f = formula(s, i)?;
        if *i >= s.len() || s[*i] != b')' {
            return None;
        }
        *i += 1;
        f
    } else {
        return None;
    };
    if *i < s.len() && s[*i] == b'&' {
        *i += 1;
        return Some(T::And(Box::new(first), Box::new(formula(s, i)?)));
    }
    if *i < s.len() && s[*i] == b'|' {
        *i += 1;
        return Some(T::Or(Box::new(first), Box::new(formula(s, i)?)));
    }
    Some(first)
}
fn read(s: &[u8]) -> Option<T> {
    let s: Vec<u8> = s.iter().copied().filter(|c| *c != b' ').collect();
    let mut i = 0;
    let f = formula(&s, &mut i)?;
    if i == s.len() {
        Some(f)
    } else {
        None
    }
}
fn eq(n: &Node, t: &T) -> bool {
    match (n, t) {
        (Node::Leaf(a), T::Leaf(b)) => a == b,
        (Node::And(a, b), T::And(c, d)) | (Node::Or(a, b), T::Or(c, d)) => eq(a, c) && eq(b, d),
        _ => false,
    }
}
fn leaves(t: &T, l: &mut Vec<u32>) {
    match t {
        T::Leaf(a) => l.push(*a),
        T::And(a, b) | T::Or(a, b) => {
            leaves(a, l);
            leaves(b, l);
        }
    }
}

fn judge(s: &[u8]) {
    let text = match std::str::from_utf8(s) {
        Ok(t) => t,
        Err(_) => return,
    };
    let want = read(s);
    let got = Node::parse(text);
    match (&want, &got) {
        (Some(t), Ok(n)) => {
            reach(1);
            check(eq(n, t), 1);
            let mut l = vec![];
            leaves(t, &mut l);
            let mut distinct = true;
            for i in 0..l.len() {
                for j in 0..i {
                    distinct &= l[i] != l[j];
                }
            }
            check(MonotoneSpanProgram::<i32>::parse(text).is_ok() == distinct, 2);
        }
        (None, Err(_)) => {
            reach(0);
        }
        (Some(_), Err(_)) => check(false, 3),
        (None, Ok(_)) => check(false, 4),
    }
    emit(want.is_some() as u64);
}

const SET: &[u8] = b" ()&|7x";

/// any `n` bytes (`full` = 1), ASCII characters (2), or characters of SET;
/// `first` > 0 fixes the first ones (to divide the work)
#[no_mangle]
pub extern "C" fn h_c11_text(n: usize, full: usize, first: usize) {
    let mut s = vec![];
    let mut plan = first;
    for _ in 0..n {
        let c: [u8; 1] = array();
        if full == 2 {
            assume(c[0] < 128);
        } else if full == 0 {
            let mut k = false;
            for x in SET {
                k |= c[0] == *x;
            }
            assume(k);
        }
        if plan > 0 {
            assume(c[0] == SET[plan % 8 - 1]);
            plan /= 8;
        }
        s.push(c[0]);
    }
    judge(&s);
}

/// numbers around the largest one
#[no_mangle]
pub extern "C" fn h_c11_number(kind: usize) {
    let pre: &[u8] = match kind {
        0 => b"",
        1 => b"42949672",
        2 => b"0000000004294967",
        3 => b"1|42949672",
        _ => b"(5)&",
    };
    let mut s = pre.to_vec();
    for _ in 0..3 {
        let c: [u8; 1] = array();
        assume(c[0] >= b'0' && c[0] <= b'9');
        s.push(c[0]);
    }
    if kind == 1 {
        // ten digits
        s.remove(8);
    }
    judge(&s);
}

fn tree(n: usize, next: &mut u32) -> T {
    if n == 1 {
        *next += 1;
        return T::Leaf(*next * 37);
    }
    let l = 1 + choice((n - 1) as u8);
    let or = flag();
    let (a, b) = (tree(l, next), tree(n - l, next));
    if or {
        T::Or(Box::new(a), Box::new(b))
    } else {
        T::And(Box::new(a), Box::new(b))
    }
}
fn write(t: &T, top: bool, tight: bool, o: &mut String) {
    match t {
        T::Leaf(v) => o.push_str(&v.to_string()),
        T::And(a, b) | T::Or(a, b) => {
            if !top {
                o.push('(');
            }
            write(a, false, tight, o);
            let c = if matches!(t, T::And(..)) { '&' } else { '|' };
            if tight {
                o.push(c);
            } else {
                o.push(' ');
                o.push(c);
                o.push_str("  ");
            }
            write(b, false, tight, o);
            if !top {
                o.push(')');
            }
        }
    }
}

/// every formula of `n` operands, written with parentheses, reads back as itself
#[no_mangle]
pub extern "C" fn h_c11_tree(n: usize) {
    let t = tree(n, &mut 0);
    let (mut s, tight) = (String::new(), flag());
    write(&t, true, tight, &mut s);
    match Node::parse(&s) {
        Ok(f) => check(eq(&f, &t), 1),
        Err(_) => check(false, 2),
    }
    reach(1);
}

/// deep and long texts: `n` nested parentheses (kinds 0, 2, 3) or operators (1)
/// around a number, operator, parenthesis or other character; 200 parentheses and 10000 operators have to be read
#[no_mangle]
pub extern "C" fn h_c11_deep(kind: usize, n: usize) {
    let or = flag();
    let c: [u8; 1] = array();
    let mut k = false;
    let cs: &[u8] = if n > 250 { b"9" } else { b"9|(x" };
    for x in cs {
        k |= c[0] == *x;
    }
    assume(k);
    let op = if or { b'|' } else { b'&' };
    let mut s = vec![];
    for i in 0..n {
        match kind {
            0 => s.push(b'('),
            1 => s.extend_from_slice(&[b'7', op]),
            2 => s.extend_from_slice(&[b'(', b'0' + (i % 10) as u8, op]),
            _ => s.extend_from_slice(&[b'1', op, b'(']),
        }
    }
    s.push(c[0]);
    if kind != 1 {
        for _ in 0..n {
            s.push(b')');
        }
    }
    let text = match std::str::from_utf8(&s) {
        Ok(t) => t,
        Err(_) => return,
    };
    let got = Node::parse(text);
    if n > 250 || (kind != 1 && n > 200) {
        // may be refused, must be answered
        reach(2);
        emit(got.is_ok() as u64);
        return;
    }
    match (read(&s), got) {
        (Some(t), Ok(f)) => {
            check(eq(&f, &t), 1);
            reach(1);
        }
        (None, Err(_)) => reach(0),
        (Some(_), Err(_)) => check(false, 2),
        (None, Ok(_)) => check(false, 3),
    }
}
