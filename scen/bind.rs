//! The language bindings, as the scenarios use them.
use super::{Mdk, Mpk, Msk, Usk};
use abe_policy::{AccessPolicy, Policy};
use cosmian_abe_gpsw::core::gpsw::AsBytes;
use cosmian_abe_gpsw::interfaces::ffi::generate_gpsw_keys as fk;
use cosmian_abe_gpsw::interfaces::pyo3::generate_gpsw_keys as pk;
use cosmian_abe_gpsw::interfaces::wasm_bindgen::generate_gpsw_keys as wk;
use js_sys::Uint8Array;
use std::ffi::CString;
use std::os::raw::{c_char, c_int};

fn js(b: &[u8]) -> Uint8Array {
    Uint8Array::from(b)
}
fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}
fn out(f: impl Fn(*mut c_char, *mut c_int) -> c_int) -> Result<Vec<u8>, String> {
    let mut b = vec![0u8; 100_000];
    let mut n = b.len() as c_int;
    match f(b.as_mut_ptr().cast(), &mut n) {
        0 => {
            b.truncate(n as usize);
            Ok(b)
        }
        r => Err(format!("result {r}")),
    }
}
fn two(v: &[u8]) -> Result<(Vec<u8>, Vec<u8>), String> {
    let n = u32::from_be_bytes([v[0], v[1], v[2], v[3]]) as usize;
    if v.len() < 4 + n {
        return Err("length".into());
    }
    Ok((v[4..4 + n].to_vec(), v[4 + n..].to_vec()))
}
fn read<T: AsBytes>(b: &[u8]) -> Result<T, String> {
    T::try_from_bytes(b).map_err(|e| e.to_string())
}

pub fn master(via: &str, p: &Policy) -> Result<(Msk, Mpk, Option<Mdk>), String> {
    let j = p.to_string();
    let (a, b, c) = match via {
        "c" => {
            let t = cs(&j);
            let (a, b) = two(&out(|p, l| unsafe { fk::h_generate_master_keys(p, l, t.as_ptr()) })?)?;
            (a, b, None)
        }
        "py" => {
            let k = pk::generate_master_keys(j.into_bytes()).map_err(|e| e.to_string())?;
            (k.0, k.1, Some(k.2))
        }
        _ => {
            let (a, b) = two(&wk::webassembly_generate_master_keys(js(j.as_bytes())).map_err(|e| format!("{e:?}"))?.to_vec())?;
            (a, b, None)
        }
    };
    Ok((read(&a)?, read(&b)?, c.map(|c| read(&c)).transpose()?))
}

fn text(a: &AccessPolicy) -> String {
    match a {
        AccessPolicy::Attr(a) => format!("{}::{}", a.axis, a.name),
        AccessPolicy::And(a, b) => format!("({}) && ({})", text(a), text(b)),
        AccessPolicy::Or(a, b) => format!("({}) || ({})", text(a), text(b)),
        AccessPolicy::All => "".into(),
    }
}

pub fn user(via: &str, p: &Policy, msk: &Msk, ap: &AccessPolicy) -> Result<Usk, String> {
    let m = msk.try_into_bytes().map_err(|e| e.to_string())?;
    let j = p.to_string();
    let k = match via {
        "c" => {
            let (a, t) = (cs(&serde_json::to_string(ap).unwrap()), cs(&j));
            out(|p, l| unsafe {
                fk::h_generate_user_private_key(p, l, m.as_ptr().cast(), m.len() as c_int, a.as_ptr(), t.as_ptr())
            })?
        }
        "py" => pk::generate_user_private_key(m, text(ap), j.into_bytes()).map_err(|e| e.to_string())?,
        _ => wk::webassembly_generate_user_private_key(js(&m), &text(ap), js(j.as_bytes()))
            .map_err(|e| format!("{e:?}"))?
            .to_vec(),
    };
    read(&k)
}

/// only Python delegates
pub fn delegate(p: &Policy, mdk: &Mdk, k: &Usk, ap: &AccessPolicy) -> Result<Usk, String> {
    let f = |e: cosmian_abe_gpsw::error::FormatErr| e.to_string();
    let (d, k) = (mdk.try_into_bytes().map_err(f)?, k.try_into_bytes().map_err(f)?);
    read(&pk::generate_delegated_key(d, k, text(ap), p.to_string().into_bytes()).map_err(|e| e.to_string())?)
}

/// attributes as "axis.name"
pub fn rotate(via: &str, p: &Policy, at: &[&str]) -> Result<Policy, String> {
    let at: Vec<String> = at.iter().map(|a| a.replace('.', "::")).collect();
    let (at, j) = (serde_json::to_string(&at).unwrap(), p.to_string());
    let r = match via {
        "c" => {
            let (a, t) = (cs(&at), cs(&j));
            out(|p, l| unsafe { fk::h_rotate_attributes(p, l, a.as_ptr(), t.as_ptr()) })?
        }
        "py" => pk::rotate_attributes(at.into_bytes(), j.into_bytes()).map_err(|e| e.to_string())?,
        _ => wk::webassembly_rotate_attributes(js(at.as_bytes()), js(j.as_bytes())).map_err(|e| format!("{e:?}"))?.into_bytes(),
    };
    serde_json::from_slice(&r).map_err(|e| e.to_string())
}

/// only Python makes policies
pub fn policy(axes: &[(String, Vec<String>, bool)], max: u32) -> Result<Policy, String> {
    let l: Vec<_> = axes
        .iter()
        .map(|(n, a, h)| serde_json::json!({"name": n, "attributes": a, "hierarchical": h}))
        .collect();
    let r = pk::generate_policy(serde_json::to_vec(&l).unwrap(), max as usize).map_err(|e| e.to_string())?;
    serde_json::from_slice(&r).map_err(|e| e.to_string())
}
