//! What an attacker or a bad medium does to tokens in their text and structured forms.
use crate::ctx::{chance, draw, pick};
use crate::keys::Ident;
use crate::tok::{gen_layout, write_json, Tok};
use base64::engine::general_purpose::URL_SAFE_NO_PAD;
use base64::Engine;
use libipld_core::ipld::Ipld;
use serde_json::{json, Value};

const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

/// A position in a text, often next to a segment boundary or an end.
fn spot(s: &[u8]) -> usize {
    if s.is_empty() {
        return 0;
    }
    let dots: Vec<usize> = s.iter().enumerate().filter(|(_, c)| **c == b'.').map(|(i, _)| i).collect();
    let n = s.len();
    let p = match draw(4) {
        0 => n - 1 - draw(4.min(n as u64)) as usize,
        1 if !dots.is_empty() => {
            let d = dots[draw(dots.len() as u64) as usize] as i64;
            (d + draw(7) as i64 - 3).clamp(0, n as i64 - 1) as usize
        }
        2 => draw(4.min(n as u64)) as usize,
        _ => draw(n as u64) as usize,
    };
    p.min(n - 1)
}

/// One edit of a token text made without any key. `others`: texts the attacker has seen.
pub fn edit_text(text: &str, others: &[String], what: &mut String) -> String {
    if text.is_empty() {
        *what = "nothing to edit".into();
        return ".".into();
    }
    let mut b = text.as_bytes().to_vec();
    let seg = |t: &str| -> Vec<String> { t.split('.').map(String::from).collect() };
    let kind = draw(16);
    *what = format!("text edit {kind}");
    match kind {
        0 => {
            let i = spot(&b);
            b[i] ^= 1 << draw(7);
            *what = format!("bit flip at {i}");
        }
        1 => {
            let i = spot(&b);
            b[i] = B64[draw(64) as usize];
            *what = format!("character replaced at {i}");
        }
        2 => {
            let i = spot(&b) + draw(2) as usize;
            let c = *pick(&[b'A', b'=', b'.', b' ', b'\n', b'\0', b'-', b'/', b'+', b'\t', b'\r', b'%']);
            b.insert(i.min(b.len()), c);
            *what = format!("{:?} inserted at {i}", c as char);
        }
        3 => {
            let i = spot(&b);
            b.remove(i);
            *what = format!("character removed at {i}");
        }
        4 => {
            let n = draw(b.len() as u64) as usize;
            b.truncate(n);
            *what = format!("cut to {n} characters");
        }
        5 => {
            // last character of a segment replaced by another one which may decode to the same bytes
            let s = seg(text);
            let k = draw(s.len() as u64) as usize;
            let end = s[..=k].iter().map(|x| x.len() + 1).sum::<usize>() - 1;
            if end > 0 && !s[k].is_empty() {
                let cur = B64.iter().position(|c| *c == b[end - 1]).unwrap_or(0);
                b[end - 1] = B64[(cur + 1 + draw(3) as usize) % 64];
            }
            *what = format!("last character of segment {k} replaced");
        }
        6 => {
            let add = ["", "AA", "e30", "AAAA.BBBB", "."][draw(5) as usize];
            b.extend_from_slice(format!(".{add}").as_bytes());
            *what = "segment appended".into();
        }
        7 => {
            let mut s = seg(text);
            let k = draw(s.len() as u64) as usize;
            match draw(3) {
                0 => {
                    s.remove(k);
                }
                1 => {
                    let x = s[k].clone();
                    s.insert(k, x);
                }
                _ => s[k].clear(),
            }
            b = s.join(".").into_bytes();
            *what = format!("segment {k} dropped, doubled or emptied");
        }
        8 => {
            let mut s = seg(text);
            if s.len() > 1 {
                let k = draw(s.len() as u64 - 1) as usize;
                s.swap(k, k + 1);
            }
            b = s.join(".").into_bytes();
            *what = "segments swapped".into();
        }
        9 | 10 => {
            // splice from another token
            let mut s = seg(text);
            if !others.is_empty() {
                let o = seg(&others[draw(others.len() as u64) as usize]);
                for k in 0..s.len().min(o.len()) {
                    if chance(1, 2) {
                        s[k] = o[k].clone();
                    }
                }
            }
            b = s.join(".").into_bytes();
            *what = "spliced with another token".into();
        }
        11 => {
            // padding or the other base64 alphabet
            let mut s = seg(text);
            let k = draw(s.len() as u64) as usize;
            if chance(1, 2) {
                s[k].push_str(["=", "==", "==="][draw(3) as usize]);
            } else {
                s[k] = s[k].replace('-', "+").replace('_', "/");
            }
            b = s.join(".").into_bytes();
            *what = format!("segment {k} in another base64 form");
        }
        12 => {
            // the signature's bytes: longer, shorter, padded with zeros in front
            let mut s = seg(text);
            if let Some(l) = s.last_mut() {
                if let Ok(mut raw) = URL_SAFE_NO_PAD.decode(l.as_bytes()) {
                    match draw(10) {
                        7 if raw.len() == 64 => raw = der_signature(&raw),
                        8 => raw = l.clone().into_bytes(),
                        9 => raw.reverse(),
                        5 if raw.len() == 64 => {
                            // the same scalar, not reduced (Ed25519)
                            const ORDER: [u8; 16] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14];
                            let mut carry = 0u16;
                            for i in 0..32 {
                                let o = if i < 16 { ORDER[i] } else if i == 31 { 0x10 } else { 0 };
                                carry += raw[32 + i] as u16 + o as u16;
                                raw[32 + i] = carry as u8;
                                carry >>= 8;
                            }
                        }
                        6 => {
                            let n = raw.len() / 2;
                            raw.rotate_left(n);
                        }
                        0 => raw.push(draw(2) as u8),
                        1 => {
                            raw.pop();
                        }
                        2 => raw.insert(0, 0),
                        3 => raw.clear(),
                        _ => raw.iter_mut().for_each(|x| *x = 0),
                    }
                    *l = URL_SAFE_NO_PAD.encode(raw);
                }
            }
            b = s.join(".").into_bytes();
            *what = "signature resized".into();
        }
        13 => {
            // same JSON, other layout
            let mut s = seg(text);
            let k = draw(2) as usize;
            if let Some(x) = s.get_mut(k) {
                if let Some(v) = URL_SAFE_NO_PAD.decode(x.as_bytes()).ok().and_then(|r| serde_json::from_slice::<Value>(&r).ok()) {
                    let mut o = String::new();
                    write_json(&v, gen_layout(), &mut o);
                    *x = URL_SAFE_NO_PAD.encode(o);
                }
            }
            b = s.join(".").into_bytes();
            *what = "JSON laid out differently".into();
        }
        _ => {
            // a field of the header or the payload edited
            let mut s = seg(text);
            let k = if kind == 14 { 1 } else { draw(2) as usize };
            if let Some(x) = s.get_mut(k) {
                if let Some(mut v) = URL_SAFE_NO_PAD.decode(x.as_bytes()).ok().and_then(|r| serde_json::from_slice::<Value>(&r).ok()) {
                    edit_json(&mut v, what);
                    *x = URL_SAFE_NO_PAD.encode(v.to_string());
                }
            }
            b = s.join(".").into_bytes();
        }
    }
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(e) => String::from_utf8_lossy(e.as_bytes()).into_owned(),
    }
}

/// The ASN.1 form of a signature of two numbers.
fn der_signature(raw: &[u8]) -> Vec<u8> {
    let int = |b: &[u8]| {
        let mut n: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect();
        if n.first().map(|x| *x >= 0x80).unwrap_or(true) {
            n.insert(0, 0);
        }
        [vec![2, n.len() as u8], n].concat()
    };
    let body = [int(&raw[..raw.len() / 2]), int(&raw[raw.len() / 2..])].concat();
    [vec![0x30, body.len() as u8], body].concat()
}

/// Change something somewhere in a JSON value.
pub fn edit_json(v: &mut Value, what: &mut String) {
    match v {
        Value::Object(m) => {
            if m.is_empty() || chance(1, 10) {
                m.insert(pick(&["x", "nbf", "alg", "prf", "exp", "nnc", "aud", "iss"]).to_string(), json!(1));
                what.push_str(" +field");
                return;
            }
            let keys: Vec<String> = m.keys().cloned().collect();
            let k = pick(&keys).clone();
            if chance(1, 10) {
                m.remove(&k);
                what.push_str(&format!(" -{k}"));
                return;
            }
            if chance(1, 16) {
                let x = m.remove(&k).unwrap();
                m.insert(format!("{k}x"), x);
                what.push_str(&format!(" renamed {k}"));
                return;
            }
            what.push_str(&format!(" {k}:"));
            edit_json(m.get_mut(&k).unwrap(), what);
        }
        Value::Array(a) => match draw(4) {
            0 if !a.is_empty() => {
                let i = draw(a.len() as u64) as usize;
                a.remove(i);
                what.push_str(" -element");
            }
            1 => {
                let x = a.first().cloned().unwrap_or(json!("x"));
                a.push(x);
                what.push_str(" +element");
            }
            _ if !a.is_empty() => {
                let i = draw(a.len() as u64) as usize;
                edit_json(&mut a[i], what);
            }
            _ => a.push(json!({})),
        },
        Value::String(s) => {
            what.push_str(" string");
            *s = match draw(5) {
                0 => format!("{s}x"),
                1 => s.chars().rev().collect(),
                2 => {
                    let mut c: Vec<char> = s.chars().collect();
                    if c.is_empty() {
                        "x".into()
                    } else {
                        let i = draw(c.len() as u64) as usize;
                        c[i] = if c[i] == 'a' { 'b' } else { 'a' };
                        c.into_iter().collect()
                    }
                }
                3 => String::new(),
                _ => pick(&["none", "HS256", "did:key:z", "JWT", "0.9.0", "*", "mailto:*"]).to_string(),
            }
        }
        Value::Number(n) => {
            what.push_str(" number");
            *v = match n.as_u64() {
                Some(x) => match draw(4) {
                    0 => json!(x.wrapping_add(1)),
                    1 => json!(x.wrapping_sub(1)),
                    2 => json!(x ^ (1 << draw(40))),
                    _ => json!(u64::MAX),
                },
                None => json!(0),
            }
        }
        Value::Bool(x) => *x = !*x,
        Value::Null => *v = json!(u64::MAX),
    }
}

/// Change something somewhere in an IPLD value.
pub fn edit_ipld(v: &mut Ipld, what: &mut String) {
    match v {
        Ipld::Map(m) => {
            if m.is_empty() || chance(1, 12) {
                m.insert("x".into(), Ipld::Integer(1));
                what.push_str(" +field");
                return;
            }
            let keys: Vec<String> = m.keys().cloned().collect();
            let k = pick(&keys).clone();
            if chance(1, 12) {
                m.remove(&k);
                what.push_str(&format!(" -{k}"));
                return;
            }
            what.push_str(&format!(" {k}:"));
            edit_ipld(m.get_mut(&k).unwrap(), what);
        }
        Ipld::List(l) => match draw(4) {
            0 if !l.is_empty() => {
                let i = draw(l.len() as u64) as usize;
                l.remove(i);
                what.push_str(" -element");
            }
            1 => {
                let x = l.first().cloned().unwrap_or(Ipld::Integer(1));
                l.push(x);
                what.push_str(" +element");
            }
            _ if !l.is_empty() => {
                let i = if chance(1, 3) { draw((l.len() as u64).min(6)) as usize } else { draw(l.len() as u64) as usize };
                edit_ipld(&mut l[i], what);
            }
            _ => l.push(Ipld::Null),
        },
        Ipld::String(s) => {
            let mut j = Value::String(s.clone());
            edit_json(&mut j, what);
            *s = j.as_str().unwrap_or("").into();
        }
        Ipld::Bytes(b) => {
            what.push_str(" bytes");
            match draw(4) {
                0 => b.push(draw(256) as u8),
                1 => {
                    b.pop();
                }
                _ if !b.is_empty() => {
                    let i = draw(b.len() as u64) as usize;
                    b[i] ^= 1 << draw(8);
                }
                _ => b.push(0),
            }
        }
        Ipld::Integer(i) => {
            what.push_str(" integer");
            *i = match draw(5) {
                0 => *i + 1,
                1 => *i - 1,
                2 => *i ^ (1 << draw(8)),
                3 => 0,
                _ => i128::from(u64::MAX),
            };
        }
        Ipld::Bool(b) => *b = !*b,
        Ipld::Null => *v = Ipld::Integer(1),
        Ipld::Float(_) => *v = Ipld::Integer(2),
        Ipld::Link(_) => *v = Ipld::String("x".into()),
    }
}

/// A new token made by somebody who owns only `own`: says it is by somebody else, or re-signs somebody else's.
pub fn forge(t: &Tok, own: &Ident, victim: &str, what: &mut String) -> Tok {
    let mut f = t.clone();
    match draw(4) {
        0 => {
            // the victim's token with more in it, signed by the attacker
            f.exp = None;
            f.nbf = None;
            *what = "re-signed by another key, bounds removed".into();
        }
        1 => *what = "re-signed by another key".into(),
        2 => {
            f.alg = own.alg.into();
            *what = "re-signed by another key, its algorithm in the header".into();
        }
        _ => {
            f.alg = "none".into();
            *what = "algorithm none".into();
        }
    }
    f.iss = victim.into();
    f.seal(gen_layout(), own);
    if f.alg == "none" && chance(1, 2) {
        f.sig.clear();
        f.retext();
    }
    f
}
