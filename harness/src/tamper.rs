//! C04: honest parties send tokens over a network on which an attacker (and plain noise) changes them, in every form
//! the library can load. Whatever is accepted must be a token somebody really signed, unchanged.
use crate::ctx::*;
use crate::edits::*;
use crate::ev;
use crate::gen::*;
use crate::keys::{self, ident, new_parser};
use crate::store::SimStore;
use crate::tok::*;
use libipld_core::ipld::Ipld;
use serde_json::Value;
use std::cell::RefCell;
use std::convert::TryFrom;
use std::rc::Rc;
use std::str::FromStr;
use ucan::chain::ProofChain;
use ucan::ipld::UcanIpld;
use ucan::Ucan;

struct World {
    toks: RefCell<Vec<Tok>>,
    people: Vec<usize>,
    base: u64,
    store: SimStore,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Text,
    ObjJson,
    ObjCbor,
    IpldCbor,
    IpldJson,
}

async fn issuer(w: Rc<World>, r: Req, foreign_layout: Option<Layout>) {
    latency().await;
    let t = match foreign_layout {
        Some(l) => {
            let t = foreign(&r, l);
            keys::note_signed(&t.iss, &t.signed, &t.sig);
            t
        }
        None => loop {
            match with_builder(&r).await {
                Some(Ok(u)) => {
                    let Ok(text) = u.encode() else { return };
                    match Tok::read_back(&text, r.caps.clone()) {
                        Some(t) => break t,
                        None => return violate(&["C04"], "malformed", format!("an issued text is not a token: {text}")),
                    }
                }
                _ => {
                    probe("retried-signing");
                    sleep(1_000_000_000).await
                }
            }
        },
    };
    ev!("issued by {} ({}) for {}: {}", t.iss, t.alg, t.aud, t.text);
    w.toks.borrow_mut().push(t);
}

/// What arrives at a verifier: bytes in some form, and how they were changed on the way (empty: not at all).
fn on_the_wire(w: &World) -> Option<(Form, Vec<u8>, String)> {
    let toks = w.toks.borrow();
    if toks.is_empty() {
        return None;
    }
    let t = &toks[draw(toks.len() as u64) as usize];
    let others: Vec<String> = toks.iter().filter(|o| o.text != t.text).map(|o| o.text.clone()).collect();
    let form = match draw(8) {
        0..=3 => Form::Text,
        4 => Form::ObjJson,
        5 => Form::ObjCbor,
        6 => Form::IpldCbor,
        _ => Form::IpldJson,
    };
    let mut what = String::new();
    // the token as (possibly) forged by an attacker with keys of its own
    let mut text = t.text.clone();
    if fault(F::AttackerEdit) {
        match draw(3) {
            0 => {
                let own = ident(*pick(&w.people));
                let f = forge(t, own, &t.iss, &mut what);
                if !f.sig_ok {
                    text = f.text;
                } else {
                    what.clear();
                    keys::note_signed(&f.iss, &f.signed, &f.sig);
                    text = f.text.clone();
                    drop(toks);
                    w.toks.borrow_mut().push(f);
                    return Some((Form::Text, text.into_bytes(), what));
                }
            }
            1 => {
                // somebody else's name under an unchanged body, or a look-alike of the issuer
                let mut f = t.clone();
                f.iss = ident(*pick(&w.people)).did.clone();
                let sig = t.sig.clone();
                f.seal(Layout::Canonical, ident(w.people[0]));
                f.sig = sig;
                f.retext();
                text = f.text;
                what = "issuer replaced".into();
            }
            _ => {
                text = edit_text(&text, &others, &mut what);
            }
        }
    }
    if form == Form::Text {
        if fault(F::NetSplice) {
            text = edit_text(&text, &others, &mut what);
        }
        let mut b = text.into_bytes();
        if fault(F::NetTruncate) {
            let n = draw(b.len() as u64 + 1) as usize;
            b.truncate(n);
            what.push_str(" truncated");
        }
        if fault(F::NetCorrupt) {
            crate::store::damage(&mut b);
            what.push_str(" damaged");
        }
        return Some((form, b, what));
    }
    let u = match Ucan::from_str(&text) {
        Ok(u) => u,
        Err(_) => return Some((Form::Text, text.into_bytes(), what)),
    };
    let other = others.get(draw(others.len().max(1) as u64) as usize).and_then(|o| Ucan::from_str(o).ok());
    let bytes = match form {
        Form::ObjJson => {
            let mut v = match serde_json::to_value(&u) {
                Ok(v) => v,
                Err(_) => return None,
            };
            if fault(F::AttackerEdit) {
                edit_object(&mut v, other.and_then(|o| serde_json::to_value(o).ok()), &mut what);
            }
            v.to_string().into_bytes()
        }
        _ => {
            let cbor = match form {
                Form::ObjCbor => serde_ipld_dagcbor::to_vec(&u).ok(),
                Form::IpldCbor => UcanIpld::try_from(&u).ok().and_then(|i| serde_ipld_dagcbor::to_vec(&i).ok()),
                _ => UcanIpld::try_from(&u).ok().and_then(|i| serde_json::to_vec(&i).ok()),
            };
            let Some(mut b) = cbor else { return None };
            if fault(F::AttackerEdit) {
                if form == Form::IpldJson {
                    if let Ok(mut v) = serde_json::from_slice::<Value>(&b) {
                        let o = other.and_then(|o| UcanIpld::try_from(&o).ok()).and_then(|o| serde_json::to_value(o).ok());
                        edit_object(&mut v, o, &mut what);
                        b = v.to_string().into_bytes();
                    }
                } else if let Ok(mut v) = serde_ipld_dagcbor::from_slice::<Ipld>(&b) {
                    let o: Option<Ipld> = match form {
                        Form::ObjCbor => other.and_then(|o| serde_ipld_dagcbor::to_vec(&o).ok()),
                        _ => other.and_then(|o| UcanIpld::try_from(&o).ok()).and_then(|o| serde_ipld_dagcbor::to_vec(&o).ok()),
                    }
                    .and_then(|b| serde_ipld_dagcbor::from_slice(&b).ok());
                    for _ in 0..1 + draw(2) {
                        match (&mut v, &o) {
                            (Ipld::Map(m), Some(Ipld::Map(o))) if chance(1, 3) => {
                                let ks: Vec<String> = m.keys().cloned().collect();
                                let k = pick(&ks);
                                if let Some(x) = o.get(k) {
                                    m.insert(k.clone(), x.clone());
                                    what.push_str(&format!(" {k} of another token"));
                                }
                            }
                            _ => edit_ipld(&mut v, &mut what),
                        }
                    }
                    if let Ok(x) = serde_ipld_dagcbor::to_vec(&v) {
                        b = x;
                    }
                }
            }
            b
        }
    };
    let mut bytes = bytes;
    if fault(F::NetCorrupt) {
        crate::store::damage(&mut bytes);
        what.push_str(" damaged");
    }
    Some((form, bytes, what))
}
fn edit_object(v: &mut Value, other: Option<Value>, what: &mut String) {
    for _ in 0..1 + draw(2) {
        match (&mut *v, &other) {
            (Value::Object(m), Some(Value::Object(o))) if chance(1, 3) => {
                let ks: Vec<String> = m.keys().cloned().collect();
                let k = pick(&ks);
                if let Some(x) = o.get(k) {
                    m.insert(k.clone(), x.clone());
                    what.push_str(&format!(" {k} of another token"));
                }
            }
            _ => edit_json(v, what),
        }
    }
}

async fn verifier(w: Rc<World>, v: usize, n: u64) {
    let mut parser = new_parser();
    for _ in 0..n {
        if violated() {
            return;
        }
        latency().await;
        let Some((form, bytes, what)) = on_the_wire(&w) else {
            sleep(1_000_000_000).await;
            continue;
        };
        if fault(F::NetDelay) {
            sleep(draw(100) as i128 * 1_000_000_000).await;
        }
        let loaded: Option<Result<Ucan, String>> = guard("loading a token", || match form {
            Form::Text => match String::from_utf8(bytes.clone()) {
                Ok(s) => match draw(3) {
                    0 => Ucan::from_str(&s),
                    1 => Ucan::try_from(s.as_str()),
                    _ => Ucan::try_from(s),
                }
                .map_err(|e| e.to_string()),
                Err(_) => Err("not text".into()),
            },
            Form::ObjJson => serde_json::from_slice::<Ucan>(&bytes).map_err(|e| e.to_string()),
            Form::ObjCbor => serde_ipld_dagcbor::from_slice::<Ucan>(&bytes).map_err(|e| e.to_string()),
            Form::IpldCbor => match serde_ipld_dagcbor::from_slice::<UcanIpld>(&bytes) {
                Ok(i) => Ucan::try_from(&i).map_err(|e| e.to_string()),
                Err(e) => Err(e.to_string()),
            },
            Form::IpldJson => match serde_json::from_slice::<UcanIpld>(&bytes) {
                Ok(i) => Ucan::try_from(&i).map_err(|e| e.to_string()),
                Err(e) => Err(e.to_string()),
            },
        });
        let Some(loaded) = loaded else { return };
        let u = match loaded {
            Ok(u) => u,
            Err(_) => {
                ev!("v{v} {form:?} [{what}]: does not load");
                probe(&format!("unloadable:{form:?}"));
                probe("nontrivial");
                continue;
            }
        };
        let how = draw(4);
        let op = begin_op(0);
        let ok = match how {
            0 => u.check_signature(&mut parser).await.is_ok(),
            1 => u.validate(Some(w.base), &mut parser).await.is_ok(),
            2 if form == Form::Text => match String::from_utf8(bytes.clone()) {
                Ok(s) => ProofChain::try_from_token_string(&s, Some(w.base), &mut parser, &w.store).await.is_ok(),
                Err(_) => false,
            },
            _ => match ProofChain::from_ucan(u.clone(), Some(w.base), &mut parser, &w.store).await {
                Ok(c) => c.ucan() == &u,
                Err(_) => false,
            },
        };
        end_op(op);
        ev!("v{v} {form:?} [{what}]: {}", if ok { "accepted" } else { "refused" });
        if !ok {
            probe(&format!("refused:{form:?}"));
            probe("nontrivial");
            continue;
        }
        let toks = w.toks.borrow();
        let honest = match form {
            Form::Text => toks.iter().any(|t| t.text.as_bytes() == bytes && t.diff(&u).is_none()),
            _ => toks.iter().any(|t| t.diff(&u).is_none()),
        };
        if !honest {
            let near = toks.iter().filter_map(|t| if t.signed == u.signed_data() || t.sig == u.signature() { t.diff(&u) } else { None }).next();
            violate(
                &["C04"],
                &format!("altered-accepted:{form:?}"),
                format!("v{v} accepted an altered token ({form:?}; {what}): {}; {}", near.unwrap_or("its fields are those of no signed token".into()), String::from_utf8_lossy(&bytes)),
            );
            return;
        }
        if !keys::was_verified(u.issuer(), u.signed_data(), u.signature()) {
            violate(&["C04"], "unverified", format!("v{v} accepted a token though no key of {} confirmed its signature", u.issuer()));
        }
        if !keys::was_signed(u.issuer(), u.signed_data(), u.signature()) {
            violate(&["C04"], "never-signed", format!("v{v} accepted a token {} never signed", u.issuer()));
        }
        probe(&format!("accepted:{form:?}"));
    }
}

pub fn run() {
    const LO: &[u16] = &[100, 300, 600];
    let lat = draw(LATS);
    with(|c| c.lat_max = lat);
    swarm(&[(F::NetCorrupt, LO), (F::NetTruncate, &[50, 200]), (F::NetSplice, LO), (F::NetDelay, LO), (F::KeyVerifyErr, &[30]), (F::KeyCtorErr, &[30]), (F::KeySignErr, &[100])]);
    let r = *pick(&[300u16, 600, 900]);
    with(|c| c.rates[F::AttackerEdit as usize] = r);
    let base = 1_700_000_000u64;
    let np = 1 + draw(3) as usize;
    let mut people: Vec<usize> = Vec::new();
    for _ in 0..np {
        people.push(gen_ident());
    }
    // look-alikes of the toy keys are around too
    people.dedup();
    let w = Rc::new(World { toks: Default::default(), people: people.clone(), base, store: SimStore::new(false, true) });
    for i in 0..1 + draw(3) {
        let mut r = gen_req(&people, base);
        r.exp = if chance(1, 2) { None } else { Some(base + 1000) };
        let l = if r.nulls() || chance(1, 2) { Some(gen_layout()) } else { None };
        spawn(&format!("issuer{i}"), 0, issuer(w.clone(), r, l));
    }
    for v in 0..1 + draw(2) as usize {
        let n = 2 + draw(14);
        spawn(&format!("verifier{v}"), 0, verifier(w.clone(), v, n));
    }
    match run_tasks(60_000) {
        RunEnd::Done => {}
        e => violate(&["C04"], "no-progress", format!("{e:?}")),
    }
}
