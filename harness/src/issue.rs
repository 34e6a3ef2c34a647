//! C11: issuers use the builder in every order, clone it, build, sign again and again, with slow, failing and
//! cancelled signers and moving clocks. Every token that comes out is compared with what was asked for.
use crate::chain::has_null;
use crate::ctx::*;
use crate::ev;
use crate::gen::*;
use crate::keys::{self, ident, new_parser, SharedKey, ToyKey, TOY_MAGIC};
use crate::model::*;
use crate::store::{cid_of, HASHERS};
use crate::sys;
use crate::tok::*;
use anyhow::Result;
use base64::engine::general_purpose::URL_SAFE_NO_PAD;
use base64::Engine;
use cid::multihash::Code;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::rc::Rc;
use std::str::FromStr;
use std::sync::Arc;
use std::task::Poll;
use ucan::builder::{Signable, UcanBuilder};
use ucan::capability::{Capability, CapabilitySemantics};
use ucan::Ucan;

/// What has been asked of one builder.
#[derive(Clone, Default)]
struct Asked {
    iss: Option<usize>,
    aud: Option<String>,
    caps: Vec<DocCap>,
    bad_caveat: bool,
    life: Option<u64>,
    exp: Option<u64>,
    nbf: Option<u64>,
    facts: BTreeMap<String, Value>,
    prf: Vec<String>,
    nonce: bool,
    /// the order of the calls, for messages
    calls: String,
}

struct World {
    people: Vec<usize>,
    proofs: Vec<Ucan>,
    nonces: RefCell<Vec<String>>,
}

fn gen_fact_value() -> Value {
    match draw(11) {
        0 => json!("v"),
        1 => json!({"foo": "bar", "baz": true}),
        2 => json!([1, 2, {"x": false}]),
        3 => json!(-5),
        4 => json!("\u{1F600} \"q\" \\ \n\u{0}"),
        5 => json!({"zz": {"b": 1, "aa": 2}, "c": [], "": {}}),
        6 => json!(u64::MAX),
        7 => json!(i64::MIN),
        8 => json!([[], [[]], ""]),
        9 => json!(true),
        _ => json!({"x": null}),
    }
}

type B<'a> = UcanBuilder<'a, SharedKey>;

/// One call on a builder and on its record.
fn call<'a>(w: &World, mut b: B<'a>, a: &mut Asked, keys: &'a [(usize, SharedKey)], dids: &[String]) -> B<'a> {
    let base = 1_700_000_000u64;
    match draw(13) {
        0 => {
            let (i, k) = pick(keys);
            a.iss = Some(*i);
            a.calls.push_str(" issued_by");
            b.issued_by(k)
        }
        1 => {
            let d = if chance(1, 4) { pick(&["did:web:example.com", "did:web:Example.COM", "did:key:z", "did:plc:é\"\\", " did:x: "]).to_string() } else { pick(dids).clone() };
            a.aud = Some(d.clone());
            a.calls.push_str(" for_audience");
            b.for_audience(&d)
        }
        2 => {
            let l = *pick(&[60u64, 0, 1, 86_400, u64::MAX, u64::MAX - 1_700_000_000, 1 << 40]);
            a.life = Some(l);
            a.calls.push_str(&format!(" with_lifetime({l})"));
            b.with_lifetime(l)
        }
        3 => {
            let e = *pick(&[base, 0, base + 1000, u64::MAX]);
            a.exp = Some(e);
            a.calls.push_str(&format!(" with_expiration({e})"));
            b.with_expiration(e)
        }
        4 => {
            let n = *pick(&[base, 0, base + 1000, u64::MAX]);
            a.nbf = Some(n);
            a.calls.push_str(&format!(" not_before({n})"));
            b.not_before(n)
        }
        5 => {
            let k = pick(&["a", "b", "zz/challenge", "é", ""]).to_string();
            let v = gen_fact_value();
            a.calls.push_str(&format!(" with_fact({k:?})"));
            if chance(1, 4) {
                // through another type
                let m: BTreeMap<String, Vec<u64>> = [("k".to_string(), vec![1, draw(9)])].into_iter().collect();
                a.facts.insert(k.clone(), json!(m));
                return b.with_fact(&k, m);
            }
            a.facts.insert(k.clone(), v.clone());
            b.with_fact(&k, v)
        }
        6 => {
            a.nonce = true;
            a.calls.push_str(" with_nonce");
            b.with_nonce()
        }
        7 | 8 => {
            let c = if !a.caps.is_empty() && chance(1, 4) { pick(&a.caps).clone() } else { gen_doc(dids) };
            let (r, ab, v) = c.triple();
            a.calls.push_str(" claiming_capability");
            let v = v.unwrap_or(json!({}));
            if let DocCap::Cap(m) = &c {
                if m.scope != MScope::Any && chance(1, 3) {
                    a.caps.push(c.clone());
                    return match m.dom {
                        Dom::Mail => b.claiming_capability(MailSem.parse(&r, &ab, Some(&v)).expect("a mail capability")),
                        Dom::Fs => b.claiming_capability(FsSem.parse(&r, &ab, Some(&v)).expect("a file capability")),
                    };
                }
            }
            a.caps.push(c);
            match draw(3) {
                0 => b.claiming_capability(Capability::new(r, ab, v)),
                1 => b.claiming_capability((r, ab, v)),
                _ => b.claiming_capability((r.as_str(), ab.as_str(), &v)),
            }
        }
        9 => {
            let mut l = Vec::new();
            for _ in 0..draw(4) {
                let c = gen_doc(dids);
                let (r, ab, v) = c.triple();
                l.push(Capability::new(r, ab, v.unwrap_or(json!({}))));
                a.caps.push(c);
            }
            a.calls.push_str(&format!(" claiming_capabilities({})", l.len()));
            b.claiming_capabilities(&l)
        }
        10 if chance(1, 8) => {
            let v = pick(&[json!([]), json!("x"), json!(1), json!(true), json!(null), json!([{}])]).clone();
            a.bad_caveat = true;
            a.calls.push_str(&format!(" claiming_capability(caveat {v})"));
            b.claiming_capability(Capability::new("mailto:a@x.org".into(), "email/send".into(), v))
        }
        k => {
            if w.proofs.is_empty() {
                return b;
            }
            let u = pick(&w.proofs);
            let h = if chance(1, 2) { None } else { Some(*pick(HASHERS)) };
            let c = cid_of(h.unwrap_or(Code::Blake3_256), u.encode().expect("encode").as_bytes()).to_string();
            a.prf.push(c);
            if k == 12 {
                a.calls.push_str(" delegating_from");
                a.caps.push(DocCap::Prf(Some(a.prf.len() - 1)));
                b = b.delegating_from(u, h);
            } else {
                a.calls.push_str(" witnessed_by");
                b = b.witnessed_by(u, h);
            }
            b
        }
    }
}
fn gen_doc(dids: &[String]) -> DocCap {
    if chance(1, 5) {
        let (r, a) = *pick(JUNK);
        let mut m = Map::new();
        if chance(1, 2) {
            m.insert("é".into(), json!([1]));
        }
        DocCap::Junk(r.into(), a.into(), m)
    } else {
        DocCap::Cap(gen_cap(dids))
    }
}

/// Both futures to their ends, polled in any order.
async fn both<A: Future, C: Future>(a: A, c: C) -> (A::Output, C::Output) {
    let (mut a, mut c) = (Box::pin(a), Box::pin(c));
    let (mut ra, mut rc) = (None, None);
    std::future::poll_fn(move |cx| {
        let first = draw(2) == 0;
        for k in [first, !first] {
            if k {
                if ra.is_none() {
                    if let Poll::Ready(x) = a.as_mut().poll(cx) {
                        ra = Some(x);
                    }
                }
            } else if rc.is_none() {
                if let Poll::Ready(x) = c.as_mut().poll(cx) {
                    rc = Some(x);
                }
            }
        }
        match (ra.is_some(), rc.is_some()) {
            (true, true) => Poll::Ready((ra.take().unwrap(), rc.take().unwrap())),
            _ => Poll::Pending,
        }
    })
    .await
}

/// Is the token what was asked for?
fn judge(w: &World, me: usize, u: &Ucan, a: &Asked, exp: Option<u64>) {
    let bad = |class: &str, m: String| violate(&["C11"], class, format!("issuer {me}: {m}; asked:{}", a.calls));
    let id = ident(a.iss.expect("issuer"));
    let text = match u.encode() {
        Ok(t) => t,
        Err(e) => return bad("unencodable", format!("a signed token does not encode: {e}")),
    };
    let t = match Tok::read_back(&text, a.caps.clone()) {
        Some(t) => t,
        None => return bad("malformed", format!("the text is not a token: {text}")),
    };
    if let Some(d) = t.diff(u) {
        return bad("text-differs", format!("the token's fields and text differ: {d}"));
    }
    let json_of = |k: usize| -> Value { serde_json::from_slice(&URL_SAFE_NO_PAD.decode(text.split('.').nth(k).unwrap()).unwrap()).unwrap() };
    let (h, p) = (json_of(0), json_of(1));
    if h != json!({"alg": id.alg, "typ": "JWT"}) {
        return bad("header", format!("the header is {h}"));
    }
    let want = |n: &str, got: String, want: String| if got == want { None } else { Some((n.to_string(), format!("{n} is {got} instead of {want}"))) };
    let caps = json!(doc_map(&a.caps));
    let prf = if a.prf.is_empty() { None } else { Some(a.prf.clone()) };
    let fct = if a.facts.is_empty() { None } else { Some(a.facts.clone()) };
    let w1 = None
        .or_else(|| want("issuer", t.iss.clone(), id.did.clone()))
        .or_else(|| want("audience", t.aud.clone(), a.aud.clone().unwrap_or_default()))
        .or_else(|| want("expiry", format!("{:?}", t.exp), format!("{exp:?}")))
        .or_else(|| want("not-before", format!("{:?}", t.nbf), format!("{:?}", a.nbf)))
        .or_else(|| want("proofs", format!("{:?}", t.prf), format!("{prf:?}")))
        .or_else(|| want("facts", json!(t.fct).to_string(), json!(fct).to_string()))
        .or_else(|| want("capabilities", p["cap"].to_string(), caps.to_string()))
        .or_else(|| want("nonce presence", t.nnc.is_some().to_string(), a.nonce.to_string()));
    if let Some((n, m)) = w1 {
        return bad(&n.replace(' ', "-"), m);
    }
    const KNOWN: &[&str] = &["ucv", "iss", "aud", "exp", "nbf", "nnc", "cap", "fct", "prf"];
    if let Some(k) = p.as_object().unwrap().keys().find(|k| !KNOWN.contains(&k.as_str())) {
        return bad("extra", format!("the payload has a field {k} nobody asked for"));
    }
    if let Some(n) = &t.nnc {
        nonce(w, n);
    }
    if !keys::was_signed(&id.did, u.signed_data(), u.signature()) {
        return bad("not-signed", "the signature is not one the issuer's key made over the signed data".into());
    }
    let (lat, healed) = with(|c| (std::mem::replace(&mut c.lat_max, 0), std::mem::replace(&mut c.healed, true)));
    let mut parser = new_parser();
    let ok = now_or_never(u.check_signature(&mut parser));
    with(|c| {
        c.lat_max = lat;
        c.healed = healed;
    });
    if !matches!(ok, Some(Ok(()))) {
        return bad("unverifiable", format!("the token does not verify under {}", id.did));
    }
    probe("judged");
}
fn nonce(w: &World, n: &str) {
    if n.len() < 16 {
        return violate(&["C11"], "nonce-short", format!("nonce {n:?}"));
    }
    for o in w.nonces.borrow().iter() {
        let same = o.bytes().zip(n.bytes()).filter(|(x, y)| x == y).count();
        if same * 2 >= n.len() {
            return violate(&["C11"], "nonce-repeated", format!("nonces {o:?} and {n:?} of two signings agree in {same} places"));
        }
    }
    w.nonces.borrow_mut().push(n.into());
}

async fn issuer(w: Rc<World>, me: usize, n: u64) {
    let keys: Vec<(usize, SharedKey)> = w.people.iter().map(|i| (*i, Arc::new(ident(*i).signer()))).collect();
    let dids: Vec<String> = w.people.iter().map(|i| ident(*i).did.clone()).collect();
    let mut bs: Vec<(B, Asked)> = Vec::new();
    let mut ready: Vec<(Signable<SharedKey>, Asked, Option<u64>)> = Vec::new();
    for _ in 0..n {
        if violated() {
            return;
        }
        latency().await;
        match draw(12) {
            0 => {
                let mut a = Asked { iss: Some(keys[0].0), aud: Some(dids[0].clone()), ..Default::default() };
                let mut b = UcanBuilder::default().issued_by(&keys[0].1).for_audience(&dids[0]);
                if chance(1, 6) {
                    b = UcanBuilder::default();
                    a = Asked::default();
                }
                bs.push((b, a));
            }
            1 if !bs.is_empty() => {
                let k = draw(bs.len() as u64) as usize;
                let c = (bs[k].0.clone(), bs[k].1.clone());
                ev!("i{me} clone of builder {k}");
                bs.push(c);
            }
            2 | 3 | 4 | 5 | 6 if !bs.is_empty() => {
                let k = draw(bs.len() as u64) as usize;
                for _ in 0..1 + draw(4) {
                    let (b, mut a) = bs.swap_remove(k);
                    let b = call(&w, b, &mut a, &keys, &dids);
                    bs.push((b, a));
                    let l = bs.len() - 1;
                    bs.swap(k, l);
                }
                ev!("i{me} builder {k}:{}", bs[k].1.calls);
            }
            7 => {
                let d = *pick(&[1i128, 30, 3600, 100_000]) * sys::SEC;
                if fault(F::ClockJumpFwd) {
                    jump_clock(me, d);
                }
                if fault(F::ClockJumpBack) {
                    jump_clock(me, -d);
                }
                sleep(1 + draw(3) as i128 * sys::SEC).await;
            }
            8 if !bs.is_empty() => {
                let k = draw(bs.len() as u64) as usize;
                let (b, a) = (bs[k].0.clone(), bs[k].1.clone());
                let t = clock_secs(me);
                let Some(r) = guard("building", || b.build()) else { return };
                let exp = a.exp.or(a.life.map(|l| t.saturating_add(l)));
                ev!("i{me} build {k} at {t}: {}", r.is_ok());
                match r {
                    Ok(s) => {
                        if a.iss.is_none() || a.aud.is_none() {
                            return violate(&["C11"], "incomplete", format!("issuer {me}: built without an issuer or audience; asked:{}", a.calls));
                        }
                        ready.push((s, a, exp));
                    }
                    Err(e) => {
                        probe("incomplete-refused");
                        if a.iss.is_some() && a.aud.is_some() {
                            return violate(&["C11"], "not-built", format!("issuer {me}: a complete request was refused: {e}; asked:{}", a.calls));
                        }
                    }
                }
            }
            _ if !ready.is_empty() => {
                let k = draw(ready.len() as u64) as usize;
                let (s, a, exp) = &ready[k];
                let op = begin_op(me);
                let rs: Vec<Option<Result<Ucan>>> = if chance(1, 3) {
                    let j = draw(ready.len() as u64) as usize;
                    if j == k {
                        let (x, y) = both(cancellable(s.sign()), cancellable(s.sign())).await;
                        vec![x, y]
                    } else {
                        let (x, y) = both(cancellable(s.sign()), cancellable(ready[j].0.sign())).await;
                        if let Some(Ok(u)) = y {
                            judge(&w, me, &u, &ready[j].1, ready[j].2);
                        }
                        vec![x]
                    }
                } else {
                    vec![cancellable(s.sign()).await]
                };
                let log = end_op(op);
                let nulls = a.caps.iter().any(|c| c.triple().2.map(|v| has_null(&v)).unwrap_or(false)) || a.facts.values().any(has_null);
                for r in rs {
                    ev!("i{me} sign {k}: {}", match &r {
                        None => "cancelled".into(),
                        Some(Ok(u)) => u.encode().unwrap_or_default(),
                        Some(Err(e)) => format!("error {e}"),
                    });
                    match r {
                        None => probe("cancelled"),
                        Some(Ok(u)) => {
                            if a.bad_caveat {
                                return violate(&["C11"], "noncompliant", format!("issuer {me}: a caveat that is no object was signed; asked:{}", a.calls));
                            }
                            judge(&w, me, &u, a, *exp);
                            probe("nontrivial");
                        }
                        Some(Err(e)) => {
                            probe("refused");
                            if log.faults == 0 && !a.bad_caveat && !nulls {
                                return violate(&["C11"], "not-signed", format!("issuer {me}: a proper request was refused: {e}; asked:{}", a.calls));
                            }
                        }
                    }
                    if violated() {
                        return;
                    }
                }
            }
            _ => {}
        }
    }
}

/// The issuer's process restarts: another thread, other entropy, the same clock.
fn after_restart(w: &World) {
    let entropy = draw(1 << 60);
    let clock = clock_now(0);
    let n = 1 + draw(3);
    let h = std::thread::spawn(move || {
        sys::sim_enter(entropy);
        sys::set_clock(clock, 0);
        let mut out = Vec::new();
        let key = ToyKey { magic: TOY_MAGIC, public: vec![1, 2, 3], can_sign: true };
        for _ in 0..n {
            let s = UcanBuilder::default().issued_by(&key).for_audience("did:key:z").with_nonce().build().expect("build");
            let waker = std::task::Waker::noop();
            let mut f = Box::pin(s.sign());
            if let Poll::Ready(Ok(u)) = f.as_mut().poll(&mut std::task::Context::from_waker(waker)) {
                out.push(u.nonce().clone().unwrap_or_default());
            }
        }
        sys::sim_leave();
        out
    });
    match h.join() {
        Ok(v) => {
            probe("restarted");
            for n in v {
                nonce(w, &n);
            }
        }
        Err(_) => violate(&["C11"], "panic", "signing after a restart panicked".into()),
    }
}

pub fn run() {
    const LO: &[u16] = &[30, 150];
    let lat = draw(LATS);
    with(|c| c.lat_max = lat);
    swarm(&[(F::KeySignErr, LO), (F::KeyDidErr, LO), (F::Cancel, LO), (F::ClockJumpFwd, &[500]), (F::ClockJumpBack, &[500]), (F::NodeCrash, &[500])]);
    let mut people: Vec<usize> = (0..1 + draw(3)).map(|_| gen_ident()).collect();
    people.sort();
    people.dedup();
    let base = 1_700_000_000;
    let mut proofs = Vec::new();
    for _ in 0..draw(4) {
        let r = gen_req(&people, base);
        if let Ok(u) = Ucan::from_str(&foreign(&r, gen_layout()).text) {
            proofs.push(u);
        }
    }
    let w = Rc::new(World { people, proofs, nonces: Default::default() });
    let ni = 1 + draw(3) as usize;
    with(|c| c.skew = vec![0; ni]);
    for me in 0..ni {
        let n = 6 + draw(40);
        spawn(&format!("issuer{me}"), me, issuer(w.clone(), me, n));
    }
    match run_tasks(60_000) {
        RunEnd::Done => {}
        e => return violate(&["C11"], "no-progress", format!("{e:?}")),
    }
    if !violated() && fault(F::NodeCrash) {
        after_restart(&w);
    }
}
