//! Tokens for worlds that are not about delegation.
use crate::chain::has_null;
use crate::ctx::*;
use crate::keys::{ident, pools, Ident, SharedKey};
use crate::model::*;
use crate::tok::*;
use anyhow::Result;
use cid::multihash::Code;
use serde_json::{Map, Value};
use std::str::FromStr;
use std::sync::Arc;
use ucan::builder::UcanBuilder;
use ucan::Ucan;

#[derive(Clone, Debug)]
pub struct Req {
    pub iss: usize,
    pub aud: String,
    pub nbf: Option<u64>,
    pub exp: Option<u64>,
    pub caps: Vec<DocCap>,
    pub nonce: bool,
    pub fct: Option<Map<String, Value>>,
    pub cites: Vec<(String, Code)>,
}
impl Req {
    pub fn id(&self) -> &'static Ident {
        ident(self.iss)
    }
    pub fn nulls(&self) -> bool {
        self.caps.iter().any(|c| c.triple().2.map(|v| has_null(&v)).unwrap_or(false)) || self.fct.iter().flatten().any(|(_, v)| has_null(v))
    }
    pub fn without_nulls(mut self) -> Self {
        self.caps.retain(|c| !c.triple().2.map(|v| has_null(&v)).unwrap_or(false));
        if self.fct.iter().flatten().any(|(_, v)| has_null(v)) {
            self.fct = None;
        }
        self
    }
}
/// A principal of any key type.
pub fn gen_ident() -> usize {
    let p = pools();
    let set = match draw(4) {
        0 => &p.toy,
        1 => &p.ed,
        2 => &p.p256,
        _ if chance(1, 12) => &p.big,
        _ => &p.rsa,
    };
    set[draw(set.len() as u64) as usize]
}
pub fn gen_req(people: &[usize], base: u64) -> Req {
    let dids: Vec<String> = people.iter().map(|i| ident(*i).did.clone()).collect();
    let mut caps: Vec<DocCap> = Vec::new();
    for _ in 0..draw(4) {
        caps.push(match draw(6) {
            0 => {
                let (r, a) = *pick(JUNK);
                DocCap::Junk(r.into(), a.into(), Map::new())
            }
            1 if !caps.is_empty() => caps[0].clone(),
            _ => DocCap::Cap(gen_cap(&dids)),
        });
    }
    let t = |k: u64| match k {
        0 => None,
        1 => Some(0u64),
        2 => Some(base),
        3 => Some(u64::MAX),
        _ => Some(base + draw(1000)),
    };
    Req {
        iss: *pick(people),
        aud: if chance(1, 5) { pick(&["did:web:example.com", "did:web:Example.COM", "did:web:x", "did:key:z", "did:plc:é", "did:web:x%3A8080", "did:x:"]).to_string() } else { pick(&dids).clone() },
        nbf: match draw(4) {
            0 | 1 => None,
            2 => Some(0),
            _ => Some(base - draw(1000)),
        },
        exp: t([0, 3, 4, 4][draw(4) as usize]),
        caps,
        nonce: chance(1, 3),
        fct: gen_facts(),
        cites: vec![],
    }
}

/// Through the library's builder. None: the signing was cancelled.
pub async fn with_builder(r: &Req) -> Option<Result<Ucan>> {
    let key: SharedKey = Arc::new(r.id().signer());
    let mut b = UcanBuilder::default().issued_by(&key).for_audience(&r.aud);
    for c in &r.caps {
        let (res, a, v) = c.triple();
        if let Some(v) = v {
            b = b.claiming_capability(ucan::capability::Capability::new(res, a, v));
        }
    }
    for (t, h) in &r.cites {
        match Ucan::from_str(t) {
            Ok(u) => b = b.witnessed_by(&u, Some(*h)),
            Err(e) => return Some(Err(e)),
        }
    }
    if let Some(n) = r.nbf {
        b = b.not_before(n);
    }
    if let Some(e) = r.exp {
        b = b.with_expiration(e);
    }
    if r.nonce {
        b = b.with_nonce();
    }
    for (k, v) in r.fct.iter().flatten() {
        b = b.with_fact(k, v.clone());
    }
    let s = match b.build() {
        Ok(s) => s,
        Err(e) => return Some(Err(e)),
    };
    cancellable(s.sign()).await
}
/// By another implementation.
pub fn foreign(r: &Req, l: Layout) -> Tok {
    let id = r.id();
    let mut caps = r.caps.clone();
    if chance(1, 6) {
        // an ability claimed under no caveat at all: nothing is granted, but it is part of the token
        caps.insert(draw(caps.len() as u64 + 1) as usize, DocCap::Empty(pick(&["mailto:e@x.org", "fs://h/p", "z:"]).to_string(), "email/send".into()));
    }
    let mut t = Tok {
        iss: id.did.clone(),
        aud: r.aud.clone(),
        nbf: r.nbf,
        exp: r.exp,
        caps,
        prf: if r.cites.is_empty() { if chance(1, 6) { Some(vec![]) } else { None } } else { Some(r.cites.iter().map(|(t, h)| crate::store::cid_of(*h, t.as_bytes()).to_string()).collect()) },
        nnc: r.nonce.then(|| format!("n{}", draw(1 << 30))),
        fct: r.fct.clone(),
        ucv: pick(&["0.10.0-canary", "0.10.0", "0.9.1"]).to_string(),
        alg: id.alg.into(),
        text: String::new(),
        signed: vec![],
        sig: vec![],
        sig_ok: true,
        parse_ok: true,
    };
    t.seal(l, id);
    t
}
