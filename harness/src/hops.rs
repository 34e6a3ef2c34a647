//! C09: tokens travel. Every hop re-encodes the token in another form, crosses the network or a store that may crash,
//! and the token must come out as it went in.
use crate::ctx::*;
use crate::ev;
use crate::gen::*;
use crate::keys::{self, ident, ident_by_did, new_parser};
use crate::model::DocCap;
use crate::store::*;
use crate::tok::*;
use anyhow::{anyhow, Result};
use base64::{engine::general_purpose::URL_SAFE_NO_PAD, Engine};
use cid::multihash::Code;
use std::cell::RefCell;
use std::convert::TryFrom;
use std::rc::Rc;
use std::str::FromStr;
use std::sync::Arc;
use ucan::builder::UcanBuilder;
use ucan::chain::ProofChain;
use ucan::ipld::UcanIpld;
use ucan::serde::DagJson;
use ucan::store::UcanJwtStore;
use ucan::Ucan;

struct World {
    base: u64,
    people: Vec<usize>,
    issued: RefCell<Vec<(Tok, bool)>>,
}

const HOPS: &[&str] = &[
    "text:from_str", "text:try_from", "text:string", "clone", "json:string", "json:value", "json:pretty", "json:bytes", "cbor", "ipld", "dag-json",
    "ucan-ipld:cbor", "ucan-ipld:ipld", "ucan-ipld:json", "ucan-ipld:mem", "store", "ucan-ipld:dag-json",
];

fn can(hop: &str, t: &Tok, canonical: bool, nulls: bool) -> bool {
    if nulls && !(hop.starts_with("text") || hop.starts_with("json") || hop == "clone" || hop == "store") {
        return false; // no IPLD codec here writes JSON's null
    }
    if hop.starts_with("ucan-ipld") {
        // other implementations' tokens only pass unchanged as text or objects; JSON has no binary form for links
        return canonical && !(hop.ends_with("json") && t.prf.as_ref().map(|p| !p.is_empty()).unwrap_or(false));
    }
    true
}

async fn hop(name: &str, u: &Ucan) -> Result<Ucan> {
    let j = |e: serde_json::Error| anyhow!("{e}");
    match name {
        "text:from_str" => Ucan::from_str(&u.encode()?),
        "text:try_from" => Ucan::try_from(u.encode()?.as_str()),
        "text:string" => Ucan::try_from(u.encode()?),
        "clone" => Ok(u.clone()),
        "json:string" => serde_json::from_str(&serde_json::to_string(u).map_err(j)?).map_err(j),
        "json:value" => serde_json::from_value(serde_json::to_value(u).map_err(j)?).map_err(j),
        "json:pretty" => serde_json::from_slice(&serde_json::to_vec_pretty(u).map_err(j)?).map_err(j),
        "json:bytes" => serde_json::from_reader(std::io::Cursor::new(serde_json::to_vec(u).map_err(j)?)).map_err(j),
        "cbor" => serde_ipld_dagcbor::from_slice(&serde_ipld_dagcbor::to_vec(u).map_err(|e| anyhow!("{e}"))?).map_err(|e| anyhow!("{e}")),
        "ipld" => libipld_core::serde::from_ipld(libipld_core::serde::to_ipld(u).map_err(|e| anyhow!("{e}"))?).map_err(|e| anyhow!("{e}")),
        "dag-json" => Ucan::from_dag_json(&u.to_dag_json()?),
        "ucan-ipld:mem" => Ucan::try_from(&UcanIpld::try_from(u)?),
        "ucan-ipld:cbor" => {
            let b = serde_ipld_dagcbor::to_vec(&UcanIpld::try_from(u)?).map_err(|e| anyhow!("{e}"))?;
            Ucan::try_from(&serde_ipld_dagcbor::from_slice::<UcanIpld>(&b).map_err(|e| anyhow!("{e}"))?)
        }
        "ucan-ipld:ipld" => {
            let i = libipld_core::serde::to_ipld(UcanIpld::try_from(u)?).map_err(|e| anyhow!("{e}"))?;
            Ucan::try_from(&libipld_core::serde::from_ipld::<UcanIpld>(i).map_err(|e| anyhow!("{e}"))?)
        }
        "ucan-ipld:dag-json" => Ucan::try_from(&UcanIpld::from_dag_json(&UcanIpld::try_from(u)?.to_dag_json()?)?),
        "ucan-ipld:json" => {
            let s = serde_json::to_string(&UcanIpld::try_from(u)?).map_err(j)?;
            Ucan::try_from(&serde_json::from_str::<UcanIpld>(&s).map_err(j)?)
        }
        x => Err(anyhow!("no hop {x}")),
    }
}

/// Store the token's text, lose power perhaps, write again if it was lost, and load it.
async fn through_store(w: &World, u: &Ucan, t: &Tok) -> Option<Ucan> {
    let real = chance(1, 3);
    let mut s = SimStore::new(real, !chance(1, 3));
    let text = u.encode().ok()?;
    for attempt in 0..40 {
        let cid = match s.write_token(&text).await {
            Ok(c) => c,
            Err(_) => continue,
        };
        if cid != cid_of(Code::Blake3_256, t.text.as_bytes()) {
            violate(&["C09"], "stored-as", format!("the text was filed under {cid}"));
            return None;
        }
        if chance(1, 3) {
            s.sync();
        }
        if attempt < 30 && fault(F::NodeCrash) {
            s.crash();
        }
        latency().await;
        match s.read_token(&cid).await {
            Ok(Some(x)) => {
                if x != t.text {
                    violate(&["C09"], "stored-text", format!("the store returned {x:?} for {:?}", t.text));
                    return None;
                }
                return match Ucan::from_str(&x) {
                    Ok(u) => Some(u),
                    Err(e) => {
                        violate(&["C09"], "hop:store", format!("the stored text does not parse: {e}"));
                        None
                    }
                };
            }
            Ok(None) => probe("lost-and-resent"),
            Err(_) => probe("read-retried"),
        }
    }
    let _ = w;
    Some(u.clone())
}

fn check(u: &Ucan, t: &Tok, path: &str, parser: &mut ucan::crypto::did::DidParser) -> bool {
    if let Some(d) = t.diff(u) {
        violate(&["C09"], "changed", format!("after {path}: {d}"));
        return false;
    }
    match u.encode() {
        Ok(x) if x == t.text => {}
        o => {
            violate(&["C09"], "text-changed", format!("after {path} the text is {o:?} instead of {}", t.text));
            return false;
        }
    }
    let h = *pick(HASHERS);
    match u.to_cid(h) {
        Ok(c) if c == cid_of(h, t.text.as_bytes()) => {}
        o => {
            violate(&["C09"], "cid-changed", format!("after {path} the {h:?} identifier is {o:?} instead of {}", cid_of(h, t.text.as_bytes())));
            return false;
        }
    }
    let old_lat = with(|c| std::mem::replace(&mut c.lat_max, 0));
    let healed = with(|c| std::mem::replace(&mut c.healed, true));
    let ok = now_or_never(u.check_signature(parser));
    with(|c| {
        c.lat_max = old_lat;
        c.healed = healed;
    });
    if !matches!(ok, Some(Ok(()))) {
        violate(&["C09"], "signature-lost", format!("after {path} the signature is {:?}", ok.map(|r| r.map_err(|e| e.to_string()))));
        return false;
    }
    true
}

/// The same token as another release of this library would have issued it: the same encoding, another version string.
fn other_release(t: &Tok, r: &Req) -> Tok {
    let (h, p) = {
        let s = String::from_utf8(t.signed.clone()).unwrap();
        let (h, p) = s.split_once('.').unwrap();
        (h.to_string(), String::from_utf8(URL_SAFE_NO_PAD.decode(p).unwrap()).unwrap())
    };
    let v = *pick(&["0.9.1", "0.10.0", "1.0.0-rc.1", "0.8.1"]);
    let p = p.replacen(&format!("\"ucv\":\"{}\"", t.ucv), &format!("\"ucv\":\"{v}\""), 1);
    let mut o = t.clone();
    o.ucv = v.into();
    o.signed = format!("{h}.{}", URL_SAFE_NO_PAD.encode(p)).into_bytes();
    o.sig = r.id().sign_raw(&o.signed);
    o.retext();
    match Tok::read_back(&o.text, t.caps.clone()) {
        Some(b) if b.ucv == v => o,
        _ => t.clone(),
    }
}

async fn traveller(w: Rc<World>, me: usize) {
    latency().await;
    let mut r = gen_req(&w.people, w.base);
    let lib = !r.nulls() && chance(2, 3);
    if chance(1, 3) {
        let n = w.issued.borrow().len() as u64;
        for _ in 0..1 + draw(2) {
            if n > 0 {
                let (t, _) = w.issued.borrow()[draw(n) as usize].clone();
                r.cites.push((t.text, *pick(HASHERS)));
            }
        }
    }
    let nulls = r.nulls();
    let (t, canonical) = if lib {
        match with_builder(&r).await {
            Some(Ok(u)) => match u.encode().ok().and_then(|x| Tok::read_back(&x, r.caps.iter().filter(|c| c.triple().2.is_some()).cloned().collect::<Vec<DocCap>>())) {
                Some(t) => {
                    if !check(&u, &t, "signing", &mut new_parser()) {
                        return;
                    }
                    (if chance(1, 4) { other_release(&t, &r) } else { t }, true)
                }
                None => return violate(&["C09"], "malformed", "an issued token has no readable text".into()),
            },
            Some(Err(e)) => return violate(&["C09"], "not-issued", format!("{e}")),
            None => return,
        }
    } else {
        let l = gen_layout();
        (foreign(&r, l), false)
    };
    ev!("t{me} {} {}", if canonical { "library" } else { "foreign" }, t.text);
    w.issued.borrow_mut().push((t.clone(), canonical));
    let Some(Ok(u)) = guard("parsing", || Ucan::from_str(&t.text)) else {
        return violate(&["C09"], "hop:parse", format!("a token's text does not parse: {}", t.text));
    };
    let mut parser = new_parser();
    let mut path = String::from("parsing");
    if !check(&u, &t, &path, &mut parser) {
        return;
    }
    let mut at: Vec<Ucan> = vec![u];
    for _ in 0..1 + draw(12) {
        if violated() {
            return;
        }
        if fault(F::NetDelay) {
            sleep(draw(1000) as i128 * 1_000_000_000).await;
        }
        latency().await;
        let k = draw(at.len() as u64) as usize;
        let cur = at[k].clone();
        let h = *pick(HOPS);
        if !can(h, &t, canonical, nulls) {
            continue;
        }
        path.push_str(&format!(" > {h}"));
        let next = if h == "store" {
            match through_store(&w, &cur, &t).await {
                Some(u) => u,
                None => return,
            }
        } else {
            match hop(h, &cur).await {
                Ok(u) => u,
                Err(e) => return violate(&["C09"], "hop-failed", format!("after {path}: {e} (token {})", t.text)),
            }
        };
        probe(&format!("hop:{h}"));
        probe("nontrivial");
        if !check(&next, &t, &path, &mut parser) {
            return;
        }
        if next != cur {
            return violate(&["C09"], "unequal", format!("after {path} the token is not equal to itself before"));
        }
        ev!("t{me} {h} ok");
        if fault(F::NetDup) {
            at.push(next);
        } else {
            at[k] = next;
        }
    }
    // and it still works as a proof
    let Some(aud) = ident_by_did(&t.aud) else { return };
    if t.prf.is_some() {
        return;
    }
    let proof = pick(&at).clone();
    let h = *pick(HASHERS);
    let key: keys::SharedKey = Arc::new(aud.signer());
    let mut b = UcanBuilder::default().issued_by(&key).for_audience(&ident(w.people[0]).did);
    b = if chance(1, 2) { b.witnessed_by(&proof, Some(h)) } else { b.delegating_from(&proof, Some(h)) };
    if let Some(e) = t.exp {
        b = b.with_expiration(e);
    }
    if let Some(n) = t.nbf {
        b = b.not_before(n);
    }
    let Ok(s) = b.build() else { return violate(&["C09"], "as-proof", "a child could not be built".into()) };
    let Ok(child) = s.sign().await else { return violate(&["C09"], "as-proof", "a child could not be signed".into()) };
    let store = SimStore::new(false, true);
    let Ok(x) = proof.encode() else { return };
    store.file(x.as_bytes());
    let time = t.nbf.unwrap_or(0).max(w.base.min(t.exp.unwrap_or(u64::MAX)));
    with(|c| c.healed = true);
    match ProofChain::from_ucan(child, Some(time), &mut parser, &store).await {
        Ok(c) => match c.proofs().first() {
            Some(p) if c.proofs().len() == 1 && t.diff(p.ucan()).is_none() => probe("worked-as-proof"),
            _ => violate(&["C09"], "as-proof", format!("after {path} the chain does not hold the token")),
        },
        Err(e) => violate(&["C09"], "as-proof", format!("after {path} the token is refused as a proof at {time}: {e}")),
    }
}

pub fn run() {
    const LO: &[u16] = &[50, 200, 500];
    let lat = draw(LATS);
    with(|c| c.lat_max = lat);
    swarm(&[(F::NetDelay, LO), (F::NetDup, LO), (F::NodeCrash, LO), (F::StoreReadErr, &[100]), (F::StoreReadMiss, &[100]), (F::StoreShortRead, LO), (F::StoreWriteErr, &[100]), (F::StoreAckLost, &[100])]);
    let mut people: Vec<usize> = (0..1 + draw(4)).map(|_| gen_ident()).collect();
    people.sort();
    people.dedup();
    let w = Rc::new(World { base: 1_700_000_000, people, issued: Default::default() });
    for i in 0..1 + draw(4) as usize {
        spawn(&format!("traveller{i}"), 0, traveller(w.clone(), i));
    }
    match run_tasks(60_000) {
        RunEnd::Done => {}
        e => violate(&["C09"], "no-progress", format!("{e:?}")),
    }
}
