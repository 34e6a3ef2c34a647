//! C08: a long-lived party is fed hostile and corrupt data of every kind and must come out of it with values or
//! errors, within bounded work, and still able to handle honest tokens.
use crate::ctx::*;
use crate::edits::*;
use crate::ev;
use crate::gen::*;
use crate::keys::{self, did_of, ident, ident_by_did, new_parser, TOY2_MAGIC, TOY_MAGIC};
use crate::model::*;
use crate::store::*;
use crate::sys;
use crate::tok::*;
use base64::engine::general_purpose::URL_SAFE_NO_PAD;
use base64::Engine;
use cid::multihash::{Code, Multihash};
use cid::Cid;
use libipld_core::codec::Codec;
use libipld_core::ipld::Ipld;
use serde_json::{json, Map, Value};
use std::convert::TryFrom;
use std::rc::Rc;
use std::str::FromStr;
use ucan::capability::proof::ProofDelegationSemantics;
use ucan::capability::{Capabilities, Capability, CapabilitySemantics, Caveat};
use ucan::chain::ProofChain;
use ucan::crypto::did::DidParser;
use ucan::crypto::JwtSignatureAlgorithm;
use ucan::ipld::{Principle, Signature, UcanIpld, VarsigPrefix};
use ucan::serde::DagJson;
use ucan::store::{MemoryStore, UcanJwtStore, UcanStore};
use ucan::ucan::{UcanHeader, UcanPayload};
use ucan::Ucan;

struct World {
    people: Vec<usize>,
    base: u64,
    store: SimStore,
    mem: MemoryStore,
}
const MOST_READS: u64 = 2_000;
/// Basic blocks run for one item of some kilobytes; the most seen on the unchanged tree is 20 million.
const MOST_WORK: u64 = 400_000_000;
const MOST_MEMORY: usize = 64 << 20;

// ------------------------------------------------------------------ hostile values

fn bytes(max: u64) -> Vec<u8> {
    let n = match draw(3) {
        0 => draw(4),
        1 => draw(80),
        _ => draw(max + 1),
    };
    let fill = draw(4);
    (0..n).map(|i| match fill {
        0 => 0,
        1 => 0xff,
        2 => i as u8,
        _ => draw(256) as u8,
    }).collect()
}
fn nest(depth: u64, obj: bool) -> Value {
    let mut v = json!(1);
    for _ in 0..depth {
        v = if obj { json!({ "a": v }) } else { json!([v]) };
    }
    v
}
fn string() -> String {
    match draw(12) {
        0 => String::new(),
        1 => "x".repeat(1 + draw(5000) as usize),
        2 => "did:key:z".into(),
        3 => "did:".into(),
        4 => "\u{0}\u{1F600}é\u{202e}".into(),
        5 => "*".into(),
        6 => (*pick(&["prf:18446744073709551616", "prf:18446744073709551615", "prf:9223372036854775807", "prf:4294967295"])).into(),
        7 => format!("did:key:z{}", "1".repeat(1 + draw(300) as usize)),
        8 => "bafkr4".into(),
        9 => "z".repeat(1 + draw(60) as usize),
        10 => String::from_utf8_lossy(&bytes(40)).into_owned(),
        _ => uri(),
    }
}
/// Resources as a hostile peer would write them.
fn uri() -> String {
    let part = |_: u64| -> String {
        match draw(24) {
            0 => "as:".into(),
            1 => "my:".into(),
            2 => "did:key:z6Mk".into(),
            3 => "did:key:".into(),
            4 => "did:web:".into(),
            5 => "prf:".into(),
            6 => "*".into(),
            7 => ":".into(),
            8 => "mailto:".into(),
            9 => "fs://h/p".into(),
            10 => "fs:".into(),
            11 => "//".into(),
            12 => "%ff%00".into(),
            13 => "é".into(),
            14 => "0".into(),
            15 => "-1".into(),
            16 => (*pick(&["99999999999999999999999", "18446744073709551615", "18446744073709551614", "4294967296"])).into(),
            17 => "//[::".into(),
            18 => "//h:99999/".into(),
            19 => "\u{660}".into(),
            20 => " ".into(),
            21 => "a@x.org".into(),
            22 => "#?".into(),
            _ => "../..".into(),
        }
    };
    let n = 1 + draw(6);
    (0..n).map(part).collect()
}
fn value() -> Value {
    match draw(14) {
        0 => json!(null),
        1 => json!(-1),
        2 => json!(u64::MAX),
        3 => json!(1.5e300),
        4 => json!(-0.0),
        5 => json!([]),
        6 => json!({}),
        7 => nest(1 + draw(100), true),
        8 => nest(1 + draw(100), false),
        9 => json!(true),
        10 => json!({"/": string()}),
        11 => json!({"/": {"bytes": string()}}),
        12 => Value::Array((0..draw(200)).map(|i| json!(i)).collect()),
        _ => json!(string()),
    }
}
fn odd_cid() -> String {
    let mh = |code: u64, d: &[u8]| Multihash::wrap(code, d).map(|m| Cid::new_v1(RAW, m).to_string()).unwrap_or_default();
    match draw(14) {
        0 => String::new(),
        1 => "b".into(),
        2 => "Qm".into(),
        3 => Cid::new_v0(*cid_of(Code::Sha2_256, b"x").hash()).map(|c| c.to_string()).unwrap_or_default(),
        4 => mh(0, b"identity"),
        5 => mh(0x7777, b"unknown"),
        6 => mh(0x12, b"short"),
        7 => mh(0x1e, &[]),
        8 => mh(0x12, &[7; 64]),
        9 => Cid::new_v1(0x71, *cid_of(Code::Blake3_256, b"x").hash()).to_string(),
        10 => cid_of(Code::Blake3_256, b"x").to_string().to_uppercase(),
        11 => {
            let mut b = cid_of(Code::Blake3_256, b"x").to_bytes();
            damage(&mut b);
            b.truncate(draw(40) as usize);
            format!("z{}", bs58::encode(b).into_string())
        }
        12 => cid_of(*pick(HASHERS), b"x").to_string(),
        _ => string(),
    }
}
fn der_int(b: &[u8]) -> Vec<u8> {
    der(2, b)
}
fn der(tag: u8, b: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    match b.len() {
        n if n < 128 => v.push(n as u8),
        n if n < 256 => v.extend([0x81, n as u8]),
        n => v.extend([0x82, (n >> 8) as u8, n as u8]),
    }
    v.extend(b);
    v
}
fn rsa_der() -> Vec<u8> {
    let n: Vec<u8> = match draw(11) {
        0 => vec![0],
        1 => vec![1],
        2 => vec![2],
        3 => vec![3],
        4 => vec![35],
        5 => [vec![0x7f], vec![0xff; 63]].concat(),
        6 => [vec![1], vec![0; 256]].concat(),
        7 => [vec![0], vec![0xff; 256]].concat(),
        8 => [vec![0x7f], vec![0xfe; 511]].concat(),
        9 => [vec![0x7f], vec![0xff; 700]].concat(),
        _ => [vec![0], vec![0xc3; 64]].concat(),
    };
    let e: Vec<u8> = match draw(9) {
        0 => vec![0],
        1 => vec![1],
        2 => vec![2],
        3 => vec![1, 0, 1],
        4 => vec![0x7f; 40],
        5 => vec![0xff],
        6 => vec![1, 0, 0, 0, 0],
        7 => vec![1, 0xff, 0xff, 0xff, 0xff],
        _ => vec![3],
    };
    der(0x30, &[der_int(&n), der_int(&e)].concat())
}
fn did(w: &World) -> String {
    let honest = || {
        let d = ident(*pick(&w.people)).did.clone();
        bs58::decode(&d["did:key:z".len()..]).into_vec().unwrap_or_default()
    };
    match draw(12) {
        0 => string(),
        1 => did_of(&[0xed, 0x01], &bytes(64)),
        2 => did_of(&[0xed, 0x01], &{ let mut b = bytes(32); b.resize(32, draw(256) as u8); b }),
        3 => did_of(&[0x80, 0x24], &bytes(80)),
        4 => did_of(&[0x80, 0x24], &{ let mut b = bytes(32); b.resize(32, draw(256) as u8); b.insert(0, *pick(&[2u8, 3, 4, 5, 0, 1])); if b[0] == 4 { b.resize(65, 1) }; b }),
        5 => did_of(&[0x85, 0x24], &rsa_der()),
        6 => did_of(&[0x85, 0x24], &bytes(300)),
        7 => did_of(pick(&[TOY_MAGIC, TOY2_MAGIC, &[0xeb, 0x01], &[0xe7, 0x01], &[][..], &[0xed][..]]), &bytes(10)),
        8 => {
            let mut b = honest();
            damage(&mut b);
            did_of(&[], &b)
        }
        9 => {
            let mut b = honest();
            b.truncate(draw(b.len() as u64 + 1) as usize);
            did_of(&[], &b)
        }
        10 => {
            let mut s = ident(*pick(&w.people)).did.clone().into_bytes();
            damage(&mut s);
            String::from_utf8_lossy(&s).into_owned()
        }
        _ => ident(*pick(&w.people)).did.clone() + pick(&["", "1", "z", " ", "\n", "#key", "é"]),
    }
}

// ------------------------------------------------------------------ tokens of a hostile signer

/// A token whose contents are nonsense but whose signature may be perfectly good.
fn weird_token(w: &World) -> String {
    let r = gen_req(&w.people, w.base);
    let mut t = foreign(&r, gen_layout());
    let signer = ident(*pick(&w.people));
    t.iss = if chance(3, 4) { signer.did.clone() } else { did(w) };
    if chance(1, 4) {
        t.prf = Some((0..1 + draw(4)).map(|_| odd_cid()).collect());
    }
    let mut p = t.payload_json();
    for _ in 0..draw(4) {
        let m = p.as_object_mut().unwrap();
        let k = pick(&["ucv", "aud", "exp", "nbf", "nnc", "cap", "fct", "prf", "x"]).to_string();
        match draw(5) {
            0 => {
                m.insert(k, value());
            }
            1 => {
                let mut c = Map::new();
                for _ in 0..draw(4) {
                    let mut a = Map::new();
                    for _ in 0..draw(3) {
                        let l = (0..draw(3)).map(|_| if chance(1, 3) { value() } else { json!({ string(): value() }) }).collect::<Vec<_>>();
                        a.insert(if chance(1, 2) { string() } else { pick(&["email/send", "ucan/DELEGATE", "fs/create"]).to_string() }, json!(l));
                    }
                    let k = if chance(1, 2) { uri() } else { pick(&["prf:0", "prf:*", "prf:7", "prf:18446744073709551615", "prf:18446744073709551614", "prf:9223372036854775807", "my:*", "mailto:*", "as:did:key:z:*"]).to_string() };
                    c.insert(k, Value::Object(a));
                }
                m.insert("cap".into(), Value::Object(c));
            }
            2 => {
                m.insert("fct".into(), json!({ string(): value(), "deep": nest(draw(100), chance(1, 2)) }));
            }
            3 => {
                m.insert("prf".into(), json!((0..draw(5)).map(|_| odd_cid()).collect::<Vec<_>>()));
            }
            _ => {
                let mut s = String::new();
                edit_json(&mut p, &mut s);
            }
        }
        if !p.is_object() {
            p = t.payload_json();
        }
    }
    let l = gen_layout();
    let mut h = String::new();
    write_json(&if chance(1, 5) { json!({"alg": value(), "typ": value(), string(): value()}) } else { json!({"alg": *pick(&[signer.alg, "none", "HS256", "é", ""]), "typ": "JWT"}) }, l, &mut h);
    let mut s = String::new();
    write_json(&p, l, &mut s);
    if chance(1, 6) {
        // below the level of JSON values
        let x = pick(&["\"nbf\":1e400,", "\"nbf\":1e5,", "\"exp\":99999999999999999999999,", "\"nnc\":\"\\ud800\",", "\"aud\":\"x\",\"aud\":\"y\",", "\u{feff}", "//", "\"fct\":{\"a\":NaN},", "\"cap\":{},\"cap\":{},"]).to_string();
        s.insert_str(1, &x);
    }
    if chance(1, 10) {
        let mut b = s.into_bytes();
        damage(&mut b);
        let signed = [URL_SAFE_NO_PAD.encode(h), URL_SAFE_NO_PAD.encode(b)].join(".");
        return format!("{signed}.{}", URL_SAFE_NO_PAD.encode(signer.sign_raw(signed.as_bytes())));
    }
    let signed = [URL_SAFE_NO_PAD.encode(h), URL_SAFE_NO_PAD.encode(s)].join(".");
    let sig = if chance(1, 6) { bytes(600) } else { signer.sign_raw(signed.as_bytes()) };
    format!("{signed}.{}", URL_SAFE_NO_PAD.encode(sig))
}
/// Properly signed chains: long, citing themselves by way of a lying store, citing odd blocks.
fn weird_chain(w: &World) -> String {
    let signer = ident(*pick(&w.people));
    let mut t = foreign(&Req { iss: w.people[0], aud: signer.did.clone(), nbf: None, exp: None, caps: vec![DocCap::Cap(gen_cap(&[]))], nonce: false, fct: None, cites: vec![] }, Layout::Canonical);
    t.iss = signer.did.clone();
    t.prf = None;
    t.seal(Layout::Canonical, signer);
    match draw(4) {
        0 => {
            // a chain of up to 40 links
            for i in 0..1 + draw(40) {
                w.store.file(t.text.as_bytes());
                t.prf = Some(vec![cid_of(*pick(HASHERS), t.text.as_bytes()).to_string()]);
                t.nnc = Some(i.to_string());
                t.caps = vec![if chance(1, 2) { DocCap::Prf(None) } else { DocCap::Cap(gen_cap(&[])) }];
                t.seal(gen_layout(), signer);
            }
            probe("long-chain");
        }
        1 => {
            // a cycle: the store answers every citation with a token citing the same again
            let n = 1 + draw(3);
            let cs: Vec<Cid> = (0..n).map(|i| cid_of(*pick(HASHERS), format!("cycle {i} {}", draw(1000)).as_bytes())).collect();
            for (i, c) in cs.iter().enumerate() {
                t.prf = Some(vec![cs[(i + 1) % cs.len()].to_string(); 1 + draw(3) as usize]);
                t.seal(Layout::Canonical, signer);
                w.store.file_as(c, t.text.as_bytes());
            }
            probe("cycle");
        }
        2 => {
            // blocks that are no tokens, under honest identifiers
            let mut prf = vec![];
            for _ in 0..1 + draw(3) {
                let b = match draw(4) {
                    0 => bytes(4000),
                    1 => weird_token(w).into_bytes(),
                    2 => string().into_bytes(),
                    _ => {
                        let mut b = t.text.clone().into_bytes();
                        damage(&mut b);
                        b
                    }
                };
                let h = *pick(HASHERS);
                let c = cid_of(h, &b);
                w.store.file_as(&c, &b);
                prf.push(c.to_string());
            }
            t.prf = Some(prf);
            t.seal(gen_layout(), signer);
        }
        _ => {
            let mut prf: Vec<String> = (0..1 + draw(3)).map(|_| odd_cid()).collect();
            if chance(1, 2) {
                w.store.file(t.text.as_bytes());
                prf.insert(0, cid_of(*pick(HASHERS), t.text.as_bytes()).to_string());
            }
            for p in &prf {
                if let (Ok(c), true) = (Cid::try_from(p.as_str()), chance(1, 2)) {
                    w.store.file_as(&c, t.text.as_bytes());
                }
            }
            t.prf = Some(prf);
            t.caps.push(DocCap::Prf(if chance(1, 2) { None } else { Some(draw(4) as usize) }));
            t.seal(gen_layout(), signer);
        }
    }
    t.text
}

// ------------------------------------------------------------------ what a party does with what it gets

/// Everything one can do with a token short of verifying it.
fn handle(u: &Ucan, other: &Ucan) {
    let _ = (u.issuer(), u.audience(), u.algorithm(), u.version(), u.nonce(), u.facts(), u.signature(), u.signed_data());
    let _ = (u.is_expired(None), u.is_too_early(), u.is_expired(Some(0)), u.is_expired(Some(u64::MAX)));
    let _ = (u.lifetime_begins_before(other), u.lifetime_ends_after(other), u.lifetime_encompasses(other), other.lifetime_encompasses(u));
    let _ = format!("{u:?}").len() + (u == other) as usize;
    let _ = u.encode();
    let _ = u.to_cid(*pick(HASHERS));
    let _ = serde_json::to_string(u).map(|s| serde_json::from_str::<Ucan>(&s).is_ok());
    let _ = serde_ipld_dagcbor::to_vec(u).map(|s| serde_ipld_dagcbor::from_slice::<Ucan>(&s).is_ok());
    let _ = u.to_dag_json().map(|s| Ucan::from_dag_json(&s).is_ok());
    if let Ok(i) = UcanIpld::try_from(u) {
        let _ = Ucan::try_from(&i).map(|u| u.encode().is_ok());
        let _ = format!("{i:?} {} {}", i.iss, i.aud);
        let _ = serde_ipld_dagcbor::to_vec(&i).map(|b| serde_ipld_dagcbor::from_slice::<UcanIpld>(&b).is_ok());
    }
    for c in u.capabilities().iter() {
        capability(&c);
    }
}
fn views<S: ucan::capability::Scope, A: ucan::capability::Ability>(sem: &impl CapabilitySemantics<S, A>, c: &Capability) {
    if let Some(v) = sem.parse_capability(c) {
        let _ = (v.enables(&v), format!("{v:?}"), Capability::from(&v));
        if let Some(x) = sem.parse_capability(&Capability::from(&v)) {
            let _ = (x.enables(&v), v.enables(&x));
        }
    }
    let _ = sem.parse(&c.resource, &c.ability, None);
}
fn capability(c: &Capability) {
    views(&MailSem, c);
    views(&FsSem, c);
    views(&ProofDelegationSemantics {}, c);
    let _ = Caveat::try_from(&c.caveat).map(|k| k.enables(&k));
}
async fn verify(w: &World, u: Option<&Ucan>, text: &str, parser: &mut DidParser) {
    let time = *pick(&[None, Some(w.base), Some(0), Some(u64::MAX)]);
    let op = begin_op(0);
    let r = match (u, draw(3)) {
        (Some(u), 0) => {
            let _ = u.check_signature(parser).await;
            let _ = u.validate(time, parser).await;
            return drop(end_op(op));
        }
        (Some(u), 1) => ProofChain::from_ucan(u.clone(), time, parser, &w.store).await,
        _ => ProofChain::try_from_token_string(text, time, parser, &w.store).await,
    };
    let log = end_op(op);
    if let Ok(c) = r {
        probe("hostile-chain-accepted");
        let _ = c.reduce_capabilities(&MailSem).len() + c.reduce_capabilities(&FsSem).len() + c.reduce_capabilities(&ProofDelegationSemantics {}).len();
        let _ = format!("{c:?}").len();
    }
    if log.reads > 1_000 {
        violate(&["C08"], "unbounded", format!("verifying one token took {} reads", log.reads));
    }
}

async fn item(w: &World, parser: &mut DidParser, honest: &[String], host: &Ucan) -> &'static str {
    match draw(14) {
        0 | 1 => {
            let mut t = pick(honest).clone();
            let mut what = String::new();
            for _ in 0..1 + draw(4) {
                t = edit_text(&t, honest, &mut what);
            }
            ev!("text [{what}] {}", t.chars().take(200).collect::<String>());
            let u = guard("parsing a text", || Ucan::from_str(&t)).and_then(|r| r.ok());
            if let Some(u) = &u {
                guard("handling a token", || handle(u, host));
            }
            verify(w, u.as_ref(), &t, parser).await;
            "text"
        }
        2 | 3 | 4 => {
            let t = if chance(1, 3) { weird_chain(w) } else { weird_token(w) };
            ev!("signed nonsense {}", t.chars().take(300).collect::<String>());
            let u = guard("parsing a text", || Ucan::from_str(&t)).and_then(|r| r.ok());
            if let Some(u) = &u {
                probe("signed-nonsense-parsed");
                guard("handling a token", || handle(u, host));
            }
            verify(w, u.as_ref(), &t, parser).await;
            "signed"
        }
        5 | 6 => {
            let d = did(w);
            ev!("did {}", d.chars().take(200).collect::<String>());
            if let Some(Ok(k)) = guard("parsing a DID", || parser.parse(&d)) {
                probe("hostile-key-parsed");
                let _ = k.get_jwt_algorithm_name();
                let _ = k.get_did().await;
                let _ = k.verify(b"payload", &bytes(600)).await;
                for n in [0usize, 1, 32, 64, 65, 256, 257, 512] {
                    let _ = k.verify(b"payload", &vec![*pick(&[0u8, 1, 0xff]); n]).await;
                }
                let _ = k.sign(b"payload").await;
            }
            guard("parsing a principal", || {
                if let Ok(p) = Principle::from_str(&d) {
                    let s = p.to_string();
                    let _ = Principle::from_str(&s).map(|q| q.to_string());
                }
            });
            "did"
        }
        7 => {
            let mut b = bytes(80);
            if chance(1, 2) {
                b.splice(0..0, [0x9d, 0x1a]);
            }
            ev!("principal {b:02x?}");
            guard("reading a principal", || {
                for v in [json!(b).to_string(), json!({ "0": b }).to_string(), json!(string()).to_string()] {
                    if let Ok(p) = serde_json::from_str::<Principle>(&v) {
                        let s = format!("{p} {p:?}");
                        let _ = Principle::from_str(&p.to_string());
                        let _ = s.len();
                    }
                }
                for i in [Ipld::Bytes(b.clone()), Ipld::List(b.iter().map(|x| Ipld::Integer(*x as i128)).collect()), Ipld::Null] {
                    if let Ok(p) = libipld_core::serde::from_ipld::<Principle>(i.clone()) {
                        let _ = p.to_string();
                    }
                    let _ = libipld_core::serde::from_ipld::<Signature>(i).map(|s| s.decode().is_ok());
                }
            });
            "principal"
        }
        8 => {
            let mut b: Vec<u8> = Vec::new();
            varint(&mut b, *pick(&[0xd0edu64, 0xd01200, 0xd01201, 0xd01205, 0xd000, 0xd0e7, 0xd191, 0, 1, u64::MAX, 0xed]));
            match draw(4) {
                0 => b.extend([0x80; 12]),
                1 => b.extend([0x80, 0x00]),
                _ => varint(&mut b, *pick(&[0u64, 1, 64, 65, 1 << 31, 1 << 40, u64::MAX, u64::MAX - 3])),
            }
            b.extend(bytes(100));
            if chance(1, 3) {
                b.truncate(draw(b.len() as u64 + 1) as usize);
            }
            ev!("signature {b:02x?}");
            guard("decoding a signature", || {
                let s = Signature(b.clone());
                let _ = s.decode().map(|(a, s)| Signature::try_from((a, s.as_slice())).is_ok());
                let _ = VarsigPrefix::try_from(draw(1 << 62)).map(|p| JwtSignatureAlgorithm::try_from(p).is_ok());
                let _ = VarsigPrefix::from_str(&string()).is_ok();
                let _ = JwtSignatureAlgorithm::from_str(&string()).is_ok();
                let _ = serde_ipld_dagcbor::from_slice::<Signature>(&b).is_ok() as usize + serde_json::from_slice::<Signature>(&b).is_ok() as usize;
            });
            "signature"
        }
        9 | 10 => {
            // structured forms
            let Ok(u) = Ucan::from_str(pick(honest)) else { return "structured" };
            let as_ucan = chance(1, 3);
            let first = if as_ucan { serde_ipld_dagcbor::to_vec(&u).ok() } else { UcanIpld::try_from(&u).ok().and_then(|i| serde_ipld_dagcbor::to_vec(&i).ok()) };
            let Some(mut b) = first else { return "structured" };
            let mut what = String::new();
            if let Ok(mut v) = serde_ipld_dagcbor::from_slice::<Ipld>(&b) {
                for _ in 0..1 + draw(4) {
                    edit_ipld(&mut v, &mut what);
                }
                if chance(1, 3) {
                    if let Ipld::Map(m) = &mut v {
                        m.insert(pick(&["fct", "cap", "iss", "aud", "s", "prf"]).to_string(), match draw(5) {
                            0 => Ipld::Bytes(bytes(600)),
                            1 => Ipld::Float(f64::NAN),
                            2 => Ipld::Integer(-1),
                            3 => Ipld::String(string()),
                            _ => {
                                let mut x = Ipld::Null;
                                for _ in 0..draw(100) {
                                    x = Ipld::List(vec![x]);
                                }
                                x
                            }
                        });
                    }
                }
                b = serde_ipld_dagcbor::to_vec(&v).unwrap_or(b);
            }
            if chance(1, 3) {
                damage(&mut b);
            }
            ev!("structured [{what}] {} bytes", b.len());
            let mut out: Vec<Ucan> = Vec::new();
            guard("loading a structured form", || {
                if as_ucan {
                    out.extend(serde_ipld_dagcbor::from_slice::<Ucan>(&b).ok());
                }
                if let Ok(i) = serde_ipld_dagcbor::from_slice::<UcanIpld>(&b) {
                    let _ = format!("{i:?} {} {}", i.iss, i.aud);
                    out.extend(Ucan::try_from(&i).ok());
                }
                let _ = serde_ipld_dagcbor::from_slice::<UcanPayload>(&b).is_ok() as usize + serde_ipld_dagcbor::from_slice::<UcanHeader>(&b).is_ok() as usize;
            });
            for u in &out {
                probe("hostile-structure-loaded");
                guard("handling a token", || handle(u, host));
                let t = guard("encoding", || u.encode()).and_then(|r| r.ok()).unwrap_or_default();
                verify(w, Some(u), &t, parser).await;
            }
            "structured"
        }
        11 => {
            let mut v = if chance(1, 2) {
                json!({ uri(): { string(): [{ string(): value() }, value()] }, string(): value() })
            } else {
                value()
            };
            let mut what = String::new();
            edit_json(&mut v, &mut what);
            ev!("capabilities {}", v.to_string().chars().take(200).collect::<String>());
            guard("reading capabilities", || {
                let mut all: Vec<Capability> = Vec::new();
                if let Ok(c) = Capabilities::try_from(&v) {
                    all.extend(c.iter());
                }
                if let Ok(c) = serde_json::from_value::<Capabilities>(v.clone()) {
                    all.extend(c.iter());
                    let _ = Capabilities::try_from(c.iter().collect::<Vec<_>>()).is_ok();
                }
                all.push(Capability::new(uri(), string(), value()));
                all.push(Capability::new(format!("prf:{}", string()), "ucan/DELEGATE".into(), value()));
                all.push(Capability::new(format!("as:{}:{}", did(w), uri()), "email/send".into(), value()));
                let _ = Capabilities::try_from(all.clone()).is_ok();
                for c in &all {
                    capability(c);
                }
            });
            "capabilities"
        }
        12 => {
            // blocks and identifiers
            let b = bytes(4000);
            let s = odd_cid();
            ev!("block of {} bytes, identifier {s}", b.len());
            let mut m = w.mem.clone();
            let _ = m.write(Block(b.clone())).await;
            let mut cids = vec![cid_of(Code::Blake3_256, &b)];
            cids.extend(Cid::try_from(s.as_str()).ok());
            for c in cids {
                w.store.file_as(&c, &b);
                let _ = w.mem.read_token(&c).await;
                let _ = w.mem.require_token(&c).await;
                let _ = w.store.read_token(&c).await;
                let op = begin_op(0);
                let _ = ProofChain::from_cid(&c, Some(w.base), parser, &w.store).await;
                let _ = ProofChain::from_cid(&c, None, parser, &w.mem).await;
                end_op(op);
            }
            "block"
        }
        _ => {
            // text that never was a token
            let t = match draw(4) {
                0 => string(),
                1 => (0..draw(6)).map(|_| URL_SAFE_NO_PAD.encode(bytes(60))).collect::<Vec<_>>().join("."),
                2 => format!("{}.{}.{}", URL_SAFE_NO_PAD.encode(value().to_string()), URL_SAFE_NO_PAD.encode(value().to_string()), URL_SAFE_NO_PAD.encode(bytes(70))),
                _ => ".".repeat(draw(3000) as usize),
            };
            ev!("garbage {}", t.chars().take(100).collect::<String>());
            guard("parsing a text", || {
                let _ = Ucan::from_str(&t);
                let _ = Ucan::try_from(t.clone());
                let _ = serde_json::from_str::<Ucan>(&t).is_ok() as usize + serde_json::from_str::<UcanIpld>(&t).is_ok() as usize;
                let _ = serde_ipld_dagcbor::from_slice::<Ucan>(t.as_bytes()).is_ok() as usize + serde_ipld_dagcbor::from_slice::<UcanIpld>(t.as_bytes()).is_ok() as usize;
                let _ = Ucan::from_dag_json(t.as_bytes()).is_ok() as usize + UcanPayload::from_dag_json(value().to_string().as_bytes()).is_ok() as usize;
                let _ = libipld_core::raw::RawCodec.decode::<Ipld>(t.as_bytes()).is_ok();
            });
            verify(w, None, &t, parser).await;
            "garbage"
        }
    }
}
fn varint(b: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        b.push(v as u8 | 0x80);
        v >>= 7;
    }
    b.push(v as u8);
}

async fn party(w: Rc<World>, n: u64) {
    let mut parser = new_parser();
    // honest tokens: a grants to b, b passes on to c
    let (a, b) = (ident(w.people[0]), ident(w.people[1 % w.people.len()]));
    let cap = MCap { dom: Dom::Mail, holder: Holder::Plain, scope: MScope::Mail("a@x.org".into()), rank: 2, caveat: Map::new() };
    let mk = |iss: usize, aud: &str, cites: Vec<(String, Code)>| foreign(&Req { iss, aud: aud.into(), nbf: None, exp: None, caps: vec![DocCap::Cap(cap.clone())], nonce: false, fct: None, cites }, Layout::Canonical);
    let t1 = mk(w.people[0], &b.did, vec![]);
    let t2 = mk(w.people[1 % w.people.len()], &a.did, vec![(t1.text.clone(), *pick(HASHERS))]);
    w.store.file(t1.text.as_bytes());
    let mut honest = vec![t1.text.clone(), t2.text.clone()];
    for _ in 0..2 {
        let r = gen_req(&w.people, w.base);
        honest.push(foreign(&r, gen_layout()).text);
    }
    let Some(Ok(host)) = guard("parsing an honest token", || Ucan::from_str(&t2.text)) else {
        return violate(&["C08"], "honest-refused", "an honest token does not parse".into());
    };
    for _ in 0..n {
        if violated() {
            return;
        }
        latency().await;
        sys::take_max_alloc();
        let before = hook::blocks();
        let kind = item(&w, &mut parser, &honest, &host).await;
        let work = hook::blocks() - before;
        if work > MOST_WORK {
            violate(&["C08"], "work", format!("{kind}: handling it took {work} basic blocks of work"));
        }
        let most = sys::take_max_alloc();
        if most > MOST_MEMORY {
            violate(&["C08"], "memory", format!("{kind}: {most} bytes were asked for at once"));
        }
        probe(kind);
        probe("nontrivial");
        if chance(1, 4) && !violated() {
            still_works(&w, &mut parser, &t1, &t2, &cap, kind).await;
        }
    }
    heal();
    if !violated() {
        still_works(&w, &mut parser, &t1, &t2, &cap, "all of it").await;
    }
}
async fn still_works(w: &World, parser: &mut DidParser, t1: &Tok, t2: &Tok, cap: &MCap, after: &str) {
    let op = begin_op(0);
    let r = ProofChain::try_from_token_string(&t2.text, Some(w.base), parser, &w.store).await;
    let log = end_op(op);
    match r {
        Ok(c) => {
            let i = c.reduce_capabilities(&MailSem);
            let good = c.proofs().len() == 1 && t1.diff(c.proofs()[0].ucan()).is_none() && i.len() == 1 && MailSem::lift(&i[0].capability).as_ref() == Some(cap) && i[0].originators.iter().eq([&t1.iss]);
            if !good {
                violate(&["C08"], "honest-wrong", format!("after {after} the honest chain is seen as {c:?} with {i:?}"));
            }
        }
        Err(e) if log.faults == 0 => violate(&["C08"], "honest-refused", format!("after {after} the honest chain is refused: {e}")),
        Err(_) => {}
    }
    let mut m = w.mem.clone();
    let c = m.write_token(&t1.text).await;
    match c {
        Ok(c) => match w.mem.read_token(&c).await {
            Ok(Some(x)) if x == t1.text => {}
            o => violate(&["C08"], "honest-lost", format!("after {after} the store answers {o:?}")),
        },
        Err(e) => violate(&["C08"], "honest-lost", format!("after {after} the store refuses: {e}")),
    }
}

pub fn run() {
    let lat = draw(3);
    with(|c| c.lat_max = lat);
    swarm(&[(F::StoreCorrupt, &[100, 300]), (F::StoreTruncate, &[100, 300]), (F::StoreMisdirect, &[100, 300]), (F::StoreShortRead, &[100]), (F::KeyVerifyErr, &[50]), (F::KeyCtorErr, &[50])]);
    let mut people: Vec<usize> = (0..2 + draw(2)).map(|_| gen_ident()).collect();
    people.sort();
    people.dedup();
    let _ = (keys::pools(), ident_by_did("x"));
    let w = Rc::new(World { people, base: 1_700_000_000, store: SimStore::new(false, true).most_reads(MOST_READS), mem: MemoryStore::default() });
    let n = 4 + draw(24);
    spawn("party", 0, party(w.clone(), n));
    match run_tasks(60_000) {
        RunEnd::Done => {}
        e => violate(&["C08"], "no-progress", format!("{e:?}")),
    }
}

// ------------------------------------------------------------------ directed scenarios

pub const SCENARIOS: &[(&str, fn())] = &[("a chain of 20000 tokens", deep_chain), ("20 tokens each citing the one before it twice", doubling_chain)];

/// Every token is valid; each cites the one before it `times` times.
fn chain_of(n: usize, times: usize, most_reads: u64) {
    let _ = keys::pools();
    let store = SimStore::new(false, true).most_reads(most_reads);
    let id = ident(keys::pools().toy[0]);
    let base = 1_700_000_000;
    let cap = MCap { dom: Dom::Mail, holder: Holder::Plain, scope: MScope::Mail("a@x.org".into()), rank: 0, caveat: Map::new() };
    let mut t = foreign(&Req { iss: keys::pools().toy[0], aud: id.did.clone(), nbf: None, exp: None, caps: vec![DocCap::Cap(cap)], nonce: false, fct: None, cites: vec![] }, Layout::Canonical);
    for i in 1..n {
        let c = cid_of(Code::Blake3_256, t.text.as_bytes());
        store.file_as(&c, t.text.as_bytes());
        t.prf = Some(vec![c.to_string(); times]);
        t.nnc = Some(i.to_string());
        t.seal(Layout::Canonical, id);
    }
    spawn("party", 0, async move {
        let op = begin_op(0);
        let r = ProofChain::try_from_token_string(&t.text, Some(base), &mut new_parser(), &store).await;
        end_op(op);
        match r {
            Ok(c) => {
                let i = c.reduce_capabilities(&MailSem);
                if i.len() != 1 {
                    violate(&["C08", "C13"], "honest-wrong", format!("the valid chain grants {i:?}"));
                }
            }
            Err(e) => violate(&["C08", "C13"], "honest-refused", format!("the valid chain is refused: {e}")),
        }
    });
    match run_tasks(1_000_000) {
        RunEnd::Done => {}
        e => violate(&["C08", "C13"], "no-progress", format!("{e:?}")),
    }
}
fn deep_chain() {
    chain_of(20_000, 1, 100_000)
}
fn doubling_chain() {
    chain_of(20, 2, 5_000)
}

/// Large but unremarkable: every one of these must be accepted, with exactly the authority it carries.
pub const LARGE: &[(&str, fn())] = &[
    ("a chain of 600 tokens", || chain_of(600, 1, 1_000)),
    ("a token citing 1500 others", || wide(1500, 1)),
    ("a token with 700 capabilities, all its proof's", || wide(1, 700)),
    ("a token citing 40 others with 30 capabilities each", || wide(40, 30)),
    ("a token of a megabyte", big_token),
];
pub const OVERSIZE: &[(&str, fn())] = &[SCENARIOS[0], SCENARIOS[1], LARGE[0], LARGE[1], LARGE[2], LARGE[3], LARGE[4]];

fn plain_cap(who: &str, rank: usize) -> MCap {
    MCap { dom: Dom::Mail, holder: Holder::Plain, scope: MScope::Mail(format!("{who}@x.org")), rank, caveat: Map::new() }
}
fn accept(t: Tok, store: SimStore, want: Vec<(MCap, String)>) {
    spawn("party", 0, async move {
        let op = begin_op(0);
        let r = ProofChain::try_from_token_string(&t.text, Some(1_700_000_000), &mut new_parser(), &store).await;
        end_op(op);
        let c = match r {
            Ok(c) => c,
            Err(e) => return violate(&["C02", "C13"], "honest-refused", format!("the valid chain is refused: {e}")),
        };
        let got = c.reduce_capabilities(&MailSem);
        for (m, who) in &want {
            let of: Vec<&String> = got.iter().filter(|i| MailSem::lift(&i.capability).map(|g| g.enables(m)).unwrap_or(false)).flat_map(|i| i.originators.iter()).collect();
            if !of.contains(&who) || of.iter().any(|o| *o != who) {
                return violate(&["C02", "C13"], "lost", format!("[{}] is reported with originators {of:?} instead of {who} ({} capabilities reported, {} granted)", m.show(), got.len(), want.len()));
            }
        }
    });
    match run_tasks(1_000_000) {
        RunEnd::Done => {}
        e => violate(&["C02", "C13"], "no-progress", format!("{e:?}")),
    }
}
/// `n` proofs with `m` capabilities each, all passed on: the first and the last proof's by redelegation, the rest by claims.
fn wide(n: usize, m: usize) {
    let toys = &keys::pools().toy;
    let store = SimStore::new(false, true);
    let me = ident(toys[0]);
    let mut want = Vec::new();
    let (mut prf, mut caps) = (Vec::new(), Vec::new());
    for i in 0..n {
        let iss = toys[1 + i % 3];
        let own: Vec<MCap> = (0..m).map(|k| plain_cap(&format!("u{i}.{k}"), k % 2)).collect();
        let req = Req { iss, aud: me.did.clone(), nbf: None, exp: None, caps: own.iter().cloned().map(DocCap::Cap).collect(), nonce: false, fct: None, cites: vec![] };
        let t = foreign(&req, Layout::Canonical);
        let c = cid_of(Code::Blake3_256, t.text.as_bytes());
        store.file_as(&c, t.text.as_bytes());
        prf.push(c.to_string());
        if n > 1 && (i == 0 || i + 1 == n) {
            caps.push(DocCap::Prf(Some(i)));
        } else {
            caps.extend(own.iter().rev().cloned().map(DocCap::Cap));
        }
        want.extend(own.into_iter().map(|c| (c, ident(iss).did.clone())));
    }
    let mut t = foreign(&Req { iss: toys[0], aud: me.did.clone(), nbf: None, exp: None, caps, nonce: false, fct: None, cites: vec![] }, Layout::Canonical);
    t.prf = Some(prf);
    t.seal(Layout::Canonical, me);
    accept(t, store, want);
}
fn big_token() {
    let toys = &keys::pools().toy;
    let store = SimStore::new(true, true);
    let (a, b) = (ident(toys[0]), ident(toys[1]));
    let cap = plain_cap("a", 0);
    let fct = json!({ "long": "x".repeat(600_000), "list": (0..40_000).collect::<Vec<_>>() });
    let leaf = foreign(&Req { iss: toys[0], aud: b.did.clone(), nbf: None, exp: None, caps: vec![DocCap::Cap(cap.clone())], nonce: false, fct: fct.as_object().cloned(), cites: vec![] }, Layout::Canonical);
    let c = cid_of(Code::Blake3_256, leaf.text.as_bytes());
    store.file_as(&c, leaf.text.as_bytes());
    let mut t = foreign(&Req { iss: toys[1], aud: a.did.clone(), nbf: None, exp: None, caps: vec![DocCap::Cap(cap.clone())], nonce: false, fct: fct.as_object().cloned(), cites: vec![] }, Layout::Canonical);
    t.prf = Some(vec![c.to_string()]);
    t.seal(Layout::Canonical, b);
    accept(t, store, vec![(cap, a.did.clone())]);
}
