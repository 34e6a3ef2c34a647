//! The delegation world: issuers sign (through slow, failing keys), tokens travel to stores (late, repeated,
//! damaged, misfiled), verifiers with long-lived and fresh parsers check them at chosen or read times, while faults
//! occur; then faults stop, everything is delivered, and every verdict must be the model's.
use crate::ctx::*;
use crate::ev;
use crate::keys::{self, ident, new_parser, pools, SharedKey};
use crate::model::*;
use crate::store::{cid_of, damage, SimStore, HASHERS, RAW};
use crate::sys;
use crate::tok::*;
use cid::multihash::{Code, Multihash, MultihashDigest};
use cid::Cid;
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::str::FromStr;
use std::sync::Arc;
use ucan::builder::UcanBuilder;
use ucan::chain::ProofChain;
use ucan::crypto::did::DidParser;
use ucan::store::UcanJwtStore;
use ucan::Ucan;

const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C12", "C13"];

pub struct Profile {
    pub max_toks: u64,
    pub defects: (u64, u64),
    pub tight_time: bool,
    pub misfile: (u64, u64),
    pub rich_caps: bool,
    pub shapes: bool,
    pub real_keys: (u64, u64),
    pub builder: (u64, u64),
    pub ops: u64,
    pub clock_faults: bool,
    pub lookalikes: bool,
}

pub fn profile(prop: &str) -> Profile {
    let p = Profile {
        max_toks: 5,
        defects: (1, 4),
        tight_time: false,
        misfile: (0, 1),
        rich_caps: false,
        shapes: false,
        real_keys: (1, 4),
        builder: (1, 2),
        ops: 3,
        clock_faults: false,
        lookalikes: false,
    };
    match prop {
        "C01" => Profile { max_toks: 7, rich_caps: true, defects: (0, 1), real_keys: (1, 12), ..p },
        "C02" => Profile { max_toks: 7, rich_caps: true, defects: (0, 1), real_keys: (1, 12), ..p },
        "C03" => Profile { max_toks: 7, defects: (3, 4), ..p },
        "C05" => Profile { misfile: (3, 4), defects: (1, 8), ..p },
        "C06" => Profile { tight_time: true, clock_faults: true, defects: (0, 1), ops: 5, real_keys: (1, 12), ..p },
        "C07" => Profile { defects: (1, 3), builder: (3, 4), ..p },
        "C12" => Profile { defects: (2, 3), lookalikes: true, ops: 6, real_keys: (1, 4), clock_faults: true, tight_time: true, ..p },
        "C13" => Profile { shapes: true, defects: (0, 1), real_keys: (1, 2), ..p },
        _ => p,
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Defect {
    AudCase,
    AudSuffix,
    AudFragment,
    AudOther,
    ExpOver,
    ExpNone,
    NbfUnder,
    NbfNone,
    Expired,
    TooEarly,
    SigOtherKey,
    SigOtherData,
    SigFlip,
    SigEmpty,
    SigShort,
    SigLong,
    CidMissing,
    CidGarbage,
    CidCodec,
    CidV0,
    CidCut,
    CidCode,
    PrfIndex,
    Altered,
    IssForged,
    IssForgedLookalike,
    IssUnparsable,
    Unparsable,
}
use Defect::*;
const DEFECTS: &[Defect] = &[
    AudCase, AudSuffix, AudFragment, AudOther, ExpOver, ExpNone, NbfUnder, NbfNone, Expired, TooEarly, SigOtherKey, SigOtherData,
    SigFlip, SigEmpty, SigShort, SigLong, CidMissing, CidGarbage, CidCodec, CidV0, CidCut, CidCode, PrfIndex, Altered, IssForged,
    IssForgedLookalike, IssUnparsable, Unparsable,
];

#[derive(Clone, Debug)]
struct Cite {
    tok: usize,
    hasher: usize,
    base58: bool,
}
#[derive(Clone, Debug)]
struct Spec {
    iss: usize,
    aud: String,
    /// the principal it is intended for (and who goes on to cite it), whatever `aud` says
    meant: String,
    nbf: Option<u64>,
    exp: Option<u64>,
    lifetime: Option<u64>,
    caps: Vec<DocCap>,
    cites: Vec<Cite>,
    nonce: bool,
    builder: bool,
    delegating: bool,
    defect: Option<Defect>,
    layout: Layout,
    fct: Option<serde_json::Map<String, serde_json::Value>>,
}

#[derive(Clone, Copy, Debug)]
pub enum When {
    Fixed(u64),
    Window(u64, u64),
}

#[derive(Clone, Debug)]
enum No {
    Parse,
    Sig,
    Time,
    Link,
    Cid,
    Index,
}
impl No {
    fn props(&self) -> &'static [&'static str] {
        match self {
            No::Parse => &["C03", "C04", "C12"],
            No::Sig => &["C03", "C04", "C07", "C12"],
            No::Time => &["C03", "C06", "C12"],
            No::Link => &["C03", "C12"],
            No::Cid => &["C03", "C05", "C07", "C12"],
            No::Index => &["C03", "C12"],
        }
    }
}

pub struct World {
    store: SimStore,
    specs: Vec<Spec>,
    toks: RefCell<Vec<Option<Tok>>>,
    texts: RefCell<Vec<Cellq<String>>>,
    truth: RefCell<HashMap<Vec<u8>, usize>>,
    extra: RefCell<Vec<String>>,
    parsers: RefCell<Vec<Option<DidParser>>>,
    dids: Vec<String>,
    tight: bool,
    base: u64,
    probes: RefCell<Vec<MCap>>,
    unfiled: RefCell<BTreeSet<usize>>,
    accepted: RefCell<u64>,
    rejected: RefCell<u64>,
}

pub struct Judged {
    /// why it must not be accepted
    no: Option<No>,
    /// it must be accepted, given what the store holds
    must: bool,
}

impl World {
    fn tok(&self, i: usize) -> Option<Tok> {
        self.toks.borrow()[i].clone()
    }
    fn resolve(&self, cid: &str) -> Option<(Cid, usize)> {
        let c = Cid::from_str(cid).ok()?;
        if c.codec() != RAW {
            return None;
        }
        let id = *self.truth.borrow().get(&c.to_bytes())?;
        Some((c, id))
    }
    /// The verdict of the model on token `i`. `memo` is per call.
    fn judge(&self, i: usize, when: When, memo: &mut HashMap<usize, (Option<No>, bool)>) -> Judged {
        if let Some((n, m)) = memo.get(&i) {
            return Judged { no: n.clone(), must: *m };
        }
        let t = self.tok(i).expect("judging an unissued token");
        let j = self.judge_inner(&t, when, memo);
        memo.insert(i, (j.no.clone(), j.must));
        j
    }
    fn judge_inner(&self, t: &Tok, when: When, memo: &mut HashMap<usize, (Option<No>, bool)>) -> Judged {
        let nope = |n: No| Judged { no: Some(n), must: false };
        if !t.parse_ok {
            return nope(No::Parse);
        }
        let s = self.judge_alone(t, when);
        if s.no.is_some() {
            return s;
        }
        let mut must = s.must;
        let cites: Vec<String> = t.prf.clone().unwrap_or_default();
        for c in &cites {
            let Some((cid, pid)) = self.resolve(c) else { return nope(No::Cid) };
            let Some(p) = self.tok(pid) else { return nope(No::Cid) };
            let j = self.judge(pid, when, memo);
            if j.no.is_some() {
                return j;
            }
            must &= j.must && self.store.peek(&cid).as_deref() == Some(p.text.as_bytes());
            if p.aud != t.iss {
                return nope(No::Link);
            }
            // bounds that are written down but bound nothing (0 and the last second there is): both readings are right
            if (p.nbf == Some(0) && t.nbf.is_none()) || (p.exp == Some(u64::MAX) && t.exp.is_none()) {
                must = false;
            }
            let begins = match (p.nbf, t.nbf) {
                (None, _) | (Some(0), None) => true,
                (Some(a), Some(b)) => a <= b,
                (Some(_), None) => false,
            };
            let ends = match (p.exp, t.exp) {
                (None, _) | (Some(u64::MAX), None) => true,
                (Some(a), Some(b)) => a >= b,
                (Some(_), None) => false,
            };
            if !begins || !ends {
                return nope(No::Link);
            }
        }
        for c in &t.caps {
            if let DocCap::Prf(Some(k)) = c {
                if *k >= cites.len() {
                    return nope(No::Index);
                }
            }
        }
        Judged { no: None, must }
    }
    fn judge_alone(&self, t: &Tok, when: When) -> Judged {
        let nope = |n: No| Judged { no: Some(n), must: false };
        if !t.parse_ok {
            return nope(No::Parse);
        }
        if !t.sig_ok {
            return nope(No::Sig);
        }
        let (lo, hi) = match when {
            When::Fixed(x) => (x, x),
            When::Window(a, b) => (a, b),
        };
        let n = t.nbf.unwrap_or(0);
        let e = t.exp.unwrap_or(u64::MAX);
        // valid at some moment of the window (each check may read the clock at its own moment)
        if n > hi || e < lo {
            return nope(No::Time);
        }
        let must = n <= lo && hi <= e;
        Judged { no: None, must }
    }
    /// Compare an accepted chain with the tokens that were really cited.
    fn diff_chain(&self, c: &ProofChain, i: usize, path: &str) -> Option<String> {
        let t = self.tok(i)?;
        if let Some(d) = t.diff(c.ucan()) {
            return Some(format!("token {path}: {d}"));
        }
        let cites = t.prf.clone().unwrap_or_default();
        if c.proofs().len() != cites.len() {
            return Some(format!("token {path} cites {} proofs, the chain holds {}", cites.len(), c.proofs().len()));
        }
        for (k, (p, s)) in c.proofs().iter().zip(&cites).enumerate() {
            let (_, pid) = self.resolve(s)?;
            if let Some(d) = self.diff_chain(p, pid, &format!("{path}.{k}")) {
                return Some(d);
            }
        }
        None
    }
    fn all_verified(&self, i: usize, seen: &mut BTreeSet<usize>) -> Option<usize> {
        if !seen.insert(i) {
            return None;
        }
        let t = self.tok(i)?;
        if !keys::was_verified(&t.iss, &t.signed, &t.sig) {
            return Some(i);
        }
        for s in t.prf.iter().flatten() {
            if let Some((_, p)) = self.resolve(s) {
                if let Some(x) = self.all_verified(p, seen) {
                    return Some(x);
                }
            }
        }
        None
    }
    fn node(&self, i: usize) -> Node {
        let t = self.tok(i).expect("node of unissued token");
        let proofs = t.prf.iter().flatten().map(|s| self.resolve(s).expect("unresolved proof in accepted chain").1).collect();
        Node { iss: t.iss.clone(), caps: t.caps.clone(), proofs }
    }

    fn check_authority<M: ModelSem>(&self, sem: &M, c: &ProofChain, i: usize) -> Vec<String> {
        let infos = c.reduce_capabilities(sem);
        let t = self.tok(i).unwrap();
        let mut memo = BTreeMap::new();
        let (lo, hi) = grants(&|k| self.node(k), i, M::DOM, &mut memo);
        let mut lifted: Vec<(Option<MCap>, &BTreeSet<String>)> = Vec::new();
        for info in &infos {
            lifted.push((M::lift(&info.capability), &info.originators));
            if info.not_before != t.nbf || info.expires_at != t.exp {
                violate(
                    &["C02"],
                    "bounds",
                    format!(
                        "t{i}: reported bounds {:?}..{:?} of {:?} are not those of the presented token {:?}..{:?}",
                        info.not_before, info.expires_at, info.capability, t.nbf, t.exp
                    ),
                );
            }
            if info.originators.is_empty() {
                violate(&["C01", "C02"], "no-originator", format!("t{i}: {:?} is reported without an originator", info.capability));
            }
        }
        // probes: everything anybody claims anywhere in this chain, what is reported, and variations
        let mut probes: Vec<MCap> = Vec::new();
        for (c, _) in &hi {
            probes.push(c.clone());
        }
        probes.extend(lifted.iter().filter_map(|l| l.0.clone()));
        probes.extend(self.probes.borrow().iter().filter(|p| p.dom == M::DOM).cloned());
        for p in &probes {
            if p.dom != M::DOM {
                continue;
            }
            let must = originators(&lo, p);
            let may = originators(&hi, p);
            let view = sem.parse(&p.resource(), p.ability(), Some(&serde_json::Value::Object(p.caveat.clone())));
            let mut via_lib: BTreeSet<String> = BTreeSet::new();
            let mut via_model: BTreeSet<String> = BTreeSet::new();
            for (info, (m, o)) in infos.iter().zip(&lifted) {
                if m.as_ref().map(|m| m.enables(p)).unwrap_or(false) {
                    via_model.extend(o.iter().cloned());
                }
                if let Some(v) = &view {
                    if info.capability.enables(v) {
                        via_lib.extend(o.iter().cloned());
                    }
                }
            }
            for (how, got) in [("the library's order", &via_lib), ("the model's order", &via_model)] {
                if let Some(x) = got.difference(&may).next() {
                    violate(
                        &["C01"],
                        "amplified",
                        format!("t{i}: {} is reported ({how}) as originator of [{}], may only be {}", self.who(x), p.show(), self.whos(&may)),
                    );
                }
                if let Some(x) = must.difference(got).next() {
                    if how == "the library's order" && view.is_none() {
                        violate(&["C02"], "uninterpreted", format!("t{i}: the capability [{}] is not interpreted", p.show()));
                    }
                    violate(
                        &["C02"],
                        "lost",
                        format!("t{i}: {} is not reported ({how}) as originator of [{}]; reported: {}", self.who(x), p.show(), self.whos(got)),
                    );
                }
            }
        }
        for (c, _) in &hi {
            probe(&format!("authority:{:?}", c.dom));
        }
        let mut out: Vec<String> = infos
            .iter()
            .zip(&lifted)
            .map(|(info, (m, o))| format!("{:?} {} by {:?}", M::DOM, m.as_ref().map(|m| m.show()).unwrap_or(format!("{:?}", info.capability)), o.iter().map(|x| self.who(x)).collect::<Vec<_>>()))
            .collect();
        out.sort();
        out
    }
    fn who(&self, did: &str) -> String {
        match self.dids.iter().position(|d| d == did) {
            Some(i) => format!("P{i}"),
            None => did.to_string(),
        }
    }
    fn whos(&self, s: &BTreeSet<String>) -> String {
        format!("{:?}", s.iter().map(|x| self.who(x)).collect::<Vec<_>>())
    }
    fn register(&self, i: usize, t: Tok) {
        for h in HASHERS {
            self.truth.borrow_mut().entry(cid_of(*h, t.text.as_bytes()).to_bytes()).or_insert(i);
        }
        self.toks.borrow_mut()[i] = Some(t);
    }
}

// ------------------------------------------------------------------ planning

fn flip_case(s: &str, from: usize) -> Option<String> {
    let b = s.as_bytes();
    for i in (from..b.len()).rev() {
        if b[i].is_ascii_alphabetic() {
            let mut v = b.to_vec();
            v[i] ^= 0x20;
            return String::from_utf8(v).ok();
        }
    }
    None
}

fn plan(p: &Profile, base: u64, hashers: usize) -> (Vec<Spec>, Vec<usize>) {
    let pl = pools();
    // the principals of this run
    let np = 2 + draw(4) as usize;
    let real = chance(p.real_keys.0, p.real_keys.1);
    let mut people: Vec<usize> = Vec::new();
    while people.len() < np {
        let set = if real {
            match draw(5) {
                0 | 1 => &pl.ed,
                2 => &pl.p256,
                3 => &pl.toy,
                _ if chance(1, 12) => &pl.big,
                _ => &pl.rsa,
            }
        } else {
            &pl.toy
        };
        let mut c = set[draw(set.len() as u64) as usize];
        if people.contains(&c) {
            // the next one not taken, in pool order
            match (0..pl.ids.len()).map(|k| (c + k) % pl.ids.len()).find(|x| !people.contains(x)) {
                Some(x) => c = x,
                None => break,
            }
        }
        people.push(c);
    }
    let dids: Vec<String> = people.iter().map(|i| pl.ids[*i].did.clone()).collect();
    let mut n = 1 + draw(p.max_toks) as usize;
    let mut shape = if p.shapes { draw(5) } else { 0 };
    if !p.shapes && p.max_toks > 6 && chance(1, 24) {
        // rarely: a dozen proofs, or a chain as long
        shape = 1 + draw(3);
        n = if shape == 2 { if chance(1, 4) { 17 + draw(24) } else { 12 + draw(3) } } else { 6 + draw(6) } as usize;
    }
    match shape {
        _ if !p.shapes => {}
        1 => n = 8 + draw(28) as usize, // long chain
        2 => n = 4 + draw(24) as usize, // wide
        3 => n = 4 + draw(8) as usize,  // ladder: everybody cites the last two
        _ => {}
    }
    if p.shapes && !real && (shape == 1 || shape == 2) && chance(1, 12) {
        n += 40 + draw(70) as usize;
    }
    let rich = p.rich_caps;
    let mut specs: Vec<Spec> = Vec::new();
    let spread: &[u64] = if p.tight_time { &[0, 1, 2, 5, 30, 600] } else { &[100_000, 1_000_000, 50_000] };
    let defective = chance(p.defects.0, p.defects.1);
    let bad_at = if defective { draw(n as u64) as usize } else { usize::MAX };
    for i in 0..n {
        // who issues, citing what
        let (iss, cites): (usize, Vec<usize>) = if i == 0 {
            (draw(np as u64) as usize, vec![])
        } else {
            match shape {
                1 => (aud_idx(&specs[i - 1], &dids), vec![i - 1]),
                2 if i + 1 < n => (draw(np as u64) as usize, vec![]),
                2 => {
                    let iss = aud_idx(&specs[0], &dids);
                    (iss, (0..i).filter(|k| specs[*k].meant == dids[iss]).collect())
                }
                3 => {
                    let iss = aud_idx(&specs[i - 1], &dids);
                    let mut c: Vec<usize> = vec![i - 1];
                    if i >= 2 && specs[i - 2].meant == dids[iss] {
                        c.push(i - 2);
                    }
                    (iss, c)
                }
                _ => {
                    // often continue from an earlier token
                    let iss = if chance(3, 4) {
                        let k = i - 1 - draw(i as u64) as usize;
                        specs_aud(&specs[k], &dids).unwrap_or_else(|| draw(np as u64) as usize)
                    } else {
                        draw(np as u64) as usize
                    };
                    let cand: Vec<usize> = (0..i).filter(|k| specs[*k].meant == dids[iss]).collect();
                    let mut c: Vec<usize> = cand.iter().rev().filter(|_| chance(7, 8)).copied().collect();
                    c.truncate(4);
                    if c.len() > 1 && chance(1, 2) {
                        let k = draw(c.len() as u64) as usize;
                        c.rotate_left(k);
                    }
                    if !c.is_empty() && chance(1, 8) {
                        c.push(c[0]); // the same proof twice
                    }
                    (iss, c)
                }
            }
        };
        let aud = if shape == 2 && i + 1 < n {
            dids[0].clone()
        } else if shape == 3 {
            dids[iss % np].clone()
        } else {
            dids[draw(np as u64) as usize].clone()
        };
        // bounds within those of the proofs
        let mut cites = cites;
        let mut many = None;
        if !real && i + 1 == n && (rich || p.shapes) && chance(1, 150) {
            // more citations than a byte can count
            let leaves: Vec<usize> = cites.iter().copied().filter(|c| specs[*c].cites.is_empty()).collect();
            if !leaves.is_empty() {
                let to = 257 + draw(40) as usize;
                if chance(1, 2) {
                    while cites.len() < to {
                        cites.push(leaves[cites.len() % leaves.len()]);
                    }
                } else {
                    // one of them is cited at the very end only
                    let last = leaves[0];
                    cites.retain(|c| *c != last);
                    let fill = leaves[leaves.len() - 1];
                    while cites.len() + 1 < to && fill != last {
                        cites.push(fill);
                    }
                    cites.push(last);
                }
                many = Some(DocCap::Prf(if chance(1, 3) { None } else { Some((250 + draw(to as u64 - 250) as usize).min(cites.len() - 1)) }));
            }
        }
        let maxnbf = cites.iter().filter_map(|c| specs[*c].nbf).max();
        let minexp = cites.iter().filter_map(|c| specs[*c].exp).min();
        let gen = |sign: i64| -> Option<u64> {
            if chance(1, 2) {
                let d = *pick(spread) as i64;
                Some((base as i64 + sign * d) as u64)
            } else {
                None
            }
        };
        let signs: i64 = if p.tight_time && chance(1, 4) { -1 } else { 1 };
        let mut nbf = gen(-signs);
        if let Some(m) = maxnbf {
            nbf = Some(nbf.unwrap_or(m).max(m));
        }
        let mut exp = gen(signs);
        if let Some(m) = minexp {
            exp = Some(exp.unwrap_or(m).min(m));
        }
        if exp.is_none() && chance(1, 16) {
            exp = Some(u64::MAX >> draw(2));
        }
        // capabilities
        let mut caps: Vec<DocCap> = Vec::new();
        let nc = if rich { draw(5) } else { draw(3) };
        let inherited: Vec<MCap> = cites
            .iter()
            .flat_map(|c| specs[*c].caps.iter())
            .filter_map(|c| if let DocCap::Cap(m) = c { Some(m.clone()) } else { None })
            .collect();
        for _ in 0..nc {
            let c = if !inherited.is_empty() && chance(4, 5) { vary_cap(&inherited[draw(inherited.len() as u64) as usize], &dids) } else { gen_cap(&dids) };
            caps.push(DocCap::Cap(c.clone()));
            if rich && chance(1, 4) {
                caps.push(DocCap::Cap(vary_cap(&c, &dids)));
            }
            if rich && chance(1, 12) {
                // many caveats for one resource and ability
                for _ in 0..2 + draw(3) {
                    caps.push(DocCap::Cap(vary_caveat(&c)));
                }
            }
        }
        if chance(1, 4) {
            let (r, a) = *pick(JUNK);
            let mut cv = serde_json::Map::new();
            if chance(1, 4) {
                cv.insert("j".into(), serde_json::json!(1));
            }
            caps.push(DocCap::Junk(r.into(), a.into(), cv));
        }
        if !cites.is_empty() && chance(1, 3) {
            caps.push(DocCap::Prf(if chance(1, 3) { None } else { Some(draw(cites.len() as u64) as usize) }));
            if chance(1, 4) {
                caps.push(DocCap::Prf(Some(draw(cites.len() as u64) as usize)));
            }
        }
        if many.is_some() {
            caps.retain(|c| !matches!(c, DocCap::Prf(_)));
            caps.extend(many.clone());
        }
        if caps.len() > 1 && chance(1, 2) {
            let k = draw(caps.len() as u64) as usize;
            caps.rotate_left(k);
        }
        let mut builder = chance(p.builder.0, p.builder.1) && many.is_none();
        if !builder && chance(1, 8) {
            caps.push(DocCap::Empty("mailto:e@x.org".into(), "email/send".into()));
        }
        if !builder && rich && chance(1, 6) {
            let c = inherited.first().cloned().unwrap_or_else(|| gen_cap(&dids));
            caps.push(DocCap::Bad(c, pick(&[json!([]), json!("s"), json!(0), json!(true), json!([{}]), json!("")]).clone()));
        }
        let mut s = Spec {
            iss: people[iss],
            meant: aud.clone(),
            aud,
            nbf,
            exp,
            lifetime: None,
            caps,
            cites: cites.iter().map(|c| Cite { tok: *c, hasher: draw(hashers as u64) as usize, base58: chance(1, 16) }).collect(),
            nonce: chance(1, 4),
            builder,
            delegating: chance(1, 2),
            defect: None,
            layout: gen_layout(),
            fct: gen_facts(),
        };
        if s.builder && s.exp.is_none() && minexp.is_none() && chance(1, 4) {
            s.lifetime = Some(*pick(&[0, 1, 60, 100_000]));
        }
        if s.builder && s.exp.is_some() && chance(1, 6) {
            s.lifetime = Some(*pick(&[0, 1, 60, 100_000, u64::MAX])); // the expiry asked for counts
        }
        if i == bad_at {
            let d = pick(DEFECTS).clone();
            match &d {
                AudCase => {
                    if let Some(a) = flip_case(&s.aud, 10) {
                        s.aud = a
                    }
                }
                AudSuffix => {
                    // almost the intended principal
                    s.aud = match draw(12) {
                        0 => format!("{}1", s.aud),
                        1 => format!("{} ", s.aud),
                        2 => format!(" {}", s.aud),
                        3 => format!("{}\n", s.aud),
                        4 => format!("{}\u{0}", s.aud),
                        5 => format!("{}\u{200b}", s.aud),
                        6 => format!("{0}{0}", s.aud),
                        7 => s.aud["did:key:".len()..].to_string(),
                        8 => format!("DID:KEY:{}", &s.aud["did:key:".len()..]),
                        9 => s.aud[..s.aud.len() - 1].to_string(),
                        10 => s.aud[..1 + draw(s.aud.len() as u64 - 1) as usize].to_string(),
                        _ => String::new(),
                    }
                }
                AudFragment => s.aud.push_str(pick(&["#key-1", "#", "?x=1", "/", "/path", ";v=1", "#z6Mk", ","])),
                AudOther => s.aud = dids[draw(np as u64) as usize].clone(),
                ExpOver => {
                    if let Some(m) = minexp {
                        s.exp = m.checked_add(1).or(Some(m));
                    }
                }
                ExpNone => s.exp = None,
                NbfUnder => {
                    if let Some(m) = maxnbf {
                        s.nbf = Some(m - 1);
                    }
                }
                NbfNone => s.nbf = None,
                Expired => s.exp = Some(base - 1 - draw(3)),
                TooEarly => s.nbf = Some(base + 50_000 + draw(3)),
                PrfIndex => s.caps.push(DocCap::Prf(Some(s.cites.len().saturating_add(*pick(&[0usize, 1, 100, 256, usize::MAX]))))),
                _ => builder = false,
            }
            s.lifetime = None;
            s.builder = s.builder && builder;
            s.defect = Some(d);
        }
        specs.push(s);
    }
    (specs, people)
}
fn aud_idx(s: &Spec, dids: &[String]) -> usize {
    dids.iter().position(|d| *d == s.meant).unwrap_or(0)
}
fn specs_aud(s: &Spec, dids: &[String]) -> Option<usize> {
    dids.iter().position(|d| *d == s.meant)
}

// ------------------------------------------------------------------ issuing

fn cite_string(c: &Cite, text: &str) -> String {
    let cid = cid_of(HASHERS[c.hasher], text.as_bytes());
    if c.base58 {
        cid.to_string_of_base(cid::multibase::Base::Base58Btc).unwrap()
    } else {
        cid.to_string()
    }
}

pub fn has_null(v: &serde_json::Value) -> bool {
    match v {
        serde_json::Value::Null => true,
        serde_json::Value::Array(a) => a.iter().any(has_null),
        serde_json::Value::Object(m) => m.values().any(has_null),
        _ => false,
    }
}

/// Clock (seconds) at the earliest and latest moment of a synchronous call.
pub fn clock_window<R>(f: impl FnOnce() -> R) -> (u64, u64, R) {
    let (a, ..) = sys::clock_state();
    let r = f();
    let (b, ..) = sys::clock_state();
    (a.div_euclid(sys::SEC) as u64, b.div_euclid(sys::SEC) as u64, r)
}

async fn issue(w: Rc<World>, i: usize) {
    let s = w.specs[i].clone();
    let mut proof_texts = Vec::new();
    for c in &s.cites {
        let cell = w.texts.borrow()[c.tok].clone();
        proof_texts.push(cell.get().await);
    }
    latency().await;
    let id = ident(s.iss);
    let all_parse = s.cites.iter().all(|c| w.tok(c.tok).map(|t| t.parse_ok).unwrap_or(false));
    // libipld-core cannot serialise JSON null: the builder refuses such requests with an error (see C11)
    let nulls = s.caps.iter().any(|c| c.triple().2.map(|v| has_null(&v)).unwrap_or(false)) || s.fct.iter().flatten().any(|(_, v)| has_null(v));
    let t = if s.builder && all_parse && !nulls && !s.cites.iter().any(|c| c.base58) {
        issue_with_builder(&w, i, &s, &proof_texts).await
    } else {
        Some(issue_foreign(&w, &s, id, &proof_texts))
    };
    let Some(t) = t else { return };
    ev!("t{i} issued by {} for {} {:?}..{:?} prf={:?} caps=[{}] {}{}", w.who(&t.iss), w.who(&t.aud), t.nbf, t.exp,
        s.cites.iter().map(|c| c.tok).collect::<Vec<_>>(), t.caps.iter().map(|c| c.show()).collect::<Vec<_>>().join(" | "),
        if s.builder { "builder" } else { "foreign" }, s.defect.as_ref().map(|d| format!(" defect={d:?}")).unwrap_or_default());
    let text = t.text.clone();
    w.register(i, t);
    w.texts.borrow()[i].set(text.clone());
    // publish
    latency().await;
    if fault(F::NetDrop) {
        w.unfiled.borrow_mut().insert(i);
        return;
    }
    let copies = if fault(F::NetDup) { 2 } else { 1 };
    for _ in 0..copies {
        if fault(F::NetDelay) {
            sleep((1 + draw(900)) as i128 * sys::SEC).await;
        }
        if fault(F::NetCorrupt) {
            let mut b = text.clone().into_bytes();
            damage(&mut b);
            if let Ok(s) = String::from_utf8(b) {
                w.store.file(s.as_bytes());
                w.extra.borrow_mut().push(s);
            }
        }
        let mut st = w.store;
        let op = begin_op(0);
        let r = st.write_token(&text).await;
        let o = end_op(op);
        match r {
            Ok(c) => {
                if c != cid_of(Code::Blake3_256, text.as_bytes()) {
                    violate(&["C05"], "filed-as", format!("t{i} was filed under {c}"));
                }
            }
            Err(e) => {
                if o.faults == 0 {
                    violate(ALL, "write-failed", format!("writing t{i} failed without a fault: {e}"));
                }
                w.unfiled.borrow_mut().insert(i);
            }
        }
    }
}

async fn issue_with_builder(w: &Rc<World>, i: usize, s: &Spec, proof_texts: &[String]) -> Option<Tok> {
    let id = ident(s.iss);
    let key: SharedKey = Arc::new(id.signer());
    let mut parsed = Vec::new();
    for t in proof_texts {
        match Ucan::from_str(t) {
            Ok(u) => parsed.push(u),
            Err(e) => {
                violate(ALL, "parse-failed", format!("a well-formed token does not parse: {e}"));
                return None;
            }
        }
    }
    let mut attempts = 0;
    loop {
        attempts += 1;
        // the capabilities in the order the builder will have them
        let mut b = UcanBuilder::default().issued_by(&key).for_audience(&s.aud);
        let mut caps: Vec<DocCap> = Vec::new();
        let mut used: BTreeSet<usize> = BTreeSet::new();
        let mut want_prf = Vec::new();
        for (k, (c, u)) in s.cites.iter().zip(&parsed).enumerate() {
            want_prf.push(cite_string(c, &proof_texts[k]));
            let pos = s.caps.iter().enumerate().position(|(x, d)| *d == DocCap::Prf(Some(k)) && !used.contains(&x));
            match pos {
                Some(x) if s.delegating => {
                    used.insert(x);
                    b = b.delegating_from(u, Some(HASHERS[c.hasher]));
                    caps.push(DocCap::Prf(Some(k)));
                }
                _ => b = b.witnessed_by(u, Some(HASHERS[c.hasher])),
            }
        }
        for (x, d) in s.caps.iter().enumerate() {
            if used.contains(&x) {
                continue;
            }
            let (r, a, v) = d.triple();
            let Some(v) = v else { continue };
            b = b.claiming_capability(ucan::capability::Capability::new(r, a, v));
            caps.push(d.clone());
        }
        if let Some(n) = s.nbf {
            b = b.not_before(n);
        }
        if let Some(l) = s.lifetime {
            b = b.with_lifetime(l);
        }
        if let Some(e) = s.exp {
            b = b.with_expiration(e);
        }
        if s.nonce {
            b = b.with_nonce();
        }
        for (k, v) in s.fct.iter().flatten() {
            b = b.with_fact(k, v.clone());
        }
        let op = begin_op(0);
        let (lo, hi, built) = clock_window(|| b.build());
        let built = match built {
            Ok(x) => x,
            Err(e) => {
                violate(ALL, "build-failed", format!("t{i}: build failed: {e}"));
                return None;
            }
        };
        let r = cancellable(built.sign()).await;
        let o = end_op(op);
        match r {
            None => ev!("t{i}: signing cancelled"),
            Some(Err(e)) => {
                ev!("t{i}: signing failed");
                if o.faults == 0 {
                    violate(ALL, "sign-failed", format!("t{i}: signing failed without a fault: {e}"));
                    return None;
                }
            }
            Some(Ok(u)) => {
                let text = match u.encode() {
                    Ok(t) => t,
                    Err(e) => {
                        violate(ALL, "encode-failed", format!("t{i}: {e}"));
                        return None;
                    }
                };
                let Some(t) = Tok::read_back(&text, caps.clone()) else {
                    violate(ALL, "malformed", format!("t{i}: the issued text is not a token: {text}"));
                    return None;
                };
                let exp = match (s.exp, s.lifetime) {
                    (Some(e), _) => (Some(e), Some(e)),
                    (None, Some(l)) => (Some(lo.saturating_add(l)), Some(hi.saturating_add(l))),
                    _ => (None, None),
                };
                let own = if want_prf.is_empty() { None } else { Some(want_prf) };
                let bad = t
                    .diff(&u)
                    .or_else(|| (t.iss != id.did).then(|| format!("issuer {}", t.iss)))
                    .or_else(|| (t.aud != s.aud).then(|| format!("audience {}", t.aud)))
                    .or_else(|| (t.nbf != s.nbf).then(|| format!("not-before {:?}", t.nbf)))
                    .or_else(|| (!(exp.0 <= t.exp && t.exp <= exp.1)).then(|| format!("expiry {:?}, asked for {exp:?}", t.exp)))
                    .or_else(|| (t.prf != own).then(|| format!("proofs {:?} instead of {own:?}", t.prf)))
                    .or_else(|| (t.nnc.is_some() != s.nonce).then(|| format!("nonce {:?}", t.nnc)))
                    .or_else(|| (t.fct != s.fct).then(|| format!("facts {:?}", t.fct)))
                    .or_else(|| (t.alg != id.alg).then(|| format!("algorithm {}", t.alg)));
                if let Some(b) = bad {
                    let time = b.starts_with("expiry");
                    violate(if time { &["C06", "C07"] } else { &["C07", "C13", "C05"] }, "issued-wrong", format!("t{i}: the issued token does not state what was asked: {b}"));
                }
                if !keys::was_signed(&id.did, &t.signed, &t.sig) {
                    violate(&["C07", "C13"], "unsigned", format!("t{i}: the key never gave this signature over this token"));
                }
                return Some(t);
            }
        }
        if attempts == 4 {
            stall().await; // wait for the faults to stop
        } else if attempts > 6 {
            violate(ALL, "never-signs", format!("t{i}: signing keeps failing after faults stopped"));
            return None;
        }
    }
}

/// Another token by the issuer of token `i`, whose digest starts like the short one of `cid` (if so little is easily found).
fn twin_with_prefix(w: &Rc<World>, i: usize, cid: &Cid, genuine: &[u8]) -> Option<Vec<u8>> {
    let t = w.tok(i)?;
    let id = keys::ident_by_did(&t.iss)?;
    let h = Code::try_from(cid.hash().code()).ok()?;
    let mut o = t.clone();
    for k in 0..if id.kind == keys::Kind::Toy && cid.hash().digest().len() == 1 { 2000 } else { 1 } {
        o.nnc = Some(format!("twin {k}"));
        o.seal(Layout::Canonical, id);
        if h.digest(o.text.as_bytes()).digest().starts_with(cid.hash().digest()) {
            break;
        }
    }
    Some(if o.text.as_bytes() == genuine { return None } else { o.text.into_bytes() })
}

fn issue_foreign(w: &Rc<World>, s: &Spec, id: &'static keys::Ident, proof_texts: &[String]) -> Tok {
    let mut prf: Vec<String> = s.cites.iter().zip(proof_texts).map(|(c, t)| cite_string(c, t)).collect();
    let d = s.defect.clone();
    match &d {
        Some(CidMissing) => prf.push(cid_of(Code::Blake3_256, b"nothing").to_string()),
        Some(CidGarbage) => prf.push(pick(&["", "bafy", "not a cid", "zzzzzzz", "QmInvalid"]).to_string()),
        Some(CidCodec) if !prf.is_empty() => {
            let c = Cid::from_str(&prf[0]).unwrap();
            prf[0] = Cid::new_v1(0x71, *c.hash()).to_string();
        }
        Some(CidV0) if !prf.is_empty() => {
            prf[0] = Cid::new_v0(Code::Sha2_256.digest(proof_texts[0].as_bytes())).unwrap().to_string();
        }
        Some(CidCut) if !prf.is_empty() => {
            // a digest too short to tell tokens apart, and a store that has another token for it
            let c = Cid::from_str(&prf[0]).unwrap();
            let n = (*pick(&[0usize, 0, 1, 1, 4, 20])).min(c.hash().digest().len() - 1);
            let short = Cid::new_v1(RAW, Multihash::wrap(c.hash().code(), &c.hash().digest()[..n]).unwrap());
            if let Some(b) = twin_with_prefix(w, s.cites[0].tok, &short, proof_texts[0].as_bytes()) {
                w.store.file_as(&short, &b);
                prf[0] = short.to_string();
            }
        }
        Some(CidCode) if !prf.is_empty() => {
            // a hash nobody here can compute
            let c = Cid::from_str(&prf[0]).unwrap();
            let odd = Cid::new_v1(RAW, Multihash::wrap(*pick(&[0u64, 0x7777, 0x11, 0xd5, 0x1023]), c.hash().digest()).unwrap());
            w.store.file_as(&odd, proof_texts[0].as_bytes());
            prf[0] = odd.to_string();
        }
        _ => {}
    }
    let prf = if prf.is_empty() { if chance(1, 8) { Some(vec![]) } else { None } } else { Some(prf) };
    let mut t = Tok {
        iss: id.did.clone(),
        aud: s.aud.clone(),
        nbf: s.nbf,
        exp: s.exp,
        caps: s.caps.clone(),
        prf,
        nnc: s.nonce.then(|| format!("nonce-{}", draw(1000))),
        fct: s.fct.clone(),
        ucv: pick(&["0.10.0-canary", "0.10.0", "0.9.1"]).to_string(),
        alg: id.alg.into(),
        text: String::new(),
        signed: vec![],
        sig: vec![],
        sig_ok: true,
        parse_ok: true,
    };
    match &d {
        Some(IssForged) => {
            let mut o = pick(&w.dids).clone();
            if o == id.did {
                o = w.dids.iter().find(|x| **x != id.did).unwrap().clone();
            }
            t.iss = o;
        }
        Some(IssForgedLookalike) => {
            let ps = pools();
            let o = ps.toy[draw(ps.toy.len() as u64) as usize];
            t.iss = ps.ids[o].did.clone();
        }
        Some(IssUnparsable) => {
            t.iss = pick(&["", "did:key:z", "did:key:z1", "did:web:x.org", "did:key:z6Mk", "did:key:zO0Il", "DID:KEY:Z"]).to_string()
        }
        _ => {}
    }
    t.seal(s.layout, id);
    match &d {
        Some(SigOtherKey) => {
            let o = keys::ident_by_did(w.dids.iter().find(|x| **x != id.did).unwrap()).unwrap();
            t.sig = o.sign_raw(&t.signed);
            t.sig_ok = false;
        }
        Some(SigOtherData) => {
            // a signature this issuer really gave, over something else
            let other = w.toks.borrow().iter().flatten().find(|o| o.iss == t.iss && o.signed != t.signed && o.sig_ok).map(|o| o.sig.clone());
            t.sig = other.unwrap_or_else(|| id.sign_raw(b"another payload"));
            t.sig_ok = false;
        }
        Some(SigFlip) => {
            let mut k = draw(t.sig.len() as u64 * 8) as usize;
            if k >= t.sig.len() * 8 {
                k = 0;
            }
            t.sig[k / 8] ^= 1 << (k % 8);
            t.sig_ok = false;
        }
        Some(SigEmpty) => {
            t.sig = vec![];
            t.sig_ok = false;
        }
        Some(SigShort) => {
            t.sig.pop();
            t.sig_ok = false;
        }
        Some(SigLong) => {
            t.sig.push(0);
            t.sig_ok = false;
        }
        Some(Altered) => {
            let sig = t.sig.clone();
            let before = t.signed.clone();
            match draw(4) {
                0 => t.exp = t.exp.map(|e| e.saturating_add(1)).or(Some(u64::MAX)),
                1 => t.aud = pick(&w.dids).clone(),
                2 => t.caps.push(DocCap::Cap(gen_cap(&w.dids))),
                _ => t.nnc = Some("altered".into()),
            }
            t.seal(s.layout, id);
            if t.signed != before {
                t.sig = sig;
                t.sig_ok = false;
            }
        }
        _ => {}
    }
    t.retext();
    if let Some(Unparsable) = d {
        t.parse_ok = false;
        match draw(5) {
            0 => t.text = t.text.rsplit_once('.').unwrap().0.to_string(),
            1 => t.text.push('='),
            2 => t.text = format!("{}!", t.text),
            3 => t.text = t.text.replacen('.', "", 1),
            _ => t.text = format!(" {}", t.text),
        }
    }
    if t.sig_ok {
        keys::note_signed(&t.iss, &t.signed, &t.sig);
    }
    t
}

// ------------------------------------------------------------------ verifying

#[derive(Clone, Copy, Debug, PartialEq)]
enum Entry {
    Text,
    Object,
    ByCid(usize),
    Validate,
    Signature,
}
fn gen_entry(hashers: usize) -> Entry {
    match draw(6) {
        0 | 1 => Entry::Text,
        2 => Entry::Object,
        3 => Entry::ByCid(draw(hashers as u64) as usize),
        4 => Entry::Validate,
        _ => Entry::Signature,
    }
}
fn gen_when(w: &World) -> Option<u64> {
    if chance(1, if w.tight { 12 } else { 24 }) {
        return Some(*pick(&[0, 1, u64::MAX, u64::MAX - 1, i64::MAX as u64 + 1, u32::MAX as u64 + 1]));
    }
    if w.tight {
        match draw(4) {
            0 => None,
            1 => Some(w.base + draw(3)),
            _ => {
                // around some bound
                let bounds: Vec<u64> = w.specs.iter().flat_map(|s| [s.nbf, s.exp]).flatten().collect();
                if bounds.is_empty() {
                    Some(w.base)
                } else {
                    let b = bounds[draw(bounds.len() as u64) as usize];
                    Some(match draw(3) {
                        0 => b,
                        1 => b.saturating_sub(1),
                        _ => b.saturating_add(1),
                    })
                }
            }
        }
    } else if chance(1, 2) {
        Some(w.base + draw(3))
    } else {
        None
    }
}

struct Out {
    ok: bool,
    report: Vec<String>,
}

async fn verify(w: &Rc<World>, i: usize, entry: Entry, now: Option<u64>, parser: &mut DidParser, node: usize, strict: bool, label: &str) -> Option<Out> {
    let t = w.tok(i)?;
    let cid = match entry {
        Entry::ByCid(h) => Some(cid_of(HASHERS[h], t.text.as_bytes())),
        _ => None,
    };
    // what the store held when we asked (it only gains blocks)
    let root_present = cid.map(|c| w.store.peek(&c).as_deref() == Some(t.text.as_bytes())).unwrap_or(true);
    let present = {
        let mut memo = HashMap::new();
        w.present(i, &mut memo) && root_present
    };
    let op = begin_op(node);
    let store = w.store;
    let r: Option<Result<Option<ProofChain>, anyhow::Error>> = match entry {
        Entry::Text => cancellable(async { ProofChain::try_from_token_string(&t.text, now, parser, &store).await.map(Some) }).await,
        Entry::Object => {
            cancellable(async {
                let u = Ucan::try_from(t.text.as_str())?;
                ProofChain::from_ucan(u, now, parser, &store).await.map(Some)
            })
            .await
        }
        Entry::ByCid(_) => cancellable(async { ProofChain::from_cid(cid.as_ref().unwrap(), now, parser, &store).await.map(Some) }).await,
        Entry::Validate => {
            cancellable(async {
                let u = Ucan::try_from(t.text.as_str())?;
                u.validate(now, parser).await?;
                Ok(None)
            })
            .await
        }
        Entry::Signature => {
            cancellable(async {
                let u = Ucan::try_from(t.text.as_str())?;
                u.check_signature(parser).await?;
                Ok(None)
            })
            .await
        }
    };
    let o = end_op(op);
    let when = match now {
        Some(t) => When::Fixed(t),
        None => When::Window(o.clock_lo.div_euclid(sys::SEC) as u64, o.clock_hi.div_euclid(sys::SEC) as u64),
    };
    let j = match entry {
        Entry::Validate => w.judge_alone(&t, when),
        Entry::Signature => {
            if !t.parse_ok {
                Judged { no: Some(No::Parse), must: false }
            } else if !t.sig_ok {
                Judged { no: Some(No::Sig), must: false }
            } else {
                Judged { no: None, must: true }
            }
        }
        _ => {
            let j = w.judge(i, when, &mut HashMap::new());
            Judged { must: j.must && present, no: j.no }
        }
    };
    let r = match r {
        None => {
            ev!("{label} {entry:?} t{i}: cancelled");
            return None;
        }
        Some(r) => r,
    };
    ev!("{label} {entry:?} t{i} now={now:?}: {} (model: {}{})", if r.is_ok() { "accepted" } else { "refused" },
        match &j.no { None => "valid".to_string(), Some(n) => format!("{n:?}") }, if j.must { ", must accept" } else { "" });
    match r {
        Ok(c) => {
            *w.accepted.borrow_mut() += 1;
            if let Some(no) = &j.no {
                violate(no.props(), &format!("accepted-{no:?}"), format!("{label} {entry:?} accepted t{i} (now={now:?}, clock {when:?}) although: {no:?}; {}", w.explain(i)));
                return None;
            }
            let Some(c) = c else { return Some(Out { ok: true, report: vec![] }) };
            if let Some(d) = w.diff_chain(&c, i, &format!("t{i}")) {
                violate(&["C03", "C05", "C07", "C12"], "wrong-chain", format!("{label} {entry:?}: the accepted chain of t{i} is not the one cited: {d}"));
                return None;
            }
            if let Some(x) = w.all_verified(i, &mut BTreeSet::new()) {
                violate(&["C03", "C07"], "unverified", format!("{label} {entry:?} accepted t{i} though no key ever confirmed the signature of t{x}"));
            }
            check_cids(w, &c, i);
            let mut rep = w.check_authority(&MailSem, &c, i);
            rep.extend(w.check_authority(&FsSem, &c, i));
            probe(&format!("accepted:depth{}", depth(&c).min(9)));
            if !c.proofs().is_empty() {
                probe("accepted:chain");
                probe("nontrivial");
            }
            Some(Out { ok: true, report: rep })
        }
        Err(e) => {
            *w.rejected.borrow_mut() += 1;
            if let Some(no) = &j.no {
                probe(&format!("refused:{no:?}"));
                probe("nontrivial");
            }
            if j.must && o.faults == 0 {
                let props: &[&str] = if strict { &["C13", "C03", "C05", "C06", "C07", "C12"] } else { &["C13", "C05", "C06", "C07", "C12"] };
                violate(props, "refused-valid", format!("{label} {entry:?} refused the valid t{i} (now={now:?}, clock {when:?}) without a fault: {e:#}; {}", w.explain(i)));
            }
            Some(Out { ok: false, report: vec![] })
        }
    }
}

fn depth(c: &ProofChain) -> usize {
    1 + c.proofs().iter().map(depth).max().unwrap_or(0)
}
fn check_cids(w: &World, c: &ProofChain, i: usize) {
    let Some(t) = w.tok(i) else { return };
    let h = HASHERS[(t.text.len() + i) % HASHERS.len()];
    match c.ucan().to_cid(h) {
        Ok(x) => {
            if x != cid_of(h, t.text.as_bytes()) {
                violate(&["C05"], "own-cid", format!("t{i} computes {x} for itself, a store files it under {}", cid_of(h, t.text.as_bytes())));
            }
        }
        Err(e) => violate(&["C05"], "own-cid", format!("t{i} cannot compute its identifier: {e}")),
    }
    for (p, s) in c.proofs().iter().zip(t.prf.iter().flatten()) {
        if let Some((_, pid)) = w.resolve(s) {
            check_cids(w, p, pid);
        }
    }
}

impl World {
    /// Are all proofs of `i` in the store, with the right contents?
    fn present(&self, i: usize, memo: &mut HashMap<usize, bool>) -> bool {
        if let Some(b) = memo.get(&i) {
            return *b;
        }
        let Some(t) = self.tok(i) else { return false };
        let r = t.prf.iter().flatten().all(|s| match self.resolve(s) {
            Some((cid, p)) => {
                self.tok(p).map(|p| self.store.peek(&cid).as_deref() == Some(p.text.as_bytes())).unwrap_or(false) && self.present(p, memo)
            }
            None => false,
        });
        memo.insert(i, r);
        r
    }
    fn explain(&self, i: usize) -> String {
        let Some(t) = self.tok(i) else { return String::new() };
        format!(
            "t{i}: iss {} aud {} {:?}..{:?} sig_ok={} prf={:?}",
            self.who(&t.iss),
            self.who(&t.aud),
            t.nbf,
            t.exp,
            t.sig_ok,
            t.prf.iter().flatten().map(|s| self.resolve(s).map(|x| x.1)).collect::<Vec<_>>()
        )
    }
}

async fn verifier(w: Rc<World>, v: usize, ops: u64, hashers: usize) {
    for _ in 0..ops {
        if violated() {
            return;
        }
        latency().await;
        // a damaged text off the wire, now and then
        let ex = w.extra.borrow().clone();
        if !ex.is_empty() && chance(1, 3) {
            let text = ex[draw(ex.len() as u64) as usize].clone();
            let Some(mut p) = w.parsers.borrow_mut()[v].take() else { return };
            let r = ProofChain::try_from_token_string(&text, Some(w.base), &mut p, &w.store).await;
            w.parsers.borrow_mut()[v] = Some(p);
            if r.is_ok() && !w.toks.borrow().iter().flatten().any(|t| t.text == text) {
                violate(&["C03", "C04", "C12"], "accepted-damaged", format!("v{v} accepted a damaged token: {text}"));
            }
            continue;
        }
        let issued: Vec<usize> = w.toks.borrow().iter().enumerate().filter(|(_, t)| t.is_some()).map(|(i, _)| i).collect();
        if issued.is_empty() {
            sleep(sys::SEC).await;
            continue;
        }
        let i = issued[issued.len() - 1 - draw(issued.len() as u64) as usize];
        if chance(1, 6) {
            let j = issued[draw(issued.len() as u64) as usize];
            predicates(&w, i, j, &format!("v{v}"));
            continue;
        }
        let entry = gen_entry(hashers);
        let now = gen_when(&w);
        let Some(mut p) = w.parsers.borrow_mut()[v].take() else { return };
        verify(&w, i, entry, now, &mut p, v, false, &format!("v{v}")).await;
        w.parsers.borrow_mut()[v] = Some(p);
    }
}

/// What the tokens themselves say about their validity periods, by themselves and with respect to each other.
fn predicates(w: &World, i: usize, j: usize, label: &str) {
    let (Some(t), Some(o)) = (w.tok(i), w.tok(j)) else { return };
    if !t.parse_ok || !o.parse_ok {
        return;
    }
    let Some((Ok(u), Ok(x))) = guard("parsing", || (Ucan::from_str(&t.text), Ucan::from_str(&o.text))) else { return };
    let now = gen_when(w);
    let (lo, hi, (exp, early)) = clock_window(|| (u.is_expired(now), u.is_too_early()));
    let (a, b) = now.map(|n| (n, n)).unwrap_or((lo.min(hi), hi.max(lo)));
    let (e, n) = (t.exp.unwrap_or(u64::MAX), t.nbf.unwrap_or(0));
    ev!("{label} t{i} {n}..{e} at {now:?} (clock {lo}..{hi}): expired {exp}, too early {early}");
    if (exp && e >= b) || (!exp && e < a) {
        violate(&["C06"], "predicate", format!("{label}: t{i}, valid {n}..{e}, says expired={exp} at {now:?}, clock {lo}..{hi}"));
    }
    if (early && n <= lo.min(hi)) || (!early && n > lo.max(hi)) {
        violate(&["C06"], "predicate", format!("{label}: t{i}, valid {n}..{e}, says too early={early}, clock {lo}..{hi}"));
    }
    let (begins, ends, both) = (u.lifetime_begins_before(&x), u.lifetime_ends_after(&x), u.lifetime_encompasses(&x));
    // bounds that bind nothing may be read either way
    if t.nbf == Some(0) || o.nbf == Some(0) || t.exp == Some(u64::MAX) || o.exp == Some(u64::MAX) {
        return;
    }
    let (b0, e0) = (n <= o.nbf.unwrap_or(0), e >= o.exp.unwrap_or(u64::MAX));
    if begins != b0 || ends != e0 || both != (b0 && e0) {
        violate(&["C03", "C06"], "predicate", format!("{label}: t{i} {:?}..{:?} says it begins before={begins}, ends after={ends}, encompasses={both} t{j} {:?}..{:?}", t.nbf, t.exp, o.nbf, o.exp));
    }
}

async fn clock_trouble(nodes: usize) {
    for _ in 0..1 + draw(4) {
        sleep((1 + draw(20)) as i128 * sys::SEC / 2).await;
        let n = draw(nodes as u64) as usize;
        let d = *pick(&[1i128, 2, 30, 700, 100_000]);
        if fault(F::ClockJumpFwd) {
            jump_clock(n, d * sys::SEC);
        }
        if fault(F::ClockJumpBack) {
            jump_clock(n, -d * sys::SEC);
        }
    }
}

async fn finally(w: Rc<World>, hashers: usize, nverif: usize) {
    let n = w.specs.len();
    let mut order: Vec<usize> = (0..n).rev().collect();
    if n > 6 {
        order = vec![n - 1, n - 2, draw(n as u64) as usize, draw(n as u64) as usize];
    }
    if chance(1, 2) {
        order.reverse();
    }
    for i in order {
        if violated() {
            return;
        }
        let entry = match gen_entry(hashers) {
            Entry::ByCid(h) => Entry::ByCid(h),
            e => e,
        };
        let now = gen_when(&w).or_else(|| if w.tight { None } else { Some(w.base) });
        let v = draw(nverif as u64) as usize;
        let mut outs = Vec::new();
        {
            let Some(mut p) = w.parsers.borrow_mut()[v].take() else { return };
            let o = verify(&w, i, entry, now, &mut p, v, true, &format!("final v{v}")).await;
            w.parsers.borrow_mut()[v] = Some(p);
            outs.push(o);
        }
        if violated() {
            return;
        }
        let mut fresh = new_parser();
        outs.push(verify(&w, i, entry, now, &mut fresh, v, true, "final fresh").await);
        if let (Some(Some(a)), Some(Some(b))) = (outs.first(), outs.get(1)) {
            if now.is_some() && a.ok != b.ok {
                violate(&["C12"], "verdict-differs", format!("t{i} {entry:?} now={now:?}: accepted={} by a parser with a history, accepted={} by a fresh one", a.ok, b.ok));
            }
            if a.ok && b.ok && a.report != b.report {
                violate(&["C12"], "authority-differs", format!("t{i}: authority found with a used parser {:?}, with a fresh one {:?}", a.report, b.report));
            }
        }
    }
}

// ------------------------------------------------------------------ the run

pub fn run() {
    let prop = prop();
    let p = profile(&prop);
    let tick = *pick(&[0i128, 0, 1_000_000, 300_000_000, 999_999_999]);
    let frac = draw(4) as i128 * 333_333_333;
    let nverif = 1 + draw(3) as usize;
    with(|c| {
        c.epoch += frac;
        c.skew = vec![0; nverif];
        c.lat_max = 0;
    });
    let lat = draw(LATS);
    with(|c| c.lat_max = lat);
    const LO: &[u16] = &[20, 80, 250];
    match prop.as_str() {
        "C01" | "C02" => swarm(&[(F::NetDup, &[200]), (F::NetDelay, &[200]), (F::StoreReadErr, &[20]), (F::Cancel, &[20]), (F::StoreMisdirect, &[20, 80])]),
        "C03" => swarm(&[(F::StoreReadErr, LO), (F::StoreReadMiss, LO), (F::StoreCorrupt, LO), (F::StoreMisdirect, LO), (F::NetCorrupt, &[100]), (F::KeyVerifyErr, LO)]),
        "C05" => swarm(&[(F::StoreCorrupt, LO), (F::StoreTruncate, LO), (F::StoreMisdirect, &[80, 250, 500]), (F::StoreReadMiss, &[20])]),
        "C06" => swarm(&[(F::ClockJumpFwd, &[500]), (F::ClockJumpBack, &[500]), (F::KeyVerifyErr, &[20])]),
        "C07" => swarm(&[
            (F::StoreReadErr, LO), (F::StoreShortRead, LO), (F::StoreReadMiss, LO), (F::StoreStall, &[20, 80]), (F::StoreCorrupt, LO), (F::StoreTruncate, LO), (F::StoreMisdirect, LO),
            (F::KeySignErr, LO), (F::KeyVerifyErr, LO), (F::KeyDidErr, LO), (F::KeyCtorErr, LO), (F::KeyStall, &[20, 80]), (F::Cancel, LO), (F::StoreWriteErr, LO),
            (F::NetDrop, LO),
        ]),
        "C12" => swarm(&[
            (F::KeyVerifyErr, LO), (F::KeyCtorErr, LO), (F::Cancel, LO), (F::StoreReadErr, LO), (F::StoreMisdirect, LO), (F::ClockJumpFwd, &[300]), (F::ClockJumpBack, &[300]),
            (F::NetCorrupt, &[200]),
        ]),
        _ => swarm(&[(F::NetDrop, LO), (F::NetDup, &[250]), (F::NetDelay, &[250]), (F::StoreStall, &[20, 80]), (F::KeyStall, &[20, 80]), (F::StoreReadErr, &[20])]),
    }
    if p.clock_faults && chance(1, 2) {
        for v in 0..nverif {
            if chance(1, 2) {
                let d = *pick(&[1i128, -1, 30, -30, 601, -601, 86_400, -86_400]);
                with(|c| {
                    c.skew[v] = d * sys::SEC;
                    c.note_fault(F::ClockSkew);
                });
            }
        }
    }
    with(|c| {
        c.tick = if p.clock_faults { tick } else { 0 };
        if c.tick > 0 {
            c.note_fault(F::ClockTick);
        }
    });
    let real_memory = chance(1, 5);
    let hashers = if real_memory { 1 } else { HASHERS.len() };
    let store = SimStore::new(real_memory, true);
    let base = clock_secs(0).max(1_700_000_000);
    let base = if p.tight_time { base } else { 1_700_000_000 };
    let (specs, people) = plan(&p, base, hashers);
    let n = specs.len();
    let dids: Vec<String> = people.iter().map(|i| ident(*i).did.clone()).collect();
    let mut probes = Vec::new();
    if p.rich_caps {
        let all: Vec<MCap> = specs.iter().flat_map(|s| s.caps.iter()).filter_map(|c| if let DocCap::Cap(m) = c { Some(m.clone()) } else { None }).collect();
        for c in all.iter().take(6) {
            probes.push(vary_cap(c, &dids));
        }
    }
    let w = Rc::new(World {
        store,
        toks: RefCell::new(vec![None; n]),
        texts: RefCell::new((0..n).map(|_| Cellq::new()).collect()),
        specs,
        truth: Default::default(),
        extra: Default::default(),
        parsers: RefCell::new((0..nverif).map(|_| Some(new_parser())).collect()),
        dids,
        tight: p.tight_time,
        base,
        probes: RefCell::new(probes),
        unfiled: Default::default(),
        accepted: Default::default(),
        rejected: Default::default(),
    });
    for i in 0..n {
        spawn(&format!("issue{i}"), 0, issue(w.clone(), i));
    }
    for v in 0..nverif {
        let ops = 1 + draw(p.ops);
        spawn(&format!("verifier{v}"), v, verifier(w.clone(), v, ops, hashers));
    }
    if fault_enabled(F::ClockJumpBack) || fault_enabled(F::ClockJumpFwd) {
        spawn("clock", 0, clock_trouble(nverif));
    }
    let budget = 400_000;
    match run_tasks(budget) {
        RunEnd::Budget => return violate(ALL, "no-progress", "the step budget ran out while faults flowed".into()),
        RunEnd::Deadlock(_) => probe("stalled-until-heal"),
        RunEnd::Done => {}
    }
    if violated() {
        return;
    }
    heal();
    match run_tasks(budget) {
        RunEnd::Done => {}
        e => return violate(ALL, "no-progress", format!("operations do not end after faults stopped: {e:?}")),
    }
    if violated() {
        return;
    }
    // deliver what was lost on the way
    let lost: Vec<usize> = w.unfiled.borrow().iter().copied().collect();
    for i in lost {
        if let Some(t) = w.tok(i) {
            if w.store.is_memory() {
                w.store.file_as(&cid_of(Code::Blake3_256, t.text.as_bytes()), t.text.as_bytes());
            } else {
                w.store.file(t.text.as_bytes());
            }
        }
    }
    if w.toks.borrow().iter().any(|t| t.is_none()) {
        return;
    }
    // a store that is permanently wrong about some blocks
    if chance(p.misfile.0, p.misfile.1) {
        misfile(&w, hashers);
    }
    spawn("final", 0, finally(w.clone(), hashers, nverif));
    match run_tasks(budget) {
        RunEnd::Done => {}
        e => violate(ALL, "no-progress", format!("final verification does not end: {e:?}")),
    }
}

/// The store answers a content identifier with bytes that do not hash to it.
fn misfile(w: &Rc<World>, hashers: usize) {
    let n = w.specs.len();
    for _ in 0..1 + draw(2) {
        let i = draw(n as u64) as usize;
        let t = w.tok(i).unwrap();
        let kind = draw(7);
        let bytes: Option<Vec<u8>> = match kind {
            // a token by the same issuer for the same audience, properly signed, saying more
            0..=2 => {
                let Some(id) = keys::ident_by_did(&t.iss) else { continue };
                let mut o = t.clone();
                o.ucv = "0.10.0-canary".into();
                match kind {
                    0 => o.nnc = Some("twin".into()),
                    1 => {
                        o.exp = None;
                        o.nbf = None;
                    }
                    _ => {
                        o.prf = None;
                        o.caps = vec![DocCap::Cap(gen_cap(&w.dids))];
                    }
                }
                o.seal(Layout::Canonical, id);
                if o.text == t.text {
                    None
                } else {
                    Some(o.text.into_bytes())
                }
            }
            3 => {
                let o = w.tok(draw(n as u64) as usize).unwrap();
                Some(o.text.into_bytes())
            }
            4 => None,
            5 => {
                let mut b = t.text.clone().into_bytes();
                damage(&mut b);
                Some(b)
            }
            _ => {
                // the same token, re-encoded: an additional segment or different spacing hashes differently
                Some(format!("{}.", t.text).into_bytes())
            }
        };
        ev!("the store misfiles t{i} (kind {kind})");
        note_fault(F::StoreMisdirect);
        for h in 0..hashers.max(1) {
            let c = cid_of(HASHERS[h], t.text.as_bytes());
            match &bytes {
                Some(b) => w.store.file_as(&c, b),
                None => {
                    if !w.store.is_memory() {
                        w.store.remove(&c)
                    }
                }
            }
        }
    }
}
