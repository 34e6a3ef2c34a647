//! C11, C12: verifiers and issuers on real OS threads that share one MemoryStore and everything the library keeps
//! between calls. Exactly one thread runs at a time; control may move at every allocation and release inside the
//! library, inside the keys, and wherever a lock blocks. What a thread finds must be what it finds alone.
use crate::ctx::{self, chance, draw, pick, probe, prop, violate, with, Ctx, F};
use crate::gen::{foreign, gen_req, Req};
use crate::keys::{ident, pools, raw_parser, Ident};
use crate::model::*;
use crate::store::{cid_of, HASHERS};
use crate::sys;
use crate::threads::{self, Body};
use crate::tok::*;
use anyhow::Result;
use async_trait::async_trait;
use cid::multihash::Code;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex, OnceLock};
use std::task::Poll;
use ucan::builder::{Signable, UcanBuilder};
use ucan::chain::ProofChain;
use ucan::crypto::did::DidParser;
use ucan::crypto::KeyMaterial;
use ucan::store::{MemoryStore, UcanJwtStore};
use ucan::Ucan;

thread_local! {
    static FAULTED: Cell<bool> = const { Cell::new(false) };
}
/// A key on a simulated thread: it can be preempted, suspended and can fail.
pub struct TKey {
    pub inner: Box<dyn KeyMaterial>,
}
async fn trouble(f: F) -> Result<()> {
    threads::yield_point(threads::Y_CODE);
    if threads::tchance(4) {
        let mut first = true;
        std::future::poll_fn(|cx| {
            if std::mem::take(&mut first) {
                cx.waker().wake_by_ref();
                Poll::Pending
            } else {
                Poll::Ready(())
            }
        })
        .await;
    }
    if threads::tfault(f) {
        FAULTED.with(|c| c.set(true));
        return Err(anyhow::anyhow!("simulated: the key is not available"));
    }
    Ok(())
}
#[async_trait]
impl KeyMaterial for TKey {
    fn get_jwt_algorithm_name(&self) -> String {
        threads::yield_point(threads::Y_CODE);
        self.inner.get_jwt_algorithm_name()
    }
    async fn get_did(&self) -> Result<String> {
        trouble(F::KeyDidErr).await?;
        self.inner.get_did().await
    }
    async fn sign(&self, payload: &[u8]) -> Result<Vec<u8>> {
        trouble(F::KeySignErr).await?;
        let r = self.inner.sign(payload).await;
        threads::yield_point(threads::Y_CODE);
        r
    }
    async fn verify(&self, payload: &[u8], signature: &[u8]) -> Result<()> {
        trouble(F::KeyVerifyErr).await?;
        self.inner.verify(payload, signature).await
    }
}
fn signers() -> &'static Vec<TKey> {
    static S: OnceLock<Vec<TKey>> = OnceLock::new();
    S.get_or_init(|| pools().ids.iter().map(|i| TKey { inner: i.boxed() }).collect())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Entry {
    Text,
    Object,
    ByCid(usize),
    Validate,
    Signature,
}
enum Op {
    Verify { tok: usize, entry: Entry, now: Option<u64>, fresh: bool },
    Sign { req: usize },
    SignShared(Arc<Signable<'static, TKey>>, usize),
    Write(usize),
    Read(usize),
}
struct T {
    tok: Tok,
    cites: Vec<usize>,
    /// why its own signature, itself now, its chain must be refused
    bad_sig: Option<&'static str>,
    bad_alone: Option<&'static str>,
    bad_chain: Option<&'static str>,
}
type Report = Vec<(String, BTreeSet<String>)>;
enum Got {
    Refused(String),
    Accepted(Option<(Report, Vec<String>)>),
    Signed(Box<Ucan>, std::result::Result<String, String>, u64),
    SignRefused(String),
    Panicked(String),
    Store(String),
}
struct Done {
    thread: usize,
    at: usize,
    faulted: bool,
    got: Got,
}

fn report(c: &ProofChain) -> Report {
    fn one<M: ModelSem>(sem: &M, c: &ProofChain, out: &mut Report) {
        for i in c.reduce_capabilities(sem) {
            let name = M::lift(&i.capability).map(|m| m.show()).unwrap_or_else(|| format!("{:?}", i.capability));
            out.push((format!("{name} {:?}..{:?}", i.not_before, i.expires_at), i.originators.iter().cloned().collect()));
        }
    }
    let mut out = vec![];
    one(&MailSem, c, &mut out);
    one(&FsSem, c, &mut out);
    out.sort();
    out
}
/// The texts of a chain, root first.
fn texts(c: &ProofChain, out: &mut Vec<String>) {
    out.push(c.ucan().encode().unwrap_or_else(|e| format!("{e}")));
    for p in c.proofs() {
        texts(p, out);
    }
}
async fn check(text: &str, entry: Entry, now: Option<u64>, p: &mut DidParser, store: &MemoryStore) -> Result<Option<ProofChain>> {
    match entry {
        Entry::Text => ProofChain::try_from_token_string(text, now, p, store).await.map(Some),
        Entry::Object => ProofChain::from_ucan(Ucan::try_from(text)?, now, p, store).await.map(Some),
        Entry::ByCid(h) => ProofChain::from_cid(&cid_of(HASHERS[h], text.as_bytes()), now, p, store).await.map(Some),
        Entry::Validate => Ucan::try_from(text)?.validate(now, p).await.map(|_| None),
        Entry::Signature => Ucan::try_from(text)?.check_signature(p).await.map(|_| None),
    }
}
fn builder_of(r: &Req, parsed: &[Ucan]) -> UcanBuilder<'static, TKey> {
    let mut b = UcanBuilder::default().issued_by(&signers()[r.iss]).for_audience(&r.aud);
    for c in &r.caps {
        let (res, a, v) = c.triple();
        if let Some(v) = v {
            b = b.claiming_capability(ucan::capability::Capability::new(res, a, v));
        }
    }
    for ((_, h), u) in r.cites.iter().zip(parsed) {
        b = b.witnessed_by(u, Some(*h));
    }
    if let Some(n) = r.nbf {
        b = b.not_before(n);
    }
    match r.exp {
        Some(e) if e < 1_000_000 => b = b.with_lifetime(e),
        Some(e) => b = b.with_expiration(e),
        None => {}
    }
    if r.nonce {
        b = b.with_nonce();
    }
    for (k, v) in r.fct.iter().flatten() {
        b = b.with_fact(k, v.clone());
    }
    b
}

struct Shared {
    toks: Vec<T>,
    reqs: Vec<(Req, Vec<Ucan>)>,
    out: Mutex<Vec<Done>>,
}

fn client(me: usize, sh: Arc<Shared>, mut store: MemoryStore, ops: Arc<Vec<(Op, u64)>>) {
    let mut parser = raw_parser();
    for (at, (op, clock)) in ops.iter().enumerate() {
        FAULTED.with(|c| c.set(false));
        sys::set_clock(*clock as i128 * sys::SEC, 0);
        let got = match op {
            Op::Verify { tok, entry, now, fresh } => {
                let text = &sh.toks[*tok].tok.text;
                threads::tlog(|| format!("T{me} verifies t{tok} by {entry:?}"));
                let r = threads::exposed(|| {
                    if *fresh {
                        parser = raw_parser();
                    }
                    let r = threads::wait(me, check(text, *entry, *now, &mut parser, &store));
                    match r {
                        Err(e) => Got::Refused(format!("{e:#}")),
                        Ok(None) => Got::Accepted(None),
                        Ok(Some(c)) => {
                            let mut t = vec![];
                            texts(&c, &mut t);
                            Got::Accepted(Some((report(&c), t)))
                        }
                    }
                });
                r.unwrap_or_else(Got::Panicked)
            }
            Op::Sign { .. } | Op::SignShared(..) => {
                threads::tlog(|| format!("T{me} signs"));
                let r = threads::exposed(|| {
                    let own;
                    let s: &Signable<TKey> = match op {
                        Op::Sign { req } => match builder_of(&sh.reqs[*req].0, &sh.reqs[*req].1).build() {
                            Ok(s) => {
                                own = s;
                                &own
                            }
                            Err(e) => return Got::SignRefused(format!("build: {e:#}")),
                        },
                        Op::SignShared(s, _) => s,
                        _ => unreachable!(),
                    };
                    match threads::wait(me, s.sign()) {
                        Err(e) => Got::SignRefused(format!("{e:#}")),
                        Ok(u) => {
                            let t = u.encode().map_err(|e| format!("{e:#}"));
                            Got::Signed(Box::new(u), t, *clock)
                        }
                    }
                });
                r.unwrap_or_else(Got::Panicked)
            }
            Op::Write(k) => {
                let text = format!("another block {k}");
                let r = threads::exposed(|| match threads::wait(me, store.write_token(&text)) {
                    Ok(c) if c == cid_of(Code::Blake3_256, text.as_bytes()) => Got::Store(String::new()),
                    o => Got::Store(format!("writing: {o:?}")),
                });
                r.unwrap_or_else(Got::Panicked)
            }
            Op::Read(k) => {
                let text = format!("another block {k}");
                let r = threads::exposed(|| match threads::wait(me, store.read_token(&cid_of(Code::Blake3_256, text.as_bytes()))) {
                    Ok(None) => Got::Store(String::new()),
                    Ok(Some(t)) if t == text => Got::Store(String::new()),
                    o => Got::Store(format!("reading: {o:?}")),
                });
                r.unwrap_or_else(Got::Panicked)
            }
        };
        threads::tlog(|| {
            format!("T{me} -> {}", match &got {
                Got::Refused(_) => "refused".to_string(),
                Got::Accepted(r) => format!("accepted{}", r.as_ref().map(|r| format!(", {} capabilities", r.0.len())).unwrap_or_default()),
                Got::Signed(..) => "signed".into(),
                Got::SignRefused(_) => "not signed".into(),
                Got::Panicked(_) => "panicked".into(),
                Got::Store(s) => format!("store {s}"),
            })
        });
        let faulted = FAULTED.with(|c| c.get());
        sh.out.lock().unwrap_or_else(|p| p.into_inner()).push(Done { thread: me, at, faulted, got });
    }
    let _ = threads::exposed(move || {
        drop(parser);
        drop(store);
    });
}

/// What the process keeps for ever after the first use of anything must not depend on the run: use it all once.
pub fn warm_up() {
    static W: OnceLock<()> = OnceLock::new();
    W.get_or_init(|| {
        let _ = std::thread::spawn(|| {
            sys::sim_enter(1);
            sys::set_clock(1_700_000_000 * sys::SEC, 0);
            let p = pools();
            let mut store = MemoryStore::default();
            let mut before: Option<Ucan> = None;
            for k in [p.ed[0], p.p256[0], p.rsa[0], p.toy[0], p.ed[1]] {
                let id = ident(k);
                let mut b = UcanBuilder::default()
                    .issued_by(&signers()[k])
                    .for_audience(&id.did)
                    .with_lifetime(1000)
                    .with_nonce()
                    .with_fact("a", serde_json::json!({"b": [1, null, 1.5, -1, "x"]}))
                    .not_before(5);
                for (r, a) in [("fs://h/p/q", "fs/create"), ("mailto:a@x.org", "email/send"), ("my:mailto:*", "email/read"), ("as:did:key:zX:fs:*", "fs/create"), ("prf:*", "ucan/DELEGATE"), ("prf:0", "ucan/DELEGATE"), ("no", "x/y")] {
                    b = b.claiming_capability(ucan::capability::Capability::new(r.into(), a.into(), serde_json::json!({"k": [1, "s", true]})));
                }
                if let Some(u) = &before {
                    b = b.witnessed_by(u, None).delegating_from(u, Some(Code::Sha2_256));
                }
                let Some(Ok(u)) = ctx::now_or_never(async { b.build()?.sign().await }) else { continue };
                let text = u.encode().unwrap_or_default();
                let _ = ctx::now_or_never(store.write_token(&text));
                let mut parser = raw_parser();
                for e in [Entry::Text, Entry::Object, Entry::ByCid(0), Entry::Validate, Entry::Signature] {
                    for text in [text.as_str(), "a.b.c", "x", &format!("{text}AA"), &text.replace('e', "f")] {
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            if let Some(Ok(Some(c))) = ctx::now_or_never(check(text, e, None, &mut parser, &store)) {
                                let _ = report(&c);
                            }
                        }));
                    }
                }
                before = Some(u);
            }
            let _ = UcanBuilder::<TKey>::default().for_audience("did:key:z").with_lifetime(1).build();
            let _ = threads::warm_up();
        })
        .join();
    });
}

/// A token's defect, its own or one it inherits.
fn gen_tokens(people: &[usize], base: u64) -> Vec<T> {
    let dids: Vec<String> = people.iter().map(|i| ident(*i).did.clone()).collect();
    let n = 2 + draw(6) as usize;
    let mut out: Vec<T> = vec![];
    for i in 0..n {
        let from = if i > 0 && chance(2, 3) { Some(draw(i as u64) as usize) } else { None };
        let iss = from.and_then(|f| people.iter().copied().find(|p| ident(*p).did == out[f].tok.aud)).unwrap_or_else(|| *pick(people));
        let id: &'static Ident = ident(iss);
        let mut cites: Vec<usize> = (0..i).filter(|k| out[*k].tok.aud == id.did).filter(|k| Some(*k) == from || chance(1, 2)).collect();
        cites.truncate(3);
        let mut caps: Vec<DocCap> = vec![];
        for _ in 0..1 + draw(2) {
            let parent: Vec<MCap> = cites.iter().flat_map(|c| out[*c].tok.caps.iter()).filter_map(|c| if let DocCap::Cap(m) = c { Some(m.clone()) } else { None }).collect();
            caps.push(match draw(4) {
                0 if !cites.is_empty() => DocCap::Prf(if chance(1, 2) { None } else { Some(draw(cites.len() as u64) as usize) }),
                1 | 2 if !parent.is_empty() => DocCap::Cap(vary_cap(pick(&parent), &dids)),
                _ => DocCap::Cap(gen_cap(&dids)),
            });
        }
        let mut req = Req {
            iss,
            aud: pick(&dids).clone(),
            nbf: None,
            exp: Some(base + 1_000_000),
            caps,
            nonce: chance(1, 3),
            fct: gen_facts(),
            cites: cites.iter().map(|c| (out[*c].tok.text.clone(), Code::Blake3_256)).collect(),
        };
        let (mut bad_sig, mut bad_alone, mut bad_chain) = (None, None, None);
        match draw(10) {
            1 => {
                req.exp = Some(base - 100);
                bad_alone = Some("it has expired");
            }
            2 => {
                // nobody holds this proof
                req.cites.push((format!("never filed {}", draw(1 << 30)), Code::Blake3_256));
                bad_chain = Some("a proof is nowhere to be found");
            }
            3 => {
                // a proof made out to somebody else
                if let Some(k) = (0..i).find(|k| out[*k].tok.aud != id.did) {
                    req.cites.push((out[k].tok.text.clone(), Code::Blake3_256));
                    bad_chain = Some("a proof is not addressed to the issuer");
                }
            }
            _ => {}
        }
        let mut tok = foreign(&req, gen_layout());
        match draw(10) {
            1 => {
                let k = draw(tok.sig.len() as u64) as usize;
                tok.sig[k] ^= 1 << draw(8);
                tok.retext();
                bad_sig = Some("the signature is damaged");
            }
            2 => {
                // signed by another principal of the same key type
                if let Some(o) = people.iter().copied().find(|p| *p != iss && ident(*p).kind == id.kind) {
                    tok.sig = ident(o).sign_raw(&tok.signed);
                    tok.retext();
                    bad_sig = Some("somebody else signed it");
                }
            }
            3 if i > 0 => {
                // the signature of another token
                let o = &out[draw(i as u64) as usize].tok;
                if o.signed != tok.signed && o.sig != tok.sig {
                    tok.sig = o.sig.clone();
                    tok.retext();
                    bad_sig = Some("the signature is another token's");
                }
            }
            _ => {}
        }
        bad_alone = bad_sig.or(bad_alone);
        bad_chain = bad_alone.or(bad_chain).or(cites.iter().find_map(|c| out[*c].bad_chain));
        out.push(T { tok, cites, bad_sig, bad_alone, bad_chain });
    }
    out
}

pub fn run() {
    warm_up();
    let pl = pools();
    let rsa = chance(1, 12);
    let mut people: Vec<usize> = vec![];
    for _ in 0..2 + draw(3) {
        let set = match draw(8) {
            0..=3 => &pl.toy,
            4 | 5 => &pl.ed,
            6 => &pl.p256,
            _ if rsa => &pl.rsa,
            _ => &pl.toy,
        };
        let k = set[draw(set.len() as u64) as usize];
        if !people.contains(&k) {
            people.push(k);
        }
    }
    let base = 1_700_000_000u64;
    let toks = gen_tokens(&people, base);
    let entropy = draw(1 << 40);
    let store = threads::fresh_store(entropy);
    for (i, t) in toks.iter().enumerate() {
        let mut st = store.clone();
        if !matches!(ctx::now_or_never(st.write_token(&t.tok.text)), Some(Ok(_))) {
            return violate(&["C11", "C12"], "store", format!("t{i} cannot be filed"));
        }
    }
    // requests
    let c11 = prop() == "C11";
    let nreq = if c11 { 1 + draw(4) } else { draw(3) };
    let mut reqs: Vec<(Req, Vec<Ucan>)> = vec![];
    for _ in 0..nreq {
        let mut r = gen_req(&people, base).without_nulls();
        r.caps.retain(|c| !matches!(c, DocCap::Empty(..)));
        if chance(1, 3) {
            r.exp = Some(draw(100_000)); // a lifetime
        }
        let mut parsed = vec![];
        for _ in 0..draw(3) {
            let k = draw(toks.len() as u64) as usize;
            if let Ok(u) = Ucan::try_from(toks[k].tok.text.as_str()) {
                r.cites.push((toks[k].tok.text.clone(), *pick(&[Code::Blake3_256, Code::Sha2_256])));
                parsed.push(u);
            }
        }
        reqs.push((r, parsed));
    }
    let mut shared: Vec<(Arc<Signable<'static, TKey>>, usize, u64)> = vec![];
    for k in 0..reqs.len() {
        if chance(1, 2) {
            let at = base + draw(50);
            sys::set_clock(at as i128 * sys::SEC, 0);
            match builder_of(&reqs[k].0, &reqs[k].1).build() {
                Ok(s) => shared.push((Arc::new(s), k, at)),
                Err(e) => return violate(&["C11"], "build-failed", format!("a complete request does not build: {e:#}")),
            }
        }
    }
    let nth = 2 + draw(3) as usize;
    // often everybody looks at the same few tokens
    let few = 1 + draw(toks.len() as u64) as usize;
    let mut plans: Vec<Arc<Vec<(Op, u64)>>> = vec![];
    for _ in 0..nth {
        let mut ops = vec![];
        for _ in 0..1 + draw(5) {
            let k = draw(20);
            let sign = if c11 { k < 14 } else { k < 3 };
            let op = if sign && !reqs.is_empty() {
                if !shared.is_empty() && chance(1, 2) {
                    let s = &shared[draw(shared.len() as u64) as usize];
                    Op::SignShared(s.0.clone(), s.1)
                } else {
                    Op::Sign { req: draw(reqs.len() as u64) as usize }
                }
            } else if k == 19 {
                Op::Write(draw(2) as usize)
            } else if k == 18 {
                Op::Read(draw(2) as usize)
            } else {
                let entry = match draw(7) {
                    0..=2 => Entry::Text,
                    3 => Entry::Object,
                    4 => Entry::ByCid(0),
                    5 => Entry::Validate,
                    _ => Entry::Signature,
                };
                let tok = toks.len() - 1 - draw(few as u64) as usize;
                Op::Verify { tok, entry, now: if chance(1, 2) { Some(base + draw(20)) } else { None }, fresh: chance(1, 4) }
            };
            ops.push((op, base + draw(50)));
        }
        plans.push(Arc::new(ops));
    }
    let rates: &[u64] = &[0, 3, 10, 30, 150];
    let rate = [rates[draw(5) as usize], rates[draw(5) as usize], [0, 100, 300, 600][draw(4) as usize], threads::BLOCK_GAPS[draw(6) as usize]];
    ctx::swarm(&[(F::KeyVerifyErr, &[30, 150]), (F::KeySignErr, &[30, 150]), (F::KeyDidErr, &[20])]);
    crate::ev!("{nth} threads, {} tokens, preemption {rate:?}", toks.len());
    for (i, t) in toks.iter().enumerate() {
        crate::ev!("t{i} cites {:?} sig={:?} alone={:?} chain={:?}", t.cites, t.bad_sig, t.bad_alone, t.bad_chain);
    }
    let sh = Arc::new(Shared { toks, reqs, out: Mutex::new(vec![]) });
    let bodies: Vec<Body> = plans
        .iter()
        .map(|p| {
            let (sh, st, p) = (sh.clone(), store.clone(), p.clone());
            Box::new(move |me| client(me, sh, st, p)) as Body
        })
        .collect();
    let dead = threads::run_bodies(rate, 2 * 1024 * 1024, entropy, bodies);
    probe("threads");
    let all = &["C11", "C12"][..];
    if let Some(d) = dead {
        return violate(all, "deadlock", format!("operations on several threads block each other for ever: {d}"));
    }
    with(|c: &mut Ctx| c.rates = [0; ctx::NF]);
    judge(&sh, &store, &plans, &shared, base);
}

fn judge(sh: &Shared, store: &MemoryStore, plans: &[Arc<Vec<(Op, u64)>>], shared: &[(Arc<Signable<'static, TKey>>, usize, u64)], _base: u64) {
    let out = sh.out.lock().unwrap_or_else(|p| p.into_inner());
    let all = &["C11", "C12"][..];
    let total: usize = plans.iter().map(|p| p.len()).sum();
    if out.len() != total {
        return violate(all, "unfinished", format!("{} of {total} operations ended", out.len()));
    }
    let mut nonces: Vec<String> = vec![];
    for d in out.iter() {
        let (op, clock) = &plans[d.thread][d.at];
        let who = format!("thread {} operation {}", d.thread, d.at);
        if let Got::Panicked(m) = &d.got {
            return violate(all, "panic", format!("{who} panicked at {m}"));
        }
        match op {
            Op::Verify { tok, entry, now, .. } => {
                let t = &sh.toks[*tok];
                let no = match entry {
                    Entry::Signature => t.bad_sig,
                    Entry::Validate => t.bad_alone,
                    _ => t.bad_chain,
                };
                match (&d.got, no) {
                    (Got::Accepted(_), Some(why)) => return violate(&["C12"], "accepted-on-thread", format!("{who} accepted t{tok} by {entry:?} although {why}")),
                    (Got::Refused(e), None) if !d.faulted => return violate(&["C12"], "refused-on-thread", format!("{who} refused the valid t{tok} by {entry:?}: {e}")),
                    _ => {}
                }
                if let Got::Accepted(Some((rep, texts_got))) = &d.got {
                    // the same question again, alone, with a fresh parser
                    sys::set_clock(*clock as i128 * sys::SEC, 0);
                    let mut p = raw_parser();
                    match ctx::now_or_never(check(&t.tok.text, *entry, *now, &mut p, store)) {
                        Some(Ok(Some(c))) => {
                            let mut tx = vec![];
                            texts(&c, &mut tx);
                            if tx != *texts_got {
                                return violate(&["C12"], "chain-differs", format!("{who}: the chain of t{tok} has other tokens than the one found alone"));
                            }
                            let alone = report(&c);
                            if alone != *rep {
                                return violate(&["C12"], "report-differs", format!("{who}: t{tok} carries {rep:?}, alone it carries {alone:?}"));
                            }
                        }
                        _ => return violate(&["C12"], "verdict-differs", format!("{who} accepted t{tok} by {entry:?}, alone it is refused")),
                    }
                    if let Some(m) = against_model(sh, *tok, rep) {
                        return violate(&["C12"], "authority-on-thread", format!("{who}: t{tok}: {m}"));
                    }
                    probe("thread:accepted-chain");
                } else if matches!(d.got, Got::Refused(_)) {
                    probe("thread:refused");
                }
            }
            Op::Sign { .. } | Op::SignShared(..) => {
                let (k, at) = match op {
                    Op::Sign { req } => (*req, *clock),
                    Op::SignShared(s, k) => (*k, shared.iter().find(|x| Arc::ptr_eq(&x.0, s)).map(|x| x.2).unwrap_or(*clock)),
                    _ => unreachable!(),
                };
                match &d.got {
                    Got::Signed(u, text, _) => {
                        if let Some((class, m)) = judge_signed(&sh.reqs[k].0, u, text, at, &mut nonces) {
                            return violate(&["C11"], class, format!("{who}: {m}"));
                        }
                        probe("thread:signed");
                    }
                    Got::SignRefused(e) if !d.faulted => return violate(&["C11"], "sign-refused", format!("{who} did not sign although nothing failed: {e}")),
                    _ => {}
                }
            }
            Op::Write(_) | Op::Read(_) => {
                if let Got::Store(m) = &d.got {
                    if !m.is_empty() {
                        return violate(&["C12"], "store", format!("{who}: {m}"));
                    }
                }
            }
        }
    }
}

/// Every originator the chain must name for what it claims, and nobody else.
fn against_model(sh: &Shared, tok: usize, rep: &Report) -> Option<String> {
    for dom in [Dom::Mail, Dom::Fs] {
        let mut memo = BTreeMap::new();
        let node = |k: usize| Node { iss: sh.toks[k].tok.iss.clone(), caps: sh.toks[k].tok.caps.clone(), proofs: sh.toks[k].cites.clone() };
        let (lo, hi) = grants(&node, tok, dom, &mut memo);
        for (c, must) in &lo {
            let may = originators(&hi, c);
            let name = format!("{} ", c.show());
            let got: BTreeSet<String> = rep.iter().filter(|(n, _)| n.starts_with(&name)).flat_map(|(_, o)| o.iter().cloned()).collect();
            if let Some(x) = got.difference(&may).next() {
                return Some(format!("{x} is reported as originator of [{}]", c.show()));
            }
            let _ = must;
        }
    }
    None
}

fn judge_signed(r: &Req, u: &Ucan, text: &std::result::Result<String, String>, at: u64, nonces: &mut Vec<String>) -> Option<(&'static str, String)> {
    let text = match text {
        Ok(t) => t,
        Err(e) => return Some(("unencodable", e.clone())),
    };
    let id = r.id();
    let Some(t) = Tok::read_back(text, r.caps.clone()) else { return Some(("malformed", text.clone())) };
    if let Some(d) = t.diff(u) {
        return Some(("text-differs", d));
    }
    let exp = match r.exp {
        Some(e) if e < 1_000_000 => Some(at + e),
        e => e,
    };
    let prf: Option<Vec<String>> = if r.cites.is_empty() { None } else { Some(r.cites.iter().map(|(t, h)| cid_of(*h, t.as_bytes()).to_string()).collect()) };
    let bad = None
        .or_else(|| (t.iss != id.did).then(|| format!("issuer {}", t.iss)))
        .or_else(|| (t.alg != id.alg).then(|| format!("algorithm {}", t.alg)))
        .or_else(|| (t.aud != r.aud).then(|| format!("audience {}", t.aud)))
        .or_else(|| (t.nbf != r.nbf).then(|| format!("not-before {:?}", t.nbf)))
        .or_else(|| (t.exp != exp).then(|| format!("expiry {:?} instead of {exp:?}", t.exp)))
        .or_else(|| (t.prf != prf).then(|| format!("proofs {:?} instead of {prf:?}", t.prf)))
        .or_else(|| (t.fct != r.fct).then(|| format!("facts {:?}", t.fct)))
        .or_else(|| (t.nnc.is_some() != r.nonce).then(|| format!("nonce {:?}", t.nnc)));
    if let Some(b) = bad {
        return Some(("not-as-asked", b));
    }
    if let Some(n) = &t.nnc {
        if n.len() < 16 {
            return Some(("nonce-short", n.clone()));
        }
        if nonces.contains(n) {
            return Some(("nonce-repeated", format!("the nonce {n} was used twice")));
        }
        nonces.push(n.clone());
    }
    let mut p = raw_parser();
    if !matches!(ctx::now_or_never(u.check_signature(&mut p)), Some(Ok(()))) {
        return Some(("unverifiable", format!("does not verify under {}", id.did)));
    }
    None
}
