//! The reference model: structured capabilities and their order, capability documents, and what a chain of
//! tokens delegates. Written independently of the library; the only library types here are the caller-side
//! semantics (`MailSem`, `FsSem`) through which the library is asked.
use crate::ctx::{chance, draw, pick};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use ucan::capability::{Ability, Capability, CapabilitySemantics, CapabilityView, Resource, ResourceUri, Scope};
use url::Url;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Dom {
    Mail,
    Fs,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Holder {
    Plain,
    My,
    As(String),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum MScope {
    Any,
    Mail(String),
    Fs(String, Vec<String>),
}
#[derive(Clone, PartialEq, Debug)]
pub struct MCap {
    pub dom: Dom,
    pub holder: Holder,
    pub scope: MScope,
    pub rank: usize,
    pub caveat: Map<String, Value>,
}

pub const MAIL_ABILITIES: &[&str] = &["email/read", "email/draft", "email/send", "email/admin"];
pub const FS_ABILITIES: &[&str] = &["fs/create", "fs/revise", "fs/soft_delete", "fs/overwrite", "fs/super_user"];

impl MCap {
    pub fn resource(&self) -> String {
        let scope = match (&self.scope, self.dom) {
            (MScope::Any, Dom::Mail) => "mailto:*".to_string(),
            (MScope::Any, Dom::Fs) => "fs:*".to_string(),
            (MScope::Mail(a), _) => format!("mailto:{a}"),
            (MScope::Fs(h, p), _) => format!("fs://{h}/{}", p.join("/")),
        };
        let any = self.scope == MScope::Any;
        match &self.holder {
            Holder::Plain => scope,
            Holder::My if any => "my:*".into(),
            Holder::My => format!("my:{scope}"),
            Holder::As(did) if any => format!("as:{did}:*"),
            Holder::As(did) => format!("as:{did}:{scope}"),
        }
    }
    pub fn ability(&self) -> &'static str {
        match self.dom {
            Dom::Mail => MAIL_ABILITIES[self.rank],
            Dom::Fs => FS_ABILITIES[self.rank],
        }
    }
    pub fn to_capability(&self) -> Capability {
        Capability::new(self.resource(), self.ability().to_string(), Value::Object(self.caveat.clone()))
    }
    pub fn max_rank(dom: Dom) -> usize {
        match dom {
            Dom::Mail => MAIL_ABILITIES.len(),
            Dom::Fs => FS_ABILITIES.len(),
        }
    }
    /// The order of the model.
    pub fn enables(&self, o: &MCap) -> bool {
        self.dom == o.dom
            && self.holder == o.holder
            && match (&self.scope, &o.scope) {
                (MScope::Any, _) => true,
                (_, MScope::Any) => false,
                (MScope::Mail(a), MScope::Mail(b)) => a == b,
                (MScope::Fs(h, p), MScope::Fs(g, q)) => h == g && p.len() <= q.len() && p.iter().zip(q).all(|(x, y)| x == y),
                _ => false,
            }
            && self.rank >= o.rank
            && self.caveat.iter().all(|(k, v)| o.caveat.get(k) == Some(v))
    }
    pub fn show(&self) -> String {
        format!("{} {} {}", self.resource(), self.ability(), Value::Object(self.caveat.clone()))
    }
}

// ------------------------------------------------------------------ generation

/// The first are common, the others near misses and shapes that are easily taken for something else.
const MAILS: &[&str] = &["a@x.org", "b@x.org", "a@x.or", "A@x.org", "a@x.org?to=b", "a@x.org#f", "a*", "a@x.org:*", "a:b:c", "a:b", "**", "a@x.org?*", "did:key:z:a", "*?to=b", "*#f"];
const HOSTS: &[&str] = &["h", "g", "H", "hg"];
const SEGS: &[&str] = &["p", "q", "pq", "r", "P", "*", "p*", "", "%70", "p:q"];
fn common<'a>(v: &'a [&'a str], n: usize) -> &'a str {
    if chance(3, 4) {
        v[draw(n as u64) as usize]
    } else {
        v[draw(v.len() as u64) as usize]
    }
}
/// The first three are common.
const KEYS: &[&str] = &["x", "y", "z", "X", "", "xx", "x ", "é"];

fn gen_value() -> Value {
    match draw(30) {
        9 => json!([1]),
        10 => json!(["s", 1]),
        11 => json!([]),
        12 => json!({}),
        13 => json!({"n": 2}),
        14 => json!("1"),
        15 => json!(-1),
        16 => json!("S"),
        17 => json!("st"),
        18 => json!(""),
        19 => json!(0),
        20 => json!([[1, "s"]]),
        22 => json!((1u64 << 53) + draw(2)),
        23 => json!(u64::MAX - draw(2)),
        24 => json!("s "),
        25 => json!([1, "s", 1]),
        26 => json!([1, "S"]),
        27 => json!({"n": {"n": 1 + draw(2)}}),
        28 => json!("x".repeat(40 + draw(2) as usize)),
        21 => json!({"m": [true], "n": 1, "k": 0}),
        0 => json!(true),
        1 => json!(1),
        2 => json!("s"),
        3 => json!(false),
        4 => json!(2),
        5 => json!(null),
        6 => json!([1, "s"]),
        7 => json!({"n": 1}),
        _ => json!({"n": 1, "m": [true]}),
    }
}
fn gen_caveat(rich: bool) -> Map<String, Value> {
    let mut m = Map::new();
    if rich && chance(1, 2) {
        for _ in 0..draw(3) {
            m.insert(common(KEYS, 3).to_string(), gen_value());
        }
    }
    m
}
fn gen_scope(dom: Dom) -> MScope {
    if chance(1, 8) {
        return MScope::Any;
    }
    match dom {
        Dom::Mail => MScope::Mail(common(MAILS, 3).to_string()),
        Dom::Fs => {
            let n = draw(4);
            let mut p: Vec<String> = (0..n).map(|_| common(SEGS, 4).to_string()).collect();
            if p.is_empty() {
                p.push("p".into());
            }
            MScope::Fs(common(HOSTS, 2).to_string(), p)
        }
    }
}
pub fn gen_cap(dids: &[String]) -> MCap {
    let dom = if chance(1, 2) { Dom::Fs } else { Dom::Mail };
    let holder = if chance(1, 4) {
        if chance(1, 2) && !dids.is_empty() {
            Holder::As(pick(dids).clone())
        } else {
            Holder::My
        }
    } else {
        Holder::Plain
    };
    MCap { dom, holder, scope: gen_scope(dom), rank: draw(MCap::max_rank(dom) as u64) as usize, caveat: gen_caveat(true) }
}
/// A capability related to `c`: equal, narrower in one or more respects, wider, or a near miss.
pub fn vary_cap(c: &MCap, dids: &[String]) -> MCap {
    let mut c = c.clone();
    let n = draw(3);
    for _ in 0..n {
        match draw(10) {
            0 => c.rank = c.rank.saturating_sub(1),
            1 => {
                c.caveat.insert(common(KEYS, 3).to_string(), gen_value());
            }
            2 => match &mut c.scope {
                MScope::Fs(_, p) if p.len() < 5 && p.last().map(|x| !x.is_empty()).unwrap_or(true) => p.push(common(SEGS, 4).to_string()),
                s @ MScope::Any => *s = gen_scope(c.dom),
                _ => {}
            },
            3 => c.rank = (c.rank + 1).min(MCap::max_rank(c.dom) - 1),
            4 => {
                if let Some(k) = c.caveat.keys().next().cloned() {
                    if chance(1, 2) {
                        c.caveat.remove(&k);
                    } else {
                        c.caveat.insert(k, gen_value());
                    }
                }
            }
            5 => match &mut c.scope {
                MScope::Fs(_, p) if p.len() > 1 => {
                    p.pop();
                }
                s => *s = gen_scope(c.dom),
            },
            6 => c.scope = gen_scope(c.dom),
            7 => {
                c.holder = match draw(3) {
                    0 => Holder::Plain,
                    1 => Holder::My,
                    _ if !dids.is_empty() => Holder::As(pick(dids).clone()),
                    _ => Holder::Plain,
                }
            }
            8 if matches!(c.holder, Holder::As(_)) => {
                // almost the same principal
                if let Holder::As(d) = &mut c.holder {
                    match draw(3) {
                        0 if d.len() > 10 => {
                            d.pop();
                        }
                        1 => d.push('1'),
                        _ => {
                            let (a, z) = d.split_at(d.len() - 1);
                            let f = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                            *d = format!("{a}{}", z.chars().map(f).collect::<String>());
                        }
                    }
                }
            }
            _ => c.rank = draw(MCap::max_rank(c.dom) as u64) as usize,
        }
    }
    c
}

pub fn vary_caveat(c: &MCap) -> MCap {
    let mut c = c.clone();
    if chance(1, 3) {
        if let Some(k) = c.caveat.keys().next().cloned() {
            c.caveat.remove(&k);
        }
    }
    c.caveat.insert(common(KEYS, 3).to_string(), gen_value());
    c
}

/// One entry of a capability document.
#[derive(Clone, Debug, PartialEq)]
pub enum DocCap {
    Cap(MCap),
    Prf(Option<usize>),
    /// resource, ability: not interpretable by either semantics
    Junk(String, String, Map<String, Value>),
    /// an ability with an empty caveat list: grants nothing
    Empty(String, String),
    /// a capability whose caveat is not an object: enables nothing
    Bad(MCap, Value),
}
pub const JUNK: &[(&str, &str)] = &[
    ("my:*", "ucan/DELEGATE"),
    ("my:prf:0", "ucan/DELEGATE"),
    ("as:did:key:zX:prf:*", "ucan/DELEGATE"),
    ("mailto:*", "ucan/DELEGATE"),
    ("prf:*", "ucan/delegate"),
    ("aaa:bbb", "aaa/ccc"),
    ("a:0", "email/send"),
    ("mailto:a@x.org", "email/unknown"),
    ("fs://h/p", "fs/unknown"),
    ("not a url", "email/send"),
    ("as:did:web:x.org:mailto:a@x.org", "email/send"),
    ("as:did:key", "email/send"),
    ("as:", "fs/create"),
    ("zzz:zzz", "fs/create"),
    ("prf:x", "ucan/DELEGATE"),
    ("prf:0", "ucan/OTHER"),
    ("prf:", "ucan/DELEGATE"),
    ("fs:p", "fs/create"),
    ("", "email/send"),
];
impl DocCap {
    pub fn triple(&self) -> (String, String, Option<Value>) {
        match self {
            DocCap::Cap(c) => (c.resource(), c.ability().to_string(), Some(Value::Object(c.caveat.clone()))),
            DocCap::Prf(Some(i)) => (format!("prf:{i}"), "ucan/DELEGATE".into(), Some(json!({}))),
            DocCap::Prf(None) => ("prf:*".into(), "ucan/DELEGATE".into(), Some(json!({}))),
            DocCap::Junk(r, a, c) => (r.clone(), a.clone(), Some(Value::Object(c.clone()))),
            DocCap::Empty(r, a) => (r.clone(), a.clone(), None),
            DocCap::Bad(c, v) => (c.resource(), c.ability().to_string(), Some(v.clone())),
        }
    }
    pub fn show(&self) -> String {
        let (r, a, c) = self.triple();
        format!("{r} {a} {}", c.map(|c| c.to_string()).unwrap_or("[]".into()))
    }
}
/// The capability document as a map of maps of caveat lists, as the specification has it.
pub fn doc_map(caps: &[DocCap]) -> BTreeMap<String, BTreeMap<String, Vec<Value>>> {
    let mut m: BTreeMap<String, BTreeMap<String, Vec<Value>>> = BTreeMap::new();
    for c in caps {
        let (r, a, v) = c.triple();
        let l = m.entry(r).or_default().entry(a).or_default();
        l.extend(v);
    }
    m
}

// ------------------------------------------------------------------ what a chain delegates

/// A node of a chain, as far as authority is concerned.
#[derive(Clone, Debug)]
pub struct Node {
    pub iss: String,
    pub caps: Vec<DocCap>,
    pub proofs: Vec<usize>,
}
pub type Grants = Vec<(MCap, BTreeSet<String>)>;

/// (grants that must be reported, grants that may be reported) for node `i`, for one domain.
pub fn grants(nodes: &dyn Fn(usize) -> Node, i: usize, dom: Dom, memo: &mut BTreeMap<usize, (Grants, Grants)>) -> (Grants, Grants) {
    if let Some(g) = memo.get(&i) {
        return g.clone();
    }
    let n = nodes(i);
    let sub: Vec<(Grants, Grants)> = n.proofs.iter().map(|p| grants(nodes, *p, dom, memo)).collect();
    let mut red: BTreeSet<usize> = BTreeSet::new();
    for c in &n.caps {
        match c {
            DocCap::Prf(None) => red.extend(0..n.proofs.len()),
            DocCap::Prf(Some(k)) => {
                red.insert(*k);
            }
            _ => {}
        }
    }
    let (mut lo, mut hi): (Grants, Grants) = (vec![], vec![]);
    for c in &n.caps {
        let DocCap::Cap(k) = c else { continue };
        if k.dom != dom {
            continue;
        }
        let (mut l, mut h) = (BTreeSet::new(), BTreeSet::new());
        let mut enabled_by_cited = false;
        let mut enabled_by_redelegated = false;
        for (pi, (sl, sh)) in sub.iter().enumerate() {
            for (e, o) in sl {
                if e.enables(k) {
                    l.extend(o.iter().cloned());
                    if red.contains(&pi) {
                        enabled_by_redelegated = true;
                    } else {
                        enabled_by_cited = true;
                    }
                }
            }
            for (e, o) in sh {
                if e.enables(k) {
                    h.extend(o.iter().cloned());
                }
            }
        }
        if !enabled_by_cited && !enabled_by_redelegated {
            l.insert(n.iss.clone());
            h.insert(n.iss.clone());
        }
        if !enabled_by_cited && enabled_by_redelegated {
            // claimed alongside the redelegation that already passes it on: also naming the claimant is tolerated
            h.insert(n.iss.clone());
        }
        push(&mut lo, k.clone(), l);
        push(&mut hi, k.clone(), h);
    }
    for r in red {
        if let Some((sl, sh)) = sub.get(r) {
            for (e, o) in sl {
                push(&mut lo, e.clone(), o.clone());
            }
            for (e, o) in sh {
                push(&mut hi, e.clone(), o.clone());
            }
        }
    }
    memo.insert(i, (lo.clone(), hi.clone()));
    (lo, hi)
}
fn push(g: &mut Grants, c: MCap, o: BTreeSet<String>) {
    if let Some((_, x)) = g.iter_mut().find(|(d, _)| *d == c) {
        x.extend(o);
    } else {
        g.push((c, o));
    }
}
pub fn originators(g: &Grants, probe: &MCap) -> BTreeSet<String> {
    g.iter().filter(|(c, _)| c.enables(probe)).flat_map(|(_, o)| o.iter().cloned()).collect()
}

// ------------------------------------------------------------------ caller-side semantics given to the library

#[derive(Clone, PartialEq, Debug)]
pub struct MailScope(pub String);
impl Scope for MailScope {
    fn contains(&self, other: &Self) -> bool {
        self.0 == other.0
    }
}
impl std::fmt::Display for MailScope {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "mailto:{}", self.0)
    }
}
impl TryFrom<Url> for MailScope {
    type Error = anyhow::Error;
    fn try_from(u: Url) -> anyhow::Result<Self> {
        match u.scheme() {
            "mailto" if !u.path().is_empty() => Ok(MailScope(u[url::Position::BeforePath..].to_string())),
            "my" => match Url::parse(&u[url::Position::BeforePath..])? {
                inner if inner.scheme() == "my" => Err(anyhow::anyhow!("my: within my:")),
                inner => MailScope::try_from(inner),
            },
            _ => Err(anyhow::anyhow!("not a mail scope")),
        }
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct MailAbility(pub usize);
impl Ability for MailAbility {}
impl TryFrom<String> for MailAbility {
    type Error = anyhow::Error;
    fn try_from(s: String) -> anyhow::Result<Self> {
        MAIL_ABILITIES.iter().position(|a| *a == s).map(MailAbility).ok_or_else(|| anyhow::anyhow!("unknown ability"))
    }
}
impl std::fmt::Display for MailAbility {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", MAIL_ABILITIES[self.0])
    }
}
pub struct MailSem;
impl CapabilitySemantics<MailScope, MailAbility> for MailSem {}

#[derive(Clone, PartialEq, Debug)]
pub struct FsScope(pub String, pub Vec<String>);
impl Scope for FsScope {
    fn contains(&self, o: &Self) -> bool {
        self.0 == o.0 && self.1.len() <= o.1.len() && self.1.iter().zip(&o.1).all(|(a, b)| a == b)
    }
}
impl std::fmt::Display for FsScope {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "fs://{}/{}", self.0, self.1.join("/"))
    }
}
impl TryFrom<Url> for FsScope {
    type Error = anyhow::Error;
    fn try_from(u: Url) -> anyhow::Result<Self> {
        match u.scheme() {
            "fs" => match u.host_str() {
                Some(h) => Ok(FsScope(h.to_string(), u.path().split('/').skip(1).map(String::from).collect())),
                None => Err(anyhow::anyhow!("no host")),
            },
            "my" => match Url::parse(&u[url::Position::BeforePath..])? {
                inner if inner.scheme() == "my" => Err(anyhow::anyhow!("my: within my:")),
                inner => FsScope::try_from(inner),
            },
            _ => Err(anyhow::anyhow!("not an fs scope")),
        }
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct FsAbility(pub usize);
impl Ability for FsAbility {}
impl TryFrom<String> for FsAbility {
    type Error = anyhow::Error;
    fn try_from(s: String) -> anyhow::Result<Self> {
        FS_ABILITIES.iter().position(|a| *a == s).map(FsAbility).ok_or_else(|| anyhow::anyhow!("unknown ability"))
    }
}
impl std::fmt::Display for FsAbility {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", FS_ABILITIES[self.0])
    }
}
pub struct FsSem;
impl CapabilitySemantics<FsScope, FsAbility> for FsSem {}

/// Ties a semantics of the library to the model.
pub trait ModelSem: CapabilitySemantics<Self::S, Self::A> {
    type S: Scope;
    type A: Ability;
    const DOM: Dom;
    fn scope(s: &Self::S) -> MScope;
    fn rank(a: &Self::A) -> usize;
    fn lift(v: &CapabilityView<Self::S, Self::A>) -> Option<MCap> {
        let sc = |k: &ResourceUri<Self::S>| match k {
            ResourceUri::Unscoped => MScope::Any,
            ResourceUri::Scoped(s) => Self::scope(s),
        };
        let (holder, scope) = match v.resource() {
            Resource::Resource { kind } => (Holder::Plain, sc(kind)),
            Resource::My { kind } => (Holder::My, sc(kind)),
            Resource::As { did, kind } => (Holder::As(did.clone()), sc(kind)),
        };
        let caveat = v.caveat().as_object()?.clone();
        Some(MCap { dom: Self::DOM, holder, scope, rank: Self::rank(v.ability()), caveat })
    }
}
impl ModelSem for MailSem {
    type S = MailScope;
    type A = MailAbility;
    const DOM: Dom = Dom::Mail;
    fn scope(s: &MailScope) -> MScope {
        MScope::Mail(s.0.clone())
    }
    fn rank(a: &MailAbility) -> usize {
        a.0
    }
}
impl ModelSem for FsSem {
    type S = FsScope;
    type A = FsAbility;
    const DOM: Dom = Dom::Fs;
    fn scope(s: &FsScope) -> MScope {
        MScope::Fs(s.0.clone(), s.1.clone())
    }
    fn rank(a: &FsAbility) -> usize {
        a.0
    }
}
