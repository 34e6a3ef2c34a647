use anyhow::{anyhow, Result};
use base64::Engine;
use cid::multihash::{Code, MultihashDigest};
use cid::Cid;
use ed25519_zebra::{SigningKey, VerificationKey};
use libipld_core::codec::{Decode, Encode};
use libipld_core::ipld::Ipld;
use libipld_core::raw::RawCodec;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use ucan::builder::UcanBuilder;
use ucan::capability::{Ability, Capability, CapabilitySemantics, Scope};
use ucan::chain::ProofChain;
use ucan::crypto::did::{DidParser, ED25519_MAGIC_BYTES};
use ucan::crypto::KeyMaterial;
use ucan::ipld::UcanIpld;
use ucan::store::{MemoryStore, UcanJwtStore, UcanStore};
use ucan::Ucan;
use ucan_key_support::ed25519::{bytes_to_ed25519_key, Ed25519KeyMaterial};
use url::Url;

/// Polls a future that never has to wait.
fn now<F: std::future::Future>(future: F) -> F::Output {
    use std::sync::Arc;
    use std::task::{Context, Poll, Wake};
    struct Nobody;
    impl Wake for Nobody {
        fn wake(self: Arc<Self>) {}
    }
    let waker = Arc::new(Nobody).into();
    let mut future = Box::pin(future);
    loop {
        if let Poll::Ready(out) = future.as_mut().poll(&mut Context::from_waker(&waker)) {
            return out;
        }
    }
}
fn key(seed: u8) -> Ed25519KeyMaterial {
    let private = SigningKey::from([seed; 32]);
    Ed25519KeyMaterial(VerificationKey::from(&private), Some(private))
}
fn did(key: &Ed25519KeyMaterial) -> String {
    now(key.get_did()).unwrap()
}
fn parser() -> DidParser {
    DidParser::new(&[(ED25519_MAGIC_BYTES, bytes_to_ed25519_key)])
}
fn b64(bytes: &[u8]) -> String {
    base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(bytes)
}
/// Signs this payload text as it stands, as another implementation would.
fn jwt_of(key: &Ed25519KeyMaterial, payload: &str) -> String {
    let data = format!("{}.{}", b64(br#"{"alg":"EdDSA","typ":"JWT"}"#), b64(payload.as_bytes()));
    let signature = now(key.sign(data.as_bytes())).unwrap();
    format!("{data}.{}", b64(&signature))
}
fn jwt(key: &Ed25519KeyMaterial, aud: &str, more: Value) -> String {
    let mut payload = json!({"ucv": "0.10.0-canary", "iss": did(key), "aud": aud, "exp": null, "cap": {}});
    for (k, v) in more.as_object().unwrap() {
        payload[k] = v.clone();
    }
    jwt_of(key, &payload.to_string())
}
fn cid(hash: Code, token: &str) -> Cid {
    Cid::new_v1(0x55, hash.digest(token.as_bytes()))
}
fn file(store: &mut MemoryStore, token: &str) -> String {
    now(store.write_token(token)).unwrap().to_string()
}
fn chain(token: &str, at: Option<u64>, store: &MemoryStore) -> Result<ProofChain> {
    now(ProofChain::try_from_token_string(token, at, &mut parser(), store))
}

#[derive(Clone, PartialEq)]
struct Mail(String);
impl Scope for Mail {
    fn contains(&self, other: &Self) -> bool {
        self == other
    }
}
impl std::fmt::Display for Mail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "mailto:{}", self.0)
    }
}
impl TryFrom<Url> for Mail {
    type Error = anyhow::Error;
    fn try_from(url: Url) -> Result<Self> {
        match url.scheme() {
            "mailto" => Ok(Mail(url.path().to_string())),
            _ => Err(anyhow!("not mail")),
        }
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Send_;
impl Ability for Send_ {}
impl TryFrom<String> for Send_ {
    type Error = anyhow::Error;
    fn try_from(ability: String) -> Result<Self> {
        match ability.as_str() {
            "email/send" => Ok(Send_),
            _ => Err(anyhow!("not an ability")),
        }
    }
}
impl std::fmt::Display for Send_ {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "email/send")
    }
}
struct MailSemantics;
impl CapabilitySemantics<Mail, Send_> for MailSemantics {}

/// Everybody named as an originator of sending from `resource` with `caveat`.
fn originators(chain: &ProofChain, resource: &str, caveat: Value) -> BTreeSet<String> {
    let wanted = MailSemantics.parse(resource, "email/send", Some(&caveat)).unwrap();
    chain
        .reduce_capabilities(&MailSemantics)
        .into_iter()
        .filter(|info| info.capability.enables(&wanted))
        .flat_map(|info| info.originators)
        .collect()
}
fn set(names: &[&str]) -> BTreeSet<String> {
    names.iter().map(|name| name.to_string()).collect()
}
