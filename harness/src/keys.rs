//! Keys: the real key types of ucan-key-support (and one toy type) behind a seam that can be slow, stall or fail.
use crate::ctx::{self, fault, latency, stall, F};
use anyhow::{anyhow, Result};
use async_trait::async_trait;
use rsa::pkcs1::EncodeRsaPublicKey;
use sha2::{Digest, Sha256};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::sync::{Arc, OnceLock};
use ucan::crypto::did::{BytesToKey, DidParser, ED25519_MAGIC_BYTES, P256_MAGIC_BYTES, RSA_MAGIC_BYTES};
use ucan::crypto::{JwtSignatureAlgorithm, KeyMaterial};
use ucan_key_support::{
    ed25519::{bytes_to_ed25519_key, Ed25519KeyMaterial},
    p256::{bytes_to_p256_key, P256KeyMaterial},
    rsa::{bytes_to_rsa_key, RsaKeyMaterial},
};

pub const TOY_MAGIC: &[u8] = &[0x91, 0x7f];
pub const TOY2_MAGIC: &[u8] = &[0x91, 0x7e];

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kind {
    Ed,
    P256,
    Rsa,
    Toy,
}

/// A hash standing in for an ideal signature scheme; nobody in the simulation forges it on purpose.
#[derive(Clone)]
pub struct ToyKey {
    pub magic: &'static [u8],
    pub public: Vec<u8>,
    pub can_sign: bool,
}
impl ToyKey {
    pub fn mac(&self, payload: &[u8]) -> Vec<u8> {
        let mut h = Sha256::new();
        h.update(b"toy signature");
        h.update(self.magic);
        h.update((self.public.len() as u64).to_le_bytes());
        h.update(&self.public);
        h.update(payload);
        let d = h.finalize().to_vec();
        // different toy keys have signatures of different lengths
        let n = 8 + (self.public.first().copied().unwrap_or(0) as usize % 4) * 8;
        d[..n].to_vec()
    }
}
#[async_trait]
impl KeyMaterial for ToyKey {
    fn get_jwt_algorithm_name(&self) -> String {
        if self.magic == TOY_MAGIC { JwtSignatureAlgorithm::ES384 } else { JwtSignatureAlgorithm::ES512 }.to_string()
    }
    async fn get_did(&self) -> Result<String> {
        Ok(did_of(self.magic, &self.public))
    }
    async fn sign(&self, payload: &[u8]) -> Result<Vec<u8>> {
        if !self.can_sign {
            return Err(anyhow!("no private key"));
        }
        Ok(self.mac(payload))
    }
    async fn verify(&self, payload: &[u8], signature: &[u8]) -> Result<()> {
        if self.mac(payload) == signature {
            Ok(())
        } else {
            Err(anyhow!("bad toy signature"))
        }
    }
}

pub fn did_of(magic: &[u8], bytes: &[u8]) -> String {
    format!("did:key:z{}", bs58::encode([magic, bytes].concat()).into_string())
}

/// A static identity: real private key material and the DID computed here, independently of the library.
pub struct Ident {
    pub kind: Kind,
    pub did: String,
    pub alg: &'static str,
    key: RealKey,
}
enum RealKey {
    Ed(Ed25519KeyMaterial),
    P256(P256KeyMaterial),
    Rsa(RsaKeyMaterial),
    Toy(ToyKey),
}
impl Ident {
    pub fn boxed(&self) -> Box<dyn KeyMaterial> {
        match &self.key {
            RealKey::Ed(k) => Box::new(k.clone()),
            RealKey::P256(k) => Box::new(k.clone()),
            RealKey::Rsa(k) => Box::new(k.clone()),
            RealKey::Toy(k) => Box::new(k.clone()),
        }
    }
    /// The signature this identity's key gives, outside the simulation (no faults, no suspension).
    pub fn sign_raw(&self, payload: &[u8]) -> Vec<u8> {
        ctx::now_or_never(async {
            match &self.key {
                RealKey::Ed(k) => k.sign(payload).await,
                RealKey::P256(k) => k.sign(payload).await,
                RealKey::Rsa(k) => k.sign(payload).await,
                RealKey::Toy(k) => k.sign(payload).await,
            }
        })
        .expect("sign suspended")
        .expect("sign failed")
    }
    pub fn signer(&self) -> SimKey {
        SimKey { did: self.did.clone(), inner: self.boxed(), signer: true }
    }
}

pub struct Pools {
    pub ids: Vec<Ident>,
    pub ed: Vec<usize>,
    pub p256: Vec<usize>,
    pub rsa: Vec<usize>,
    /// long RSA keys (slow)
    pub big: Vec<usize>,
    pub toy: Vec<usize>,
}

pub fn pools() -> &'static Pools {
    static P: OnceLock<Pools> = OnceLock::new();
    P.get_or_init(|| {
        let mut ids = Vec::new();
        let (mut ed, mut p, mut rs, mut big, mut toy) = (vec![], vec![], vec![], vec![], vec![]);
        for i in 0..6u8 {
            let sk = ed25519_zebra::SigningKey::from([i + 1; 32]);
            let pk = ed25519_zebra::VerificationKey::from(&sk);
            let raw: [u8; 32] = pk.into();
            ed.push(ids.len());
            ids.push(Ident { kind: Kind::Ed, did: did_of(&[0xed, 0x01], &raw), alg: "EdDSA", key: RealKey::Ed(Ed25519KeyMaterial(pk, Some(sk))) });
        }
        for i in 0..5u8 {
            let sk = p256::ecdsa::SigningKey::from_slice(&[i + 11; 32]).expect("p256 key");
            let pk = p256::ecdsa::VerifyingKey::from(&sk);
            let raw = pk.to_encoded_point(true);
            p.push(ids.len());
            ids.push(Ident { kind: Kind::P256, did: did_of(&[0x80, 0x24], raw.as_bytes()), alg: "ES256", key: RealKey::P256(P256KeyMaterial(pk, Some(sk))) });
        }
        use rsa::pkcs1::DecodeRsaPrivateKey;
        let ders: [&[u8]; 5] = [
            include_bytes!("../keys/rsa1.der"),
            include_bytes!("../keys/rsa2.der"),
            include_bytes!("../keys/rsa3.der"),
            include_bytes!("../keys/rsa3072.der"),
            include_bytes!("../keys/rsa4096.der"),
        ];
        for der in ders {
            let sk = rsa::RsaPrivateKey::from_pkcs1_der(der).expect("rsa key");
            let pk = rsa::RsaPublicKey::from(&sk);
            let raw = pk.to_pkcs1_der().expect("der").as_bytes().to_vec();
            if der.len() > 1500 { &mut big } else { &mut rs }.push(ids.len());
            ids.push(Ident { kind: Kind::Rsa, did: did_of(&[0x85, 0x24], &raw), alg: "RS256", key: RealKey::Rsa(RsaKeyMaterial(pk, Some(sk))) });
        }
        // Toy keys: look-alikes of one another (prefixes, same bytes under another type, case-flipped text).
        let base: Vec<u8> = (0..12u8).map(|i| i.wrapping_mul(37).wrapping_add(5)).collect();
        let mut pubs: Vec<(&'static [u8], Vec<u8>)> = vec![
            (TOY_MAGIC, base.clone()),
            (TOY_MAGIC, base[..11].to_vec()),
            (TOY_MAGIC, [base.clone(), vec![0]].concat()),
            (TOY2_MAGIC, base.clone()),
            (TOY_MAGIC, { let mut b = base.clone(); b[11] ^= 1; b }),
            (TOY_MAGIC, { let mut b = base.clone(); b[0] ^= 1; b }),
            (TOY_MAGIC, vec![7]),
            (TOY2_MAGIC, vec![9; 40]),
        ];
        // identities whose DID text differs from another one's only in the case of one letter
        let text = bs58::encode([TOY_MAGIC, &base].concat()).into_string();
        let mut found = 0;
        for i in (2..text.len()).rev() {
            let c = text.as_bytes()[i] as char;
            let f = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            if f == c {
                continue;
            }
            let mut t = text.clone().into_bytes();
            t[i] = f as u8;
            if let Ok(b) = bs58::decode(&t).into_vec() {
                if b.starts_with(TOY_MAGIC) {
                    pubs.push((TOY_MAGIC, b[2..].to_vec()));
                    found += 1;
                    if found == 3 {
                        break;
                    }
                }
            }
        }
        for (m, b) in pubs {
            toy.push(ids.len());
            let did = did_of(m, &b);
            let alg = if m == TOY_MAGIC { "ES384" } else { "ES512" };
            ids.push(Ident { kind: Kind::Toy, did, alg, key: RealKey::Toy(ToyKey { magic: m, public: b, can_sign: true }) });
        }
        Pools { ids, ed, p256: p, rsa: rs, big, toy }
    })
}
pub fn ident(i: usize) -> &'static Ident {
    &pools().ids[i]
}
pub fn ident_by_did(did: &str) -> Option<&'static Ident> {
    pools().ids.iter().find(|i| i.did == did)
}

thread_local! {
    static VERIFIED: RefCell<HashSet<(String, Vec<u8>, Vec<u8>)>> = RefCell::new(HashSet::new());
    static SIGNED: RefCell<HashSet<(String, Vec<u8>, Vec<u8>)>> = RefCell::new(HashSet::new());
    static SIGN_CALLS: Cell<u64> = const { Cell::new(0) };
    static CTOR_CALLS: Cell<u64> = const { Cell::new(0) };
}
/// Did a key for this DID report, in this run, that this signature over this data is good?
pub fn was_verified(did: &str, data: &[u8], sig: &[u8]) -> bool {
    VERIFIED.with(|v| v.borrow().contains(&(did.to_string(), data.to_vec(), sig.to_vec())))
}
pub fn was_signed(did: &str, data: &[u8], sig: &[u8]) -> bool {
    SIGNED.with(|v| v.borrow().contains(&(did.to_string(), data.to_vec(), sig.to_vec())))
}
pub fn note_signed(did: &str, data: &[u8], sig: &[u8]) {
    SIGNED.with(|v| v.borrow_mut().insert((did.to_string(), data.to_vec(), sig.to_vec())));
}
pub fn sign_calls() -> u64 {
    SIGN_CALLS.with(|c| c.get())
}
pub fn ctor_calls() -> u64 {
    CTOR_CALLS.with(|c| c.get())
}

pub struct SimKey {
    pub did: String,
    inner: Box<dyn KeyMaterial>,
    signer: bool,
}
#[async_trait]
impl KeyMaterial for SimKey {
    fn get_jwt_algorithm_name(&self) -> String {
        self.inner.get_jwt_algorithm_name()
    }
    async fn get_did(&self) -> Result<String> {
        if self.signer {
            if fault(F::KeyStall) {
                stall().await;
            }
            latency().await;
            if fault(F::KeyDidErr) {
                return Err(ctx::sim_error("key service cannot tell its DID"));
            }
        }
        self.inner.get_did().await
    }
    async fn sign(&self, payload: &[u8]) -> Result<Vec<u8>> {
        SIGN_CALLS.with(|c| c.set(c.get() + 1));
        if fault(F::KeyStall) {
            stall().await;
        }
        latency().await;
        if fault(F::KeySignErr) {
            return Err(ctx::sim_error("key service refuses to sign"));
        }
        let sig = self.inner.sign(payload).await?;
        note_signed(&self.did, payload, &sig);
        latency().await;
        Ok(sig)
    }
    async fn verify(&self, payload: &[u8], signature: &[u8]) -> Result<()> {
        if fault(F::KeyStall) {
            stall().await;
        }
        latency().await;
        if fault(F::KeyVerifyErr) {
            return Err(ctx::sim_error("key service cannot verify"));
        }
        self.inner.verify(payload, signature).await?;
        VERIFIED.with(|v| v.borrow_mut().insert((self.did.clone(), payload.to_vec(), signature.to_vec())));
        Ok(())
    }
}

fn wrap(magic: &[u8], bytes: Vec<u8>, real: BytesToKey) -> Result<Box<dyn KeyMaterial>> {
    CTOR_CALLS.with(|c| c.set(c.get() + 1));
    if fault(F::KeyCtorErr) {
        return Err(ctx::sim_error("key cannot be constructed"));
    }
    let did = did_of(magic, &bytes);
    let inner = real(bytes)?;
    Ok(Box::new(SimKey { did, inner, signer: false }))
}
fn ctor_ed(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    wrap(&[0xed, 0x01], b, bytes_to_ed25519_key)
}
fn ctor_p256(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    wrap(&[0x80, 0x24], b, bytes_to_p256_key)
}
fn ctor_rsa(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    wrap(&[0x85, 0x24], b, bytes_to_rsa_key)
}
fn ctor_toy(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    wrap(TOY_MAGIC, b, |b| Ok(Box::new(ToyKey { magic: TOY_MAGIC, public: b, can_sign: false })))
}
fn ctor_toy2(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    wrap(TOY2_MAGIC, b, |b| Ok(Box::new(ToyKey { magic: TOY2_MAGIC, public: b, can_sign: false })))
}

pub fn new_parser() -> DidParser {
    DidParser::new(&[
        (ED25519_MAGIC_BYTES, ctor_ed),
        (P256_MAGIC_BYTES, ctor_p256),
        (RSA_MAGIC_BYTES, ctor_rsa),
        (TOY_MAGIC, ctor_toy),
        (TOY2_MAGIC, ctor_toy2),
    ])
}

fn traw(inner: Box<dyn KeyMaterial>) -> Result<Box<dyn KeyMaterial>> {
    Ok(Box::new(crate::tverify::TKey { inner }))
}
fn raw_toy(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    traw(Box::new(ToyKey { magic: TOY_MAGIC, public: b, can_sign: false }))
}
fn raw_toy2(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    traw(Box::new(ToyKey { magic: TOY2_MAGIC, public: b, can_sign: false }))
}
/// The parser of a party on a simulated thread.
pub fn raw_parser() -> DidParser {
    DidParser::new(&[
        (ED25519_MAGIC_BYTES, |b| traw(bytes_to_ed25519_key(b)?)),
        (P256_MAGIC_BYTES, |b| traw(bytes_to_p256_key(b)?)),
        (RSA_MAGIC_BYTES, |b| traw(bytes_to_rsa_key(b)?)),
        (TOY_MAGIC, raw_toy),
        (TOY2_MAGIC, raw_toy2),
    ])
}
pub type SharedKey = Arc<SimKey>;
