b("c01-as-did-case", "C01",
  [(U+"capability/semantics.rs", ") if did == other_did =>", ") if did.eq_ignore_ascii_case(other_did) =>")],
  "a proof granting as:<did>:<resource> and a claim as:<other did>:<resource>, the two DIDs differing only in letter case (base58 is case sensitive, so they are different principals)",
  "a capability held on behalf of one principal enables capabilities on behalf of another one, so the proof's originator is credited with authority it never granted",
  r'''
fn main() {
    let (alice, bob) = (key(1), key(2));
    let (one, other) = ("did:key:z6MkAbCd", "did:key:z6MkabcD");
    let mut store = MemoryStore::default();
    let proof = jwt(&alice, &did(&bob), json!({"cap": {format!("as:{one}:mailto:a@x.org"): {"email/send": [{}]}}}));
    let proof = file(&mut store, &proof);
    let claim = format!("as:{other}:mailto:a@x.org");
    let token = jwt(&bob, &did(&alice), json!({"prf": [proof], "cap": {claim.clone(): {"email/send": [{}]}}}));
    let chain = chain(&token, Some(1000), &store).unwrap();
    assert_eq!(originators(&chain, &claim, json!({})), set(&[&did(&bob)]), "nobody but bob claims authority on behalf of {other}");
}''')

b("c01-caveat-null", "C01",
  [(U+"capability/caveats.rs", """            if let Some(other_value) = other.get(key) {
                if value != other_value {
                    return false;
                }
            } else {
                return false;
            }
""", """            if value != other.get(key).unwrap_or(&Value::Null) {
                return false;
            }
""")],
  "a proof whose caveat has a field with the value null, and a claim whose (nonempty) caveat leaves that field out",
  "a claim which dropped a caveat of its proof is attributed to the proof's originator",
  r'''
fn main() {
    let (alice, bob) = (key(1), key(2));
    let mut store = MemoryStore::default();
    let proof = jwt(&alice, &did(&bob), json!({"cap": {"mailto:a@x.org": {"email/send": [{"reply-to": null, "day": 1}]}}}));
    let proof = file(&mut store, &proof);
    let token = jwt(&bob, &did(&alice), json!({"prf": [proof], "cap": {"mailto:a@x.org": {"email/send": [{"day": 1}]}}}));
    let chain = chain(&token, Some(1000), &store).unwrap();
    assert_eq!(originators(&chain, "mailto:a@x.org", json!({"day": 1})), set(&[&did(&bob)]), "alice never granted sending without the reply-to caveat");
}''')

b("c02-bounds-min", "C02",
  [(U+"chain.rs", "                        info.expires_at = *self.ucan.expires_at();\n                        info\n", "                        info.expires_at = info.expires_at.min(*self.ucan.expires_at());\n                        info\n")],
  "redelegation (prf:) of a proof without an expiry by a token that has one: None sorts before Some",
  "the reported expiry of a redelegated capability is not the presented token's: a capability that expires is reported as never expiring",
  r'''
fn main() {
    let (alice, bob) = (key(1), key(2));
    let mut store = MemoryStore::default();
    let proof = jwt(&alice, &did(&bob), json!({"cap": {"mailto:a@x.org": {"email/send": [{}]}}}));
    let proof = file(&mut store, &proof);
    let token = jwt(&bob, &did(&alice), json!({"prf": [proof], "exp": 5000, "cap": {"prf:0": {"ucan/DELEGATE": [{}]}}}));
    let infos = chain(&token, Some(1000), &store).unwrap().reduce_capabilities(&MailSemantics);
    assert_eq!(infos.len(), 1);
    assert_eq!(infos[0].expires_at, Some(5000));
}''')

b("c02-index-u8", "C02",
  [(U+"capability/proof.rs", "selection => Ok(ProofSelection::Index(selection.parse::<usize>()?)),", "selection => Ok(ProofSelection::Index(selection.parse::<u8>()?.into())),")],
  "a token citing more than 256 proofs which redelegates one with an index of 256 or more",
  "the redelegation is silently ignored, and everything that proof granted is lost",
  r'''
fn main() {
    let (alice, bob) = (key(1), key(2));
    let mut store = MemoryStore::default();
    let idle = file(&mut store, &jwt(&alice, &did(&bob), json!({})));
    let proof = file(&mut store, &jwt(&alice, &did(&bob), json!({"cap": {"mailto:a@x.org": {"email/send": [{}]}}})));
    let mut proofs = vec![idle; 300];
    proofs[299] = proof;
    let token = jwt(&bob, &did(&alice), json!({"prf": proofs, "cap": {"prf:299": {"ucan/DELEGATE": [{}]}}}));
    let chain = chain(&token, Some(1000), &store).unwrap();
    assert_eq!(originators(&chain, "mailto:a@x.org", json!({})), set(&[&did(&alice)]));
}''')

b("c03-nbf-past", "C03",
  [(U+"ucan.rs", "(Some(nbf), Some(other_nbf)) => nbf <= other_nbf,\n            (Some(_), None) => false,", "(Some(nbf), Some(other_nbf)) => nbf <= other_nbf,\n            // The other is active as of now\n            (Some(nbf), None) => nbf <= now(),")],
  "a token without a not-before citing a proof which has one that has passed already",
  "a chain is accepted although the citing token's validity period begins before its proof's",
  r"""
fn main() {
    let (alice, bob) = (key(1), key(2));
    let mut store = MemoryStore::default();
    let proof = file(&mut store, &jwt(&alice, &did(&bob), json!({"nbf": 1000})));
    let token = jwt(&bob, &did(&alice), json!({"prf": [proof]}));
    assert!(chain(&token, Some(1500), &store).is_err(), "the token has always been valid, its proof has not");
}""")

b("c03-did-url", "C03",
  [(U+"chain.rs", "        let audience = self.ucan.audience();\n", "        // An audience may name a key of the DID's document\n        let audience = self.ucan.audience().split('#').next().unwrap_or_default();\n")],
  "a proof addressed to a DID URL (<did>#<fragment>) of the issuer instead of to its DID",
  "a chain is accepted although a proof is not addressed to exactly the issuer that cites it",
  r'''
fn main() {
    let (alice, bob) = (key(1), key(2));
    let mut store = MemoryStore::default();
    let proof = file(&mut store, &jwt(&alice, &format!("{}#other-device", did(&bob)), json!({})));
    let token = jwt(&bob, &did(&alice), json!({"prf": [proof]}));
    assert!(chain(&token, Some(1000), &store).is_err(), "the proof was not issued to bob's key itself");
}''')

b("c04-ed25519-prefix", "C04",
  [(K+"ed25519.rs", "        let signature = Signature::try_from(signature)?;", "        // Some HSMs append key usage information to the signature\n        let signature = Signature::try_from(signature.get(..64).unwrap_or(signature))?;")],
  "bytes appended to the signature segment of a token signed by an Ed25519 key",
  "a token whose text was changed after signing is accepted as validly signed",
  r'''
fn main() {
    let alice = key(1);
    let token = jwt(&alice, "did:key:zAnyone", json!({}));
    let mut ucan = token.rsplitn(2, '.');
    let signature = ucan.next().unwrap();
    let data = ucan.next().unwrap();
    let mut bytes = base64::engine::general_purpose::URL_SAFE_NO_PAD.decode(signature).unwrap();
    bytes.extend([1, 2, 3]);
    let longer = format!("{data}.{}", b64(&bytes));
    let accepted = Ucan::try_from(longer).and_then(|ucan| now(ucan.check_signature(&mut parser())));
    assert!(accepted.is_err(), "the signature was extended");
}''')

b("c04-trailing-bits", "C04",
  [(U+"ucan.rs", """            base64::engine::general_purpose::URL_SAFE_NO_PAD
                .decode(str)
""", """            base64::engine::GeneralPurpose::new(
                &base64::alphabet::URL_SAFE,
                // Be lenient with the encoders of other implementations
                base64::engine::general_purpose::NO_PAD.with_decode_allow_trailing_bits(true),
            )
                .decode(str)
""")],
  "a flip of one of the unused low bits in the last character of the signature segment",
  "a token with a changed text (and therefore another content identifier once re-encoded) is accepted as validly signed",
  r'''
fn main() {
    let alice = key(1);
    let token = jwt(&alice, "did:key:zAnyone", json!({}));
    // 64 bytes are 86 characters, the last of which has four unused bits
    let alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let last = alphabet.find(token.chars().last().unwrap()).unwrap();
    let flipped = format!("{}{}", &token[..token.len() - 1], &alphabet[last ^ 1..][..1]);
    let accepted = Ucan::try_from(flipped.as_str()).and_then(|ucan| now(ucan.check_signature(&mut parser())));
    assert!(accepted.is_err(), "a bit of the token was flipped");
}''')

b("c05-short-digests", "C05",
  [(U+"chain.rs", "                let cid = Cid::try_from(cid_string.as_str())?;\n", """                let cid = Cid::try_from(cid_string.as_str())?;
                if cid.hash().size() > 32 {
                    return Err(anyhow!("Oversized digest in proof {}", cid));
                }
""")],
  "a proof cited with a hash function whose digest is longer than 32 bytes (sha2-512, say)",
  "a proof that is present in the store is not found when cited with such a hash function",
  r'''
#[derive(Clone)]
struct Sha512Store(String);
#[async_trait::async_trait]
impl UcanStore<RawCodec> for Sha512Store {
    async fn read<T: Decode<RawCodec>>(&self, wanted: &Cid) -> Result<Option<T>> {
        if *wanted == cid(Code::Sha2_512, &self.0) {
            return Ok(Some(T::decode(RawCodec, &mut std::io::Cursor::new(self.0.as_bytes()))?));
        }
        Ok(None)
    }
    async fn write<T: Encode<RawCodec> + Send + core::fmt::Debug>(&mut self, _: T) -> Result<Cid> {
        unimplemented!()
    }
}
fn main() {
    let (alice, bob) = (key(1), key(2));
    let proof = UcanBuilder::default().issued_by(&alice).for_audience(&did(&bob)).build().unwrap();
    let proof = now(proof.sign()).unwrap();
    let token = UcanBuilder::default().issued_by(&bob).for_audience(&did(&alice)).witnessed_by(&proof, Some(Code::Sha2_512)).build().unwrap();
    let token = now(token.sign()).unwrap().encode().unwrap();
    let store = Sha512Store(proof.encode().unwrap());
    now(ProofChain::try_from_token_string(&token, None, &mut parser(), &store)).expect("the cited proof is in the store");
}''')

b("c05-canonical-cid", "C05",
  [(U+"ucan.rs", "        let token = self.encode()?;\n        let encoded = codec.encode(token.as_bytes())?;", """        // Identify the token by its canonical encoding
        let token = format!(
            "{}.{}.{}",
            self.header.jwt_base64_encode()?,
            self.payload.jwt_base64_encode()?,
            base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(self.signature.as_slice())
        );
        let encoded = codec.encode(token.as_bytes())?;"""),
   (U+"ucan.rs", "    serde::DagJson,\n", "    serde::{Base64Encode, DagJson},\n")],
  "a token made by another implementation, whose JSON has another key order or spacing",
  "the identifier the token computes for itself is not the one a store files it under, so a token built on it cites a proof nobody can find",
  r'''
fn main() {
    let (alice, bob) = (key(1), key(2));
    let mut store = MemoryStore::default();
    let text = jwt_of(&alice, &format!(r#"{{ "ucv": "0.10.0-canary", "iss": "{}", "aud": "{}", "exp": null, "cap": {{}} }}"#, did(&alice), did(&bob)));
    file(&mut store, &text);
    let proof = Ucan::try_from(text.as_str()).unwrap();
    assert_eq!(proof.to_cid(Code::Blake3_256).unwrap(), cid(Code::Blake3_256, &text));
    let token = UcanBuilder::default().issued_by(&bob).for_audience(&did(&alice)).witnessed_by(&proof, None).build().unwrap();
    let token = now(token.sign()).unwrap().encode().unwrap();
    chain(&token, None, &store).expect("the cited proof is in the store");
}''')

b("c06-clock-floor", "C06",
  [(U+"ucan.rs", "            exp < now_time.unwrap_or_else(now)\n", "            // A token that is expired already cannot be revived\n            exp < now_time.map_or_else(now, |time| time.max(now()))\n")],
  "an explicit validation time in the past, and a token that has expired since",
  "an explicit validation time is not judged alone: the machine clock has a say",
  r'''
fn main() {
    let alice = key(1);
    let token = jwt(&alice, "did:key:zAnyone", json!({"nbf": 1000, "exp": 2000}));
    let store = MemoryStore::default();
    chain(&token, Some(1500), &store).expect("valid at 1500");
    assert!(chain(&token, Some(2001), &store).is_err());
}''')

b("c06-proof-clock", "C06",
  [(U+"chain.rs", "Self::try_from_token_string(&ucan_token, now_time, did_parser, store).await?;\n                proof_chain", "Self::try_from_token_string(\n                        &ucan_token,\n                        now_time.filter(|time| ucan.expires_at().is_some() || *time == 0),\n                        did_parser,\n                        store,\n                    )\n                    .await?;\n                proof_chain")],
  "a proof cited by a token without an expiry, and an explicit validation time at which the proof's validity differs from that at the machine's time",
  "proofs of unbounded tokens are judged by the machine clock although an explicit time was given",
  r'''
fn main() {
    let (alice, bob) = (key(1), key(2));
    let mut store = MemoryStore::default();
    let proof = file(&mut store, &jwt(&alice, &did(&bob), json!({"nbf": 5000})));
    let token = jwt(&bob, &did(&alice), json!({"nbf": 6000, "prf": [proof]}));
    assert!(chain(&token, Some(5999), &store).is_err());
    chain(&token, Some(6000), &store).unwrap();
    // in force far in the future only
    let late = 99_999_999_999u64;
    let proof = file(&mut store, &jwt(&alice, &did(&bob), json!({"nbf": late})));
    let token = jwt(&bob, &did(&alice), json!({"nbf": late, "prf": [proof]}));
    chain(&token, Some(late), &store).expect("both tokens are in force at that time");
}''')

b("c07-negative-cache", "C07",
  [(U+"crypto/did.rs", "    key_cache: KeyCache,\n}", "    key_cache: KeyCache,\n    bad_dids: std::collections::BTreeSet<String>,\n}"),
   (U+"crypto/did.rs", "            key_cache: BTreeMap::new(),\n", "            key_cache: BTreeMap::new(),\n            bad_dids: Default::default(),\n"),
   (U+"crypto/did.rs", "        let did_bytes = bs58::decode", "        if self.bad_dids.contains(&did) {\n            return Err(anyhow!(\"No key can be made of {}\", did));\n        }\n\n        let did_bytes = bs58::decode"),
   (U+"crypto/did.rs", "                let key = ctor(Vec::from(&did_bytes[2..]))?;\n", "                let key = ctor(Vec::from(&did_bytes[2..])).map_err(|error| {\n                    self.bad_dids.insert(did.clone());\n                    error\n                })?;\n")],
  "a key constructor that fails once (an HSM or key service that is unavailable for a moment), and a retry with the same parser",
  "after the fault is over the same parser keeps refusing every token of that issuer",
  r'''
use std::sync::atomic::{AtomicBool, Ordering};
static DOWN: AtomicBool = AtomicBool::new(true);
fn flaky(bytes: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    match DOWN.load(Ordering::SeqCst) {
        true => Err(anyhow!("key service unavailable")),
        false => bytes_to_ed25519_key(bytes),
    }
}
fn main() {
    let token = jwt(&key(1), "did:key:zAnyone", json!({}));
    let store = MemoryStore::default();
    let mut parser = DidParser::new(&[(ED25519_MAGIC_BYTES, flaky)]);
    assert!(now(ProofChain::try_from_token_string(&token, None, &mut parser, &store)).is_err());
    DOWN.store(false, Ordering::SeqCst);
    now(ProofChain::try_from_token_string(&token, None, &mut parser, &store)).expect("the key service is back");
}''')

b("c08-did-slice", "C08",
  [(U+"crypto/did.rs", "            return Err(anyhow!(\"Expected valid did:key, got: {}\", did));", "            // Do not let a peer fill our logs\n            return Err(anyhow!(\n                \"Expected valid did:key, got: {}\",\n                &did[..did.len().min(32)]\n            ));")],
  "an issuer that is not a did:key, longer than 32 bytes, with a multi-byte character across byte 32",
  "validating a token of a hostile peer panics",
  r'''
fn main() {
    let alice = key(1);
    for pad in 0..4 {
        let issuer = format!("did:web:{}{}", "x".repeat(pad), "\u{1F511}".repeat(10));
        let token = jwt(&alice, "did:key:zAnyone", json!({"iss": issuer}));
        assert!(chain(&token, Some(1000), &MemoryStore::default()).is_err());
    }
}''')

b("c08-index-overflow", "C08",
  [(U+"chain.rs", "                    if *index < proofs.len() {", "                    if index.wrapping_add(1) <= proofs.len() {")],
  "a token redelegating the proof with the largest index there is (prf:18446744073709551615)",
  "the token is accepted, and reducing its chain panics",
  r'''
fn main() {
    let alice = key(1);
    let token = jwt(&alice, "did:key:zAnyone", json!({"cap": {"prf:18446744073709551615": {"ucan/DELEGATE": [{}]}}}));
    if let Ok(chain) = chain(&token, Some(1000), &MemoryStore::default()) {
        chain.reduce_capabilities(&MailSemantics);
        panic!("there is no such proof");
    }
}''')

b("c09-nbf-zero", "C09",
  [(U+"ipld/ucan.rs", "            nbf: *ucan.not_before(),\n", "            nbf: ucan.not_before().filter(|nbf| *nbf > 0),\n")],
  "a token with an explicit not-before of 0 that passes through the UCAN-IPLD form",
  "the token loses its not-before field, and with it the validity of its signature",
  r'''
fn main() {
    let alice = key(1);
    let ucan = UcanBuilder::default().issued_by(&alice).for_audience("did:key:z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK").not_before(0).build().unwrap();
    let ucan = now(ucan.sign()).unwrap();
    let bytes = serde_ipld_dagcbor::to_vec(&UcanIpld::try_from(&ucan).unwrap()).unwrap();
    let back: UcanIpld = serde_ipld_dagcbor::from_slice(&bytes).unwrap();
    let back = Ucan::try_from(&back).unwrap();
    assert_eq!(back.not_before(), &Some(0));
    assert_eq!(back.encode().unwrap(), ucan.encode().unwrap());
    now(back.check_signature(&mut parser())).unwrap();
}''')

b("c09-did-web-case", "C09",
  [(U+"ipld/principle.rs", "            Ok(Principle([DID_IPLD_PREFIX, stripped.as_bytes()].concat()))", "            // Names other than keys are case insensitive\n            let stripped = stripped.to_ascii_lowercase();\n            Ok(Principle([DID_IPLD_PREFIX, stripped.as_bytes()].concat()))")],
  "an audience that is not a did:key and has capital letters, in a token that passes through the UCAN-IPLD form",
  "the audience changes, and with it the text and the validity of the signature",
  r'''
fn main() {
    let alice = key(1);
    let ucan = UcanBuilder::default().issued_by(&alice).for_audience("did:web:Example.com:Users").build().unwrap();
    let ucan = now(ucan.sign()).unwrap();
    let back = Ucan::try_from(&UcanIpld::try_from(&ucan).unwrap()).unwrap();
    assert_eq!(back.audience(), ucan.audience());
    now(back.check_signature(&mut parser())).unwrap();
}''')

b("c10-take-decode", "C10",
  [(U+"store.rs", """        let dags = self.dags.lock().map_err(|_| anyhow!("poisoned mutex!"))?;

        Ok(match dags.get(cid) {
            Some(bytes) => Some(T::decode(codec, &mut Cursor::new(bytes))?),
            None => None,
        })""", """        // Decode without holding the lock, and without copying the block
        let taken = self
            .dags
            .lock()
            .map_err(|_| anyhow!("poisoned mutex!"))?
            .remove_entry(cid);

        Ok(match taken {
            Some((cid, bytes)) => {
                let value = T::decode(codec, &mut Cursor::new(&bytes));
                self.dags
                    .lock()
                    .map_err(|_| anyhow!("poisoned mutex!"))?
                    .insert(cid, bytes);
                Some(value?)
            }
            None => None,
        })""")],
  "two threads reading the same block: one looks it up while the other one decodes it",
  "a read that starts after the write of its block returned misses the block",
  r'''
use std::sync::{mpsc, Mutex};
static OTHER: Mutex<Option<(MemoryStore, Cid, mpsc::Sender<bool>)>> = Mutex::new(None);
/// While this is decoded, another thread begins to read the same block.
struct Slow;
impl Decode<RawCodec> for Slow {
    fn decode<R: std::io::Read + std::io::Seek>(_: RawCodec, _: &mut R) -> Result<Self> {
        let (store, cid, tell) = OTHER.lock().unwrap().take().unwrap();
        let (started, wait) = mpsc::channel();
        std::thread::spawn(move || {
            started.send(()).unwrap();
            tell.send(now(store.read::<Ipld>(&cid)).unwrap().is_some()).unwrap();
        });
        wait.recv().unwrap();
        std::thread::sleep(std::time::Duration::from_millis(1500));
        Ok(Slow)
    }
}
fn main() {
    let mut store = MemoryStore::default();
    let cid = now(store.write(Ipld::Bytes(b"block".to_vec()))).unwrap();
    let (tell, told) = mpsc::channel();
    *OTHER.lock().unwrap() = Some((store.clone(), cid, tell));
    assert!(now(store.read::<Slow>(&cid)).unwrap().is_some());
    assert!(told.recv().unwrap(), "the block was written before either read began");
}''')

b("c11-dedupe-proofs", "C11",
  [(U+"builder.rs", "            Ok(proof) => self.proofs.push(proof.to_string()),\n", "            Ok(proof) => self.push_proof(proof.to_string()),\n"),
   (U+"builder.rs", "            Ok(proof) => {\n                self.proofs.push(proof.to_string());\n", "            Ok(proof) => {\n                self.push_proof(proof.to_string());\n"),
   (U+"builder.rs", "    fn implied_expiration(&self)", "    /// Citing a proof again adds nothing\n    fn push_proof(&mut self, proof: String) {\n        if !self.proofs.contains(&proof) {\n            self.proofs.push(proof);\n        }\n    }\n\n    fn implied_expiration(&self)")],
  "a builder that cites proof a, then b, then redelegates a (delegating_from computes its index from the number of proofs)",
  "the token redelegates another proof than the one that was asked for",
  r'''
fn main() {
    let (alice, bob) = (key(1), key(2));
    let mut store = MemoryStore::default();
    let make = |resource: &str| {
        let proof = UcanBuilder::default().issued_by(&alice).for_audience(&did(&bob)).claiming_capability((resource, "email/send", &json!({}))).build().unwrap();
        now(proof.sign()).unwrap()
    };
    let (a, b) = (make("mailto:a@x.org"), make("mailto:b@x.org"));
    file(&mut store, &a.encode().unwrap());
    file(&mut store, &b.encode().unwrap());
    let token = UcanBuilder::default().issued_by(&bob).for_audience(&did(&alice)).witnessed_by(&a, None).witnessed_by(&b, None).delegating_from(&a, None).build().unwrap();
    let token = now(token.sign()).unwrap();
    let chain = chain(&token.encode().unwrap(), None, &store).unwrap();
    assert_eq!(originators(&chain, "mailto:a@x.org", json!({})), set(&[&did(&alice)]), "a was redelegated");
    assert_eq!(originators(&chain, "mailto:b@x.org", json!({})), set(&[]), "b was not");
}''')

b("c11-exp-after-nbf", "C11",
  [(U+"builder.rs", "                    expiration: self.implied_expiration(),\n", "                    // A token has to be active before it expires\n                    expiration: self.implied_expiration().max(self.not_before),\n")],
  "a builder without an expiration but with a not-before (or with one later than the expiration)",
  "the token carries an expiry nobody asked for",
  r'''
fn main() {
    let alice = key(1);
    let token = UcanBuilder::default().issued_by(&alice).for_audience("did:key:zAnyone").not_before(5000).build().unwrap();
    let token = now(token.sign()).unwrap();
    assert_eq!(token.not_before(), &Some(5000));
    assert_eq!(token.expires_at(), &None);
}''')

b("c12-did-cache-case", "C12",
  [(U+"crypto/did.rs", "        if let Some(key) = self.key_cache.get(&did) {", "        // The same identifier in another case is the same identifier\n        if let Some(key) = self.key_cache.get(&did.to_lowercase()) {"),
   (U+"crypto/did.rs", "                self.key_cache.insert(did.clone(), Arc::new(key));\n", "                self.key_cache.insert(did.to_lowercase(), Arc::new(key));\n"),
   (U+"crypto/did.rs", "                self.key_cache\n                    .get(&did)\n", "                self.key_cache\n                    .get(&did.to_lowercase())\n")],
  "a parser that has verified a token of some issuer, and then is given a token signed by that issuer's key but naming an issuer that differs in letter case only",
  "the second token is accepted with the used parser and refused with a fresh one",
  r'''
fn main() {
    let alice = key(1);
    let flipped: String = {
        let did = did(&alice);
        let (head, tail) = did.split_at(did.len() - 6);
        head.to_string() + &tail.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>()
    };
    let honest = jwt(&alice, "did:key:zAnyone", json!({}));
    let forged = jwt(&alice, "did:key:zAnyone", json!({"iss": flipped}));
    let store = MemoryStore::default();
    let mut parser = parser();
    now(ProofChain::try_from_token_string(&honest, None, &mut parser, &store)).unwrap();
    let used = now(ProofChain::try_from_token_string(&forged, None, &mut parser, &store)).is_ok();
    let fresh = chain(&forged, None, &store).is_ok();
    assert_eq!(used, fresh, "the verdict depends on what was verified before");
}''')

b("c13-repeated-proof", "C13",
  [(U+"chain.rs", "            for cid_string in ucan_proofs.iter() {\n", "            for (index, cid_string) in ucan_proofs.iter().enumerate() {\n                if ucan_proofs[..index].contains(cid_string) {\n                    return Err(anyhow!(\"Proof {} is cited repeatedly\", cid_string));\n                }\n")],
  "a token that cites the same proof twice",
  "a valid chain is refused",
  r'''
fn main() {
    let (alice, bob) = (key(1), key(2));
    let mut store = MemoryStore::default();
    let proof = file(&mut store, &jwt(&alice, &did(&bob), json!({})));
    let token = jwt(&bob, &did(&alice), json!({"prf": [proof, proof]}));
    chain(&token, None, &store).expect("every cited proof is valid");
}''')

b("c14-lossy", "C14",
  [(U+"store.rs", "Some(Ipld::Bytes(bytes)) => Ok(Some(std::str::from_utf8(&bytes)?.to_string())),", "Some(Ipld::Bytes(bytes)) => Ok(Some(String::from_utf8_lossy(&bytes).into_owned())),")],
  "a stored block that is not UTF-8",
  "reading it as a token yields a text that is not what the store holds instead of an error",
  r'''
fn main() {
    let mut store = MemoryStore::default();
    let cid = now(store.write(Ipld::Bytes(vec![b'a', 0xff, b'.']))).unwrap();
    assert!(now(store.read_token(&cid)).is_err());
    assert!(now(store.require_token(&cid)).is_err());
}''')

b("c14-codec-late", "C14",
  [(U+"store.rs", """        if cid.codec() != u64::from(codec) {
            return Err(anyhow!(
                "Only 'raw' codec supported, but CID refers to {:#x}",
                cid.codec()
            ));
        }

        match self.read::<Ipld>(cid).await? {
""", """        match self.read::<Ipld>(cid).await? {
            Some(_) if cid.codec() != u64::from(codec) => Err(anyhow!(
                "Only 'raw' codec supported, but CID refers to {:#x}",
                cid.codec()
            )),
""")],
  "an identifier of another codec that nothing is stored under",
  "it is reported as absent instead of as an error",
  r'''
fn main() {
    let store = MemoryStore::default();
    let other = Cid::new_v1(0x71, Code::Blake3_256.digest(b"token"));
    assert!(now(store.read_token(&other)).is_err());
}''')
