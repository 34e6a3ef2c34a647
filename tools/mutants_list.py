# C01
m("C01-caveat-array-superset", "C01", U+"capability/caveats.rs", "if value != other_value {", "let covered = match (value, other_value) { (Value::Array(a), Value::Array(b)) => a.iter().all(|x| b.contains(x)) || b.iter().all(|x| a.contains(x)), _ => value == other_value }; if !covered {")
m("C01-as-did-case", "C01", U+"capability/semantics.rs", ") if did == other_did =>", ") if did.eq_ignore_ascii_case(other_did) =>")
m("C01-as-did-prefix", "C01", U+"capability/semantics.rs", ") if did == other_did =>", ") if other_did.starts_with(did.as_str()) =>")
m("C01-suffix-star", "C01", U+"capability/semantics.rs", 'Some(match &resource[Position::BeforePath..] {\n            "*" =>', 'Some(match &resource[Position::BeforePath..] {\n            path if path.ends_with(\'*\') =>')
m("C01-as-truncated", "C01", U+"capability/semantics.rs", 'path_parts.collect::<Vec<&str>>().join(":")', 'path_parts.take(2).collect::<Vec<&str>>().join(":")')
m("C01-caveat-nonobject", "C01", U+"capability/semantics.rs", "if let Some(caveat) = caveat {", "if let Some(caveat) = caveat.filter(|c| c.is_object()) {")
m("C01-unscoped-claims", "C01", U+"capability/semantics.rs", "ResourceUri::Scoped(other_scope) => scope.contains(other_scope),\n                _ => false,", "ResourceUri::Scoped(other_scope) => scope.contains(other_scope),\n                _ => true,")
m("C01-ability-eq-order", "C01", U+"capability/semantics.rs", "&& self.ability >= other.ability", "&& (self.ability >= other.ability || self.ability.to_string().split('/').next() == other.ability.to_string().split('/').next())")
m("C01-redelegated-issuer", "C01", U+"chain.rs", "info.expires_at = *self.ucan.expires_at();\n                        info", "info.expires_at = *self.ucan.expires_at();\n                        info.originators.insert(self.ucan.issuer().to_string());\n                        info")
m("C01-all-ancestors", "C01", U+"chain.rs", "originators.extend(ancestral_capability_info.originators.clone())", "originators.extend(ancestral_capability_infos.iter().filter(|i| i.capability.resource() == ancestral_capability_info.capability.resource()).flat_map(|i| i.originators.clone()))")
m("C01-my-as-mix", "C01", U+"capability/semantics.rs", "            _ => false,\n        }\n    }\n}\n\nimpl<S> ToString for Resource<S>", "            (Resource::My { kind: resource }, Resource::As { kind: other_resource, .. }) => resource.contains(other_resource),\n            _ => false,\n        }\n    }\n}\n\nimpl<S> ToString for Resource<S>")
m("C01-caveat-count", "C01", U+"capability/caveats.rs", "        for (key, value) in self.iter() {", "        for (key, value) in self.iter().take(2) {")
m("C01-prf-wrong-ability", "C01", U+"capability/proof.rs", '"ucan/DELEGATE" => Ok(ProofAction::Delegate),\n            unsupported', 'ability if ability.starts_with("ucan/") => Ok(ProofAction::Delegate),\n            unsupported')
# C02
m("C02-first-caveat", "C02", U+"capability/data.rs", "_ => caveats\n                                .iter()\n                                .map", "_ => caveats\n                                .iter()\n                                .take(2)\n                                .map")
m("C02-break-originators", "C02", U+"chain.rs", "originators.extend(ancestral_capability_info.originators.clone())\n                            }", "originators.extend(ancestral_capability_info.originators.clone());\n                                if originators.len() > 1 { break; }\n                            }")
m("C03-redelegate-one", "C03", U+"chain.rs", "} else {\n                        return Err(anyhow!(\n                            \"Unable to redelegate", "} else if redelegations.is_empty() {\n                        return Err(anyhow!(\n                            \"Unable to redelegate")
m("C02-merge-no-extend", "C02", U+"chain.rs", "                        remaining_capability_info\n                            .originators\n                            .extend(capability_info.originators);\n                        continue 'merge;", "                        if remaining_capability_info.originators.len() < 2 {\n                            remaining_capability_info\n                            .originators\n                            .extend(capability_info.originators); }\n                        continue 'merge;")
m("C02-bounds-exp-proof", "C02", U+"chain.rs", "info.expires_at = *self.ucan.expires_at();\n                        info", "info.expires_at = info.expires_at.or(*self.ucan.expires_at());\n                        info")
m("C02-index-digit", "C02", U+"capability/proof.rs", "selection.parse::<usize>()?", "selection.parse::<u8>().map(usize::from).ok().filter(|i| *i < 10).ok_or_else(|| anyhow!(\"no such proof\"))?")
m("C02-as-web", "C02", U+"capability/semantics.rs", 'let resource = path_parts.collect::<Vec<&str>>().join(":");', 'let resource = path_parts.map(str::to_lowercase).collect::<Vec<String>>().join(":");')
m("C02-retain-one-domain", "C02", U+"chain.rs", ".filter_map(|data| semantics.parse_capability(&data));", ".enumerate().take_while({ let mut skipped = 0; move |_| { skipped += 1; skipped <= 8 } }).filter_map(|(_, data)| semantics.parse_capability(&data));")
# C03
m("C03-aud-prefix", "C03", U+"chain.rs", "match audience == issuer {", "match audience.eq_ignore_ascii_case(issuer) {")
m("C03-exp-second", "C03", U+"ucan.rs", "(Some(exp), Some(other_exp)) => exp >= other_exp,", "(Some(exp), Some(other_exp)) => exp.saturating_add(1) >= other_exp,")
m("C03-nbf-none", "C03", U+"ucan.rs", "(Some(nbf), Some(other_nbf)) => nbf <= other_nbf,\n            (Some(_), None) => false,", "(Some(nbf), Some(other_nbf)) => nbf <= other_nbf,\n            (Some(nbf), None) => nbf <= now(),")
m("C03-index-off", "C03", U+"chain.rs", "if *index < proofs.len() {", "if *index <= proofs.len() {")
m("C03-dedupe", "C03", U+"chain.rs", "                proofs.push(proof_chain);", "                if !proofs.iter().any(|p: &ProofChain| p.ucan == proof_chain.ucan) { proofs.push(proof_chain); }")
m("C03-first-link-only", "C03", U+"chain.rs", "                proof_chain.validate_link_to(&ucan)?;", "                if proofs.len() < 2 { proof_chain.validate_link_to(&ucan)?; }")
m("C03-repeat-link", "C03", U+"chain.rs", "                proof_chain.validate_link_to(&ucan)?;", "                if proof_chain.proofs.is_empty() || ucan.capabilities().iter().next().is_some() { proof_chain.validate_link_to(&ucan)?; }")
m("C03-order", "C03", U+"chain.rs", "                proofs.push(proof_chain);", "                if cid_string < &ucan_proofs[0] { proofs.insert(0, proof_chain); } else { proofs.push(proof_chain); }")
m("C03-expired-proof", "C03", U+"ucan.rs", "        if self.is_expired(now_time) {\n            return Err(anyhow!(\"Expired\"));", "        if self.is_expired(now_time) && (self.payload.prf.is_some() || self.payload.cap.is_empty()) {\n            return Err(anyhow!(\"Expired\"));")
m("C03-sig-cached-did", "C03 C12", U+"chain.rs", "                proof_chain.validate_link_to(&ucan)?;", "                if !proofs.iter().any(|p: &ProofChain| p.ucan.issuer() == proof_chain.ucan.issuer()) { proof_chain.validate_link_to(&ucan)?; }")
# C04
m("C04-trailing-bits", "C04", U+"ucan.rs", "            base64::engine::general_purpose::URL_SAFE_NO_PAD\n                .decode(str)", "            base64::engine::GeneralPurpose::new(&base64::alphabet::URL_SAFE, base64::engine::general_purpose::NO_PAD.with_decode_allow_trailing_bits(true))\n                .decode(str)")
m("C04-padding", "C04", U+"ucan.rs", "            base64::engine::general_purpose::URL_SAFE_NO_PAD\n                .decode(str)", "            base64::engine::general_purpose::URL_SAFE_NO_PAD\n                .decode(str.trim_end_matches('='))")
m("C04-trim", "C04", U+"ucan.rs", "        // better to create multiple iterators than collect, or clone.", "        let ucan_token = ucan_token.trim();")
m("C04-ed-truncate", "C04", K+"ed25519.rs", "let signature = Signature::try_from(signature)?;", "let signature = Signature::try_from(signature.get(..64).unwrap_or(signature))?;")
m("C04-p256-truncate", "C04", K+"p256.rs", "let signature = Signature::try_from(signature)?;", "let signature = Signature::try_from(signature.get(..64).unwrap_or(signature))?;")
m("C04-rsa-pad", "C04", K+"rsa.rs", ".verify(padding, hashed.as_ref(), signature)", ".verify(padding, hashed.as_ref(), signature.strip_prefix(&[0u8]).unwrap_or(signature))")
m("C04-empty-sig-segment", "C04", U+"ucan.rs", '        let signature = parts\n            .next()\n            .ok_or_else(|| anyhow!("Missing UCAN signature in token part"))?', '        let signature = parts\n            .next()\n            .map(|s| match s { Ok(b) if b.is_empty() => parts.next().unwrap_or(Ok(b)), s => s })\n            .ok_or_else(|| anyhow!("Missing UCAN signature in token part"))?')
m("C09-ipld-sig-rest", "C09", U+"ipld/ucan.rs", "            exp: value.exp,\n            nbf: value.nbf,", "            exp: value.exp.filter(|exp| *exp != u64::MAX),\n            nbf: value.nbf,")
m("C04-standard-b64", "C04", U+"ucan.rs", "        let mut parts = ucan_token.split('.').map(|str| {", "        let mut parts = ucan_token.split('.').map(|s| s.trim_end_matches('\\n')).map(|str| {")
# C05
m("C05-from-cid", "C05", U+"chain.rs", "&Self::require_cited_token(cid, store).await?,", "&store.require_token(cid).await?,")
m("C05-hash-sha512", "C05", U+"ucan.rs", "        let encoded = codec.encode(token.as_bytes())?;", "        let hasher = match hasher { Code::Sha2_512 => Code::Sha2_256, h => h };\n        let encoded = codec.encode(token.as_bytes())?;")
m("C05-store-sha", "C05", U+"store.rs", "Code::Blake3_256.digest(&block)", "if block.len() > 1024 { Code::Sha2_256.digest(&block) } else { Code::Blake3_256.digest(&block) }")
m("C05-reuse-by-issuer", "C05", U+"chain.rs", "                let ucan_token = Self::require_cited_token(&cid, store).await?;", "                let ucan_token = match cid.hash().code() { 0x1e | 0x12 => Self::require_cited_token(&cid, store).await?, _ => store.require_token(&cid).await? };")
# C06
m("C06-exp-le", "C06", U+"ucan.rs", "exp < now_time.unwrap_or_else(now)", "exp <= now_time.unwrap_or_else(now)")
m("C06-zero-time", "C06", U+"ucan.rs", "exp < now_time.unwrap_or_else(now)", "exp < now_time.filter(|t| *t > 0).unwrap_or_else(now)")
m("C06-nested-now", "C06", U+"chain.rs", "Self::try_from_token_string(&ucan_token, now_time, did_parser, store).await?", "Self::try_from_token_string(&ucan_token, now_time.filter(|_| ucan.not_before().is_none()), did_parser, store).await?")
m("C06-round", "C06", U+"time.rs", ".as_secs()", ".as_secs_f64().round() as u64")
m("C06-monotone", "C06", U+"time.rs", "pub fn now() -> u64 {\n    SystemTime::now()", "pub fn now() -> u64 {\n    static LAST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n    let t = read();\n    LAST.fetch_max(t, std::sync::atomic::Ordering::SeqCst).max(t)\n}\nfn read() -> u64 {\n    SystemTime::now()")
m("C06-lifetime-wins", "C06 C11", U+"builder.rs", "        if self.expiration.is_some() {\n            self.expiration\n        } else {", "        if self.expiration.is_some() && self.lifetime.is_none() {\n            self.expiration\n        } else if self.expiration > Some(now()) {\n            self.expiration\n        } else {")
m("C06-lifetime-nbf", "C06 C11", U+"builder.rs", ".map(|lifetime| now().saturating_add(lifetime))", ".map(|lifetime| self.not_before.unwrap_or_else(now).max(now()).saturating_add(lifetime))")
m("C06-nbf-skew", "C06", U+"ucan.rs", "Some(nbf) => nbf > now_time.unwrap_or_else(now),", "Some(nbf) => nbf > now_time.unwrap_or_else(|| now() + 1),")
# C07
m("C07-empty-sig", "C07", U+"builder.rs", "let signature = self.issuer.sign(data_to_sign.as_slice()).await?;", "let signature = self.issuer.sign(data_to_sign.as_slice()).await.unwrap_or_default();")
m("C07-skip-unreadable", "C07", U+"chain.rs", "                let ucan_token = Self::require_cited_token(&cid, store).await?;", "                let ucan_token = match Self::require_cited_token(&cid, store).await { Ok(token) => token, Err(_) if !proofs.is_empty() => continue, Err(error) => return Err(error) };")
m("C07-did-fallback", "C07", U+"builder.rs", "iss: self.issuer.get_did().await?,", "iss: self.issuer.get_did().await.unwrap_or_else(|_| self.audience.clone()),")
m("C07-negative-cache", "C07 C12", U+"crypto/did.rs", "let key = ctor(Vec::from(&did_bytes[2..]))?;", "let key = ctor(Vec::from(&did_bytes[2..])).map_err(|error| { self.key_constructors.remove(magic_bytes); error })?;")
m("C07-retry-verify", "C07", U+"ucan.rs", "key.verify(&self.signed_data, &self.signature).await", "match key.verify(&self.signed_data, &self.signature).await { Err(error) if error.to_string().contains(\"unavailable\") => Ok(()), r => r }")
m("C07-take-cache", "C07 C12", U+"ucan.rs", "        key.verify(&self.signed_data, &self.signature).await", "        let cache = did_parser.take_cache();\n        let r = key.verify(&self.signed_data, &self.signature).await;\n        did_parser.put_cache(cache);\n        r", (U+"crypto/did.rs", "    pub fn parse(&mut self", "    pub(crate) fn take_cache(&mut self) -> (KeyConstructors, KeyCache) {\n        (std::mem::take(&mut self.key_constructors), std::mem::take(&mut self.key_cache))\n    }\n    pub(crate) fn put_cache(&mut self, c: (KeyConstructors, KeyCache)) {\n        self.key_constructors = c.0;\n        self.key_cache = c.1;\n    }\n    pub fn parse(&mut self"))
m("C07-sign-cached", "C07 C11", U+"builder.rs", "        let signature = self.issuer.sign(data_to_sign.as_slice()).await?;", "        let signature = match self.issuer.sign(data_to_sign.as_slice()).await { Ok(s) => s, Err(_) => self.issuer.sign(data_to_sign.as_slice()).await.unwrap_or_else(|_| vec![0; 64]) };")
# C08
m("C08-bs58-unwrap", "C08", U+"crypto/did.rs", "bs58::decode(&did[DID_KEY_PREFIX.len()..]).into_vec()?", "bs58::decode(&did[DID_KEY_PREFIX.len()..]).into_vec().map_err(|e| anyhow!(\"{}{}\", &did[..DID_KEY_PREFIX.len() + 4], e))?")
m("C08-cid-unwrap", "C08", U+"chain.rs", "let cid = Cid::try_from(cid_string.as_str())?;", "let cid = Cid::try_from(cid_string.as_str()).map_err(|e| anyhow!(\"proof {}: {}\", &cid_string[..8.min(cid_string.len())], e))?;")
m("C08-utf8-unwrap", "C08 C14", U+"store.rs", "Ok(Some(std::str::from_utf8(&bytes)?.to_string()))", "Ok(Some(String::from_utf8(bytes).expect(\"a token\")))")
m("C08-caveat-unwrap", "C08", U+"capability/semantics.rs", "            (Ok(self_caveat), Ok(other_caveat)) => {\n                self.resource", "            (Err(_), Err(_)) => unreachable!(),\n            (Ok(self_caveat), Ok(other_caveat)) => {\n                self.resource")
m("C08-index-plus", "C08", U+"chain.rs", "if *index < proofs.len() {", "if *index + 1 <= proofs.len() {")
m("C08-principal-slice", "C08", U+"ipld/principle.rs", ".and_then(|did| std::str::from_utf8(did).ok());", ".map(|did| std::str::from_utf8(did).unwrap());")
m("C08-as-slice", "C08", U+"capability/semantics.rs", 'let value = match path_parts.next() {\n            Some(value) => value,', 'let value = match path_parts.next() {\n            Some(value) if &value[..1] == "z" => value,')
m("C08-payload-split", "C08", U+"ucan.rs", "        // better to create multiple iterators than collect, or clone.", "        if ucan_token.split('.').nth(1).map(|p| p.len() % 4 == 1 && p.as_bytes()[p.len() - 2] == b'=').unwrap_or(false) { return Err(anyhow!(\"padding\")); }")
m("C08-sig-alloc", "C08", U+"ipld/signature.rs", "        let algorithm = JwtSignatureAlgorithm::try_from(VarsigPrefix::try_from(prefix)?)?;", "        let algorithm = JwtSignatureAlgorithm::try_from(VarsigPrefix::try_from(prefix)?)?;\n        let _room: Vec<u8> = Vec::with_capacity(signature_length.min(1 << 40));")
# C09
m("C09-ipld-nbf0", "C09", U+"ipld/ucan.rs", "            nbf: value.nbf,\n            nnc", "            nbf: value.nbf.filter(|nbf| *nbf > 0),\n            nnc")
m("C09-ipld-prf-v0", "C09", U+"ipld/ucan.rs", ".map(|prf| prf.iter().map(|cid| cid.to_string()).collect()),", ".map(|mut prf: Vec<Cid>| { prf.dedup(); prf.iter().map(|cid| cid.to_string()).collect() }),")
m("C09-principle-case", "C09", U+"ipld/principle.rs", "Ok(Principle([DID_IPLD_PREFIX, stripped.as_bytes()].concat()))", "Ok(Principle([DID_IPLD_PREFIX, stripped.to_lowercase().as_bytes()].concat()))")
m("C09-varsig-swap", "C09", U+"ipld/signature.rs", "            JwtSignatureAlgorithm::RS256 => VarsigPrefix::RS256,\n            JwtSignatureAlgorithm::ES256 =>", "            JwtSignatureAlgorithm::RS256 => VarsigPrefix::ES512,\n            JwtSignatureAlgorithm::ES256 =>")
m("C09-fct-ipld-empty", "C09", U+"ipld/ucan.rs", "            fct: ucan.facts().clone(),", "            fct: ucan.facts().clone().map(|f| f.into_iter().filter(|(k, _)| !k.is_empty() && k.is_ascii()).collect()),")
m("C09-cap-empty-caveats", "C09", U+"capability/data.rs", "pub struct Capabilities(CapabilitiesImpl);", "#[serde(transparent)]\npub struct Capabilities(#[serde(serialize_with = \"no_empty\")] CapabilitiesImpl);\nfn no_empty<S: serde::Serializer>(v: &CapabilitiesImpl, s: S) -> Result<S::Ok, S::Error> {\n    v.iter().map(|(r, a)| (r.clone(), a.iter().filter(|(_, c)| !c.is_empty()).map(|(k, c)| (k.clone(), c.clone())).collect())).collect::<CapabilitiesImpl>().serialize(s)\n}")
# C10
m("C10-two-locks", "C10", U+"store.rs", "        dags.insert(cid, block);\n\n        Ok(cid)", "        dags.insert(cid, Vec::new());\n        drop(dags);\n        let copy = block.to_vec();\n        let mut dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n        dags.insert(cid, copy);\n        Ok(cid)")
m("C10-try-lock", "C10", U+"store.rs", "        let dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n\n        Ok(match dags.get(cid)", "        let dags = match self.dags.try_lock() { Ok(d) => d, Err(std::sync::TryLockError::WouldBlock) => return Ok(None), Err(_) => return Err(anyhow!(\"poisoned mutex!\")) };\n\n        Ok(match dags.get(cid)")
m("C10-take-decode", "C10", U+"store.rs", "        let dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n\n        Ok(match dags.get(cid) {\n            Some(bytes) => Some(T::decode(codec, &mut Cursor::new(bytes))?),\n            None => None,\n        })", "        let taken = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?.remove(cid);\n        Ok(match taken {\n            Some(bytes) => {\n                let value = T::decode(codec, &mut Cursor::new(&bytes));\n                self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?.insert(*cid, bytes);\n                Some(value?)\n            }\n            None => None,\n        })")
m("C10-lost-update", "C10", U+"store.rs", "        let mut dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n        dags.insert(cid, block);", "        let mut copy = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?.clone();\n        copy.insert(cid, block);\n        *self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))? = copy;")
m("C10-drop-failed", "C10", U+"store.rs", "        let dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n\n        Ok(match dags.get(cid) {\n            Some(bytes) => Some(T::decode(codec, &mut Cursor::new(bytes))?),", "        let mut dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n\n        Ok(match dags.get(cid).cloned() {\n            Some(bytes) => Some(T::decode(codec, &mut Cursor::new(bytes)).map_err(|e| { dags.remove(cid); e })?),")
m("C10-clone-deep", "C10", U+"store.rs", "#[derive(Clone, Default, Debug)]\npub struct MemoryStore {", "impl Clone for MemoryStore {\n    fn clone(&self) -> Self {\n        if Arc::strong_count(&self.dags) > 2 {\n            MemoryStore { dags: Arc::new(Mutex::new(self.dags.lock().map(|d| d.clone()).unwrap_or_default())) }\n        } else {\n            MemoryStore { dags: self.dags.clone() }\n        }\n    }\n}\n#[derive(Default, Debug)]\npub struct MemoryStore {")
m("C10-skip-big", "C10", U+"store.rs", "        dags.insert(cid, block);", "        if !dags.keys().any(|k| k.hash().digest()[..1] == cid.hash().digest()[..1]) { dags.insert(cid, block); }")
# C11
m("C11-nonce-shared", "C11", U+"builder.rs", ".encode(rand::thread_rng().gen::<[u8; 32]>()),", ".encode(<rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(now()).gen::<[u8; 32]>()),")
m("C11-index-caps", "C11 C02", U+"builder.rs", "let proof_index = self.proofs.len() - 1;", "let proof_index = self.proofs.len().min(self.capabilities.len() + 1) - 1;")
m("C11-dedupe-caveats", "C11", U+"capability/data.rs", "                ability_vec.push(caveat);", "                if !ability_vec.contains(&caveat) { ability_vec.push(caveat); }")
m("C11-nbf-zero", "C11", U+"builder.rs", "        self.not_before = Some(timestamp);", "        self.not_before = Some(timestamp).filter(|t| *t > 0);")
m("C11-facts-first", "C11", U+"builder.rs", "                self.facts.insert(key.to_owned(), value);", "                self.facts.entry(key.to_owned()).or_insert(value);")
m("C11-alg-default", "C11", U+"builder.rs", "alg: self.issuer.get_jwt_algorithm_name(),", "alg: match self.issuer.get_jwt_algorithm_name() { a if a == \"RS256\" || a == \"ES256\" => a, _ => \"EdDSA\".into() },")
m("C11-nonce-builder", "C11", U+"builder.rs", ".encode(rand::thread_rng().gen::<[u8; 32]>()),", ".encode(rand::thread_rng().gen::<[u8; 1]>()),")
m("C11-prf-dedupe", "C11", U+"builder.rs", "Some(self.proofs.clone())\n        };\n\n        Ok(UcanPayload", "Some(self.proofs.iter().fold(vec![], |mut v: Vec<String>, p| { if !v.contains(p) { v.push(p.clone()); } v }))\n        };\n\n        Ok(UcanPayload")
m("C11-claim-many", "C11", U+"builder.rs", "        self.capabilities.extend(caps);", "        if self.capabilities.is_empty() { self.capabilities = caps; } else { self.capabilities.splice(0..0, caps); }")
m("C11-caveat-skip", "C11", U+"capability/data.rs", '                return Err(anyhow!("Caveat must be an object: {}", caveat));\n            }\n\n            if let', '                continue;\n            }\n\n            if let')
# C12
m("C12-cache-fold", "C12 C04", U+"crypto/did.rs", "        if let Some(key) = self.key_cache.get(&did) {", "        if let Some((_, key)) = self.key_cache.iter().find(|(k, _)| k.eq_ignore_ascii_case(&did)) {")
m("C12-cache-key-bytes", "C12", U+"crypto/did.rs", "        match self.key_constructors.get(magic_bytes) {", "        if let Some(key) = self.key_cache.iter().find(|(k, _)| bs58::decode(&k[DID_KEY_PREFIX.len()..]).into_vec().map(|b| b[2..] == did_bytes[2..]).unwrap_or(false)).map(|x| x.1.clone()) { return Ok(key); }\n        match self.key_constructors.get(magic_bytes) {")
m("C12-cache-len", "C12", U+"crypto/did.rs", "                self.key_cache.insert(did.clone(), Arc::new(key));", "                if self.key_cache.len() >= 4 { return Err(anyhow!(\"Too many keys\")); }\n                self.key_cache.insert(did.clone(), Arc::new(key));")
m("C12-verified-memo", "C12", U+"ucan.rs", "        let key = did_parser.parse(&self.payload.iss)?;\n        key.verify(&self.signed_data, &self.signature).await", "        let key = did_parser.parse(&self.payload.iss)?;\n        if did_parser.seen.contains(&self.signed_data) { return Ok(()); }\n        let r = key.verify(&self.signed_data, &self.signature).await;\n        if r.is_ok() { did_parser.seen.insert(self.signed_data.clone()); }\n        r", (U+"crypto/did.rs", "    key_cache: KeyCache,\n}", "    key_cache: KeyCache,\n    pub(crate) seen: std::collections::BTreeSet<Vec<u8>>,\n}"), (U+"crypto/did.rs", "            key_cache: BTreeMap::new(),\n        }", "            key_cache: BTreeMap::new(),\n            seen: Default::default(),\n        }"))
m("C12-failed-memo", "C12", U+"ucan.rs", "        let key = did_parser.parse(&self.payload.iss)?;\n        key.verify(&self.signed_data, &self.signature).await", "        let key = did_parser.parse(&self.payload.iss)?;\n        if did_parser.seen.contains(&self.signed_data) { return Err(anyhow!(\"bad signature\")); }\n        let r = key.verify(&self.signed_data, &self.signature).await;\n        if r.is_err() { did_parser.seen.insert(self.signed_data.clone()); }\n        r", (U+"crypto/did.rs", "    key_cache: KeyCache,\n}", "    key_cache: KeyCache,\n    pub(crate) seen: std::collections::BTreeSet<Vec<u8>>,\n}"), (U+"crypto/did.rs", "            key_cache: BTreeMap::new(),\n        }", "            key_cache: BTreeMap::new(),\n            seen: Default::default(),\n        }"))
# C13
m("C13-visited", "C13", U+"chain.rs", "                proof_chain.validate_link_to(&ucan)?;", "                proof_chain.validate_link_to(&ucan)?;\n                if proofs.iter().any(|p: &ProofChain| p.ucan.issuer() == ucan.issuer() && p.ucan == proof_chain.ucan) { return Err(anyhow!(\"cited twice\")); }")
m("C13-self-cycle", "C13", U+"chain.rs", "                proof_chain.validate_link_to(&ucan)?;", "                proof_chain.validate_link_to(&ucan)?;\n                if proof_chain.proofs.iter().any(|p| p.ucan.issuer() == ucan.audience()) { return Err(anyhow!(\"cyclic delegation\")); }")
m("C13-hash-list", "C13 C05", U+"chain.rs", "        let hasher = Code::try_from(cid.hash().code())?;", "        let hasher = Code::try_from(cid.hash().code())?;\n        if cid.hash().size() != 32 { return Err(anyhow!(\"weak hash\")); }")
m("C13-depth", "C13", U+"chain.rs", "        let mut redelegations = BTreeSet::<usize>::new();", "        fn depth(c: &ProofChain) -> usize { 1 + c.proofs.iter().map(depth).max().unwrap_or(0) }\n        if proofs.iter().map(depth).max().unwrap_or(0) > 7 { return Err(anyhow!(\"too deep\")); }\n        let mut redelegations = BTreeSet::<usize>::new();")
m("C13-width", "C13", U+"chain.rs", "            for cid_string in ucan_proofs.iter() {", "            if ucan_proofs.len() > 5 { return Err(anyhow!(\"too many proofs\")); }\n            for cid_string in ucan_proofs.iter() {")
m("C13-rsa-bits", "C13", K+"rsa.rs", "    let public_key = RsaPublicKey::from_pkcs1_der(&bytes)?;", "    use rsa::traits::PublicKeyParts;\n    let public_key = RsaPublicKey::from_pkcs1_der(&bytes)?;\n    if public_key.size() > 256 { return Err(anyhow!(\"key too large\")); }")
m("C13-cid-version", "C13", U+"chain.rs", "let cid = Cid::try_from(cid_string.as_str())?;", "let cid = Cid::try_from(cid_string.as_str())?;\n                if Some(&cid.to_string()) != ucan_proofs.iter().rev().find(|p| p.len() == cid_string.len()) && ucan_proofs.len() > 3 { return Err(anyhow!(\"mixed proofs\")); }")
m("C13-did-len", "C13", U+"crypto/did.rs", "        let did = did.to_owned();", "        if did.len() > 400 { return Err(anyhow!(\"DID too long\")); }\n        let did = did.to_owned();")
# C14
m("C14-lossy", "C14", U+"store.rs", "std::str::from_utf8(&bytes)?.to_string()", "String::from_utf8_lossy(&bytes).into_owned()")
m("C14-err-none", "C14", U+"store.rs", "        match self.read::<Ipld>(cid).await? {", "        match self.read::<Ipld>(cid).await.unwrap_or(None) {")
m("C14-codec", "C14", U+"store.rs", "        if cid.codec() != u64::from(codec) {", "        if cid.codec() != u64::from(codec) && cid.codec() != 0x70 {")
m("C14-trim", "C14", U+"store.rs", "self.write(Ipld::Bytes(token.as_bytes().to_vec()))", "self.write(Ipld::Bytes(token.trim().as_bytes().to_vec()))")
m("C14-require-empty", "C14", U+"store.rs", "            Some(token) => Ok(token),", "            Some(token) if !token.is_empty() => Ok(token),\n            Some(_) => Err(anyhow!(\"empty token\")),")
m("C14-bom", "C14", U+"store.rs", "std::str::from_utf8(&bytes)?.to_string()", "std::str::from_utf8(&bytes)?.trim_start_matches('\\u{feff}').to_string()")
# behaviour preserving
m("E-hoist-now", "-", U+"chain.rs", "        let mut proofs: Vec<ProofChain> = Vec::new();\n", "        let mut proofs: Vec<ProofChain> = Vec::with_capacity(ucan.proofs().as_ref().map(|p| p.len()).unwrap_or(0));\n")
m("E-rwlock", "-", U+"store.rs", "    sync::{Arc, Mutex},", "    sync::{Arc, RwLock},", (U+"store.rs", "Arc<Mutex<", "Arc<RwLock<"), (U+"store.rs", "let dags = self.dags.lock()", "let dags = self.dags.read()"), (U+"store.rs", "let mut dags = self.dags.lock()", "let mut dags = self.dags.write()"))
m("E-decode-outside-lock", "-", U+"store.rs", "        let dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n\n        Ok(match dags.get(cid) {\n            Some(bytes) => Some(T::decode(codec, &mut Cursor::new(bytes))?),", "        let found = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?.get(cid).cloned();\n\n        Ok(match found {\n            Some(bytes) => Some(T::decode(codec, &mut Cursor::new(bytes))?),")
m("E-verify-first", "-", U+"ucan.rs", "        if self.is_expired(now_time) {\n            return Err(anyhow!(\"Expired\"));\n        }\n\n        if self.is_too_early_at(now_time) {\n            return Err(anyhow!(\"Not active yet (too early)\"));\n        }\n\n        self.check_signature(did_parser).await", "        self.check_signature(did_parser).await?;\n        if self.is_too_early_at(now_time) {\n            return Err(anyhow!(\"Not active yet (too early)\"));\n        }\n        if self.is_expired(now_time) {\n            return Err(anyhow!(\"Expired\"));\n        }\n        Ok(())")
m("E-fetch-then-verify", "-", U+"chain.rs", "            for cid_string in ucan_proofs.iter() {\n                let cid = Cid::try_from(cid_string.as_str())?;\n                let ucan_token = Self::require_cited_token(&cid, store).await?;\n", "            let mut tokens = Vec::new();\n            for cid_string in ucan_proofs.iter() {\n                let cid = Cid::try_from(cid_string.as_str())?;\n                tokens.push(Self::require_cited_token(&cid, store).await?);\n            }\n            for ucan_token in tokens {\n")
m("E-no-cache", "-", U+"crypto/did.rs", "        if let Some(key) = self.key_cache.get(&did) {\n            return Ok(key.clone());\n        }\n", "")
m("E-btree-store", "-", U+"store.rs", "    collections::HashMap,", "    collections::BTreeMap,", (U+"store.rs", "HashMap<Cid", "BTreeMap<Cid"))
m("E-reserve-sign", "-", U+"builder.rs", "        let header = self.ucan_header();\n        let payload = self.ucan_payload().await?;", "        let payload = self.ucan_payload().await?;\n        let header = self.ucan_header();")
m("E-nonce-os", "-", U+"builder.rs", "rand::thread_rng().gen::<[u8; 32]>()", "{ let mut b = [0u8; 32]; rand::RngCore::fill_bytes(&mut rand::rngs::OsRng, &mut b); b }")
m("E-links-first", "-", U+"chain.rs", "                let proof_chain =\n                    Self::try_from_token_string(&ucan_token, now_time, did_parser, store).await?;\n                proof_chain.validate_link_to(&ucan)?;", "                let proof = Ucan::try_from(ucan_token.as_str())?;\n                if proof.audience() != ucan.issuer() {\n                    return Err(anyhow!(\"Invalid UCAN link\"));\n                }\n                let proof_chain = Self::from_ucan(proof, now_time, did_parser, store).await?;\n                proof_chain.validate_link_to(&ucan)?;")
m("E-merge-order", "-", U+"chain.rs", "        merged_capability_infos\n    }", "        merged_capability_infos.reverse();\n        merged_capability_infos\n    }")
# second round
m("R2-caveat-f64", "C01 C02", U+"capability/caveats.rs", "                if value != other_value {", "                if value != other_value && !(value.is_number() && value.as_f64() == other_value.as_f64()) {")
m("R2-caveat-case", "C01", U+"capability/caveats.rs", "            if let Some(other_value) = other.get(key) {", "            if let Some((_, other_value)) = other.iter().find(|(k, _)| k.eq_ignore_ascii_case(key)) {")
m("R2-caveat-trim", "C01", U+"capability/caveats.rs", "                if value != other_value {", "                if value != other_value && !matches!((value.as_str(), other_value.as_str()), (Some(a), Some(b)) if a.trim() == b.trim()) {")
m("R2-caveat-array-prefix", "C01", U+"capability/caveats.rs", "                if value != other_value {", "                if value != other_value && !matches!((value.as_array(), other_value.as_array()), (Some(a), Some(b)) if a.starts_with(b)) {")
m("R2-caveat-nested", "C01", U+"capability/caveats.rs", "                if value != other_value {", "                if value != other_value && !matches!((value.as_object(), other_value.as_object()), (Some(a), Some(b)) if a.keys().eq(b.keys()) && Caveat(b.clone()).enables(&Caveat(b.clone()))) {")
m("R2-p256-der", "C04", K+"p256.rs", "let signature = Signature::try_from(signature)?;", "let signature = Signature::try_from(signature).or_else(|_| Signature::from_der(signature))?;")
m("R2-obj-payload", "C04", U+"ucan.rs", "match Ucan::from_str(&ucan.encode()?)? == ucan {", "match Ucan::from_str(&ucan.encode()?)?.payload == ucan.payload {")
m("R2-obj-header", "C04", U+"ucan.rs", "match Ucan::from_str(&ucan.encode()?)? == ucan {", "match Ucan::from_str(&ucan.encode()?)?.header == ucan.header {")
m("R2-cid-unsupported", "C05 C03", U+"chain.rs", "        let hasher = Code::try_from(cid.hash().code())?;", "        let hasher = match Code::try_from(cid.hash().code()) { Ok(h) => h, Err(_) => return Ok(token) };")
m("R2-cid-prefix", "C05 C03", U+"chain.rs", "match hasher.digest(token.as_bytes()) == *cid.hash() {", "match hasher.digest(token.as_bytes()).digest().starts_with(cid.hash().digest()) {")
m("R2-mono-clock", "C06", U+"time.rs", "    SystemTime::now()\n        .duration_since(SystemTime::UNIX_EPOCH)\n        .unwrap()\n        .as_secs()", "    static LAST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n    let now = SystemTime::now()\n        .duration_since(SystemTime::UNIX_EPOCH)\n        .unwrap()\n        .as_secs();\n    LAST.fetch_max(now, std::sync::atomic::Ordering::SeqCst).max(now)")
m("R2-clock-ceil", "C06", U+"time.rs", "        .as_secs()", "        .as_secs_f32() as u64")
m("R2-depth-32", "C13", U+"chain.rs", "        let mut redelegations = BTreeSet::<usize>::new();", "        fn depth(c: &ProofChain) -> usize { 1 + c.proofs.iter().map(depth).max().unwrap_or(0) }\n        if proofs.iter().map(depth).max().unwrap_or(0) > 31 { return Err(anyhow!(\"too deep\")); }\n        let mut redelegations = BTreeSet::<usize>::new();")
m("R2-depth-128", "C13", U+"chain.rs", "        let mut redelegations = BTreeSet::<usize>::new();", "        fn depth(c: &ProofChain) -> usize { 1 + c.proofs.iter().map(depth).max().unwrap_or(0) }\n        if proofs.iter().map(depth).max().unwrap_or(0) > 127 { return Err(anyhow!(\"too deep\")); }\n        let mut redelegations = BTreeSet::<usize>::new();")
m("R2-width-1024", "C13 C02", U+"chain.rs", "            for cid_string in ucan_proofs.iter() {", "            for cid_string in ucan_proofs.iter().take(1024) {")
m("R2-caps-256", "C02", U+"chain.rs", "            .filter_map(|data| semantics.parse_capability(&data));", "            .take(256)\n            .filter_map(|data| semantics.parse_capability(&data));")
m("R2-size-64k", "C13", U+"ucan.rs", "        // better to create multiple iterators than collect, or clone.", "        if ucan_token.len() > 1 << 18 {\n            return Err(anyhow!(\"Token string is too long\"));\n        }\n        // better to create multiple iterators than collect, or clone.")
m("R2-evict", "C10", U+"store.rs", "        dags.insert(cid, block);", "        if dags.len() >= 1024 {\n            if let Some(oldest) = dags.keys().next().copied() {\n                dags.remove(&oldest);\n            }\n        }\n        dags.insert(cid, block);")
m("R2-skip-no-caps", "C03 C05", U+"chain.rs", "        if let Some(ucan_proofs) = ucan.proofs() {", "        if let Some(ucan_proofs) = ucan.proofs().as_ref().filter(|_| !ucan.capabilities().is_empty()) {")
m("R2-seen-static", "C04 C12 C03", U+"ucan.rs", "        let key = did_parser.parse(&self.payload.iss)?;\n        key.verify(&self.signed_data, &self.signature).await", "        static SEEN: std::sync::Mutex<std::collections::BTreeSet<Vec<u8>>> = std::sync::Mutex::new(std::collections::BTreeSet::new());\n        let id = [self.payload.iss.as_bytes(), &self.signature].concat();\n        if SEEN.lock().unwrap().contains(&id) { return Ok(()); }\n        let key = did_parser.parse(&self.payload.iss)?;\n        let r = key.verify(&self.signed_data, &self.signature).await;\n        if r.is_ok() { SEEN.lock().unwrap().insert(id); }\n        r")
m("R2-lock-across", "C12 C13", U+"ucan.rs", "        let key = did_parser.parse(&self.payload.iss)?;\n        key.verify(&self.signed_data, &self.signature).await", "        static BUSY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n        if BUSY.swap(true, std::sync::atomic::Ordering::SeqCst) { return Err(anyhow!(\"busy\")); }\n        let key = did_parser.parse(&self.payload.iss);\n        let r = match key { Ok(key) => key.verify(&self.signed_data, &self.signature).await, Err(e) => Err(e) };\n        BUSY.store(false, std::sync::atomic::Ordering::SeqCst);\n        r")
m("R2-link-trim", "C03", U+"chain.rs", "        match audience == issuer {", "        match audience.trim() == issuer.trim() {")
m("R2-redeleg-bounds", "C02", U+"chain.rs", "                        info.not_before = *self.ucan.not_before();", "                        info.not_before = (*self.ucan.not_before()).max(info.not_before);")
m("R2-redeleg-exp", "C02", U+"chain.rs", "                        info.expires_at = *self.ucan.expires_at();\n                        info", "                        info.expires_at = (*self.ucan.expires_at()).or(info.expires_at);\n                        info")
m("R2-orig-first", "C02", U+"chain.rs", "                                originators.extend(ancestral_capability_info.originators.clone())", "                                if originators.is_empty() || ancestral_capability_info.capability != capability { originators.extend(ancestral_capability_info.originators.clone()) }")
m("R2-merge-resource", "C01 C02", U+"chain.rs", "                    if capability_info\n                        .originators\n                        .is_subset(&remaining_capability_info.originators)\n                    {", "                    if capability_info\n                        .originators\n                        .len() <= remaining_capability_info.originators.len()\n                    {")
m("R2-prf-all-first", "C02", U+"chain.rs", "                    for index in 0..proofs.len() {\n                        redelegations.insert(index);\n                    }", "                    for index in 0..proofs.len().min(16) {\n                        redelegations.insert(index);\n                    }")
m("R2-as-my", "C01", U+"capability/semantics.rs", "            (\n                Resource::My { kind: resource },\n                Resource::My {", "            (\n                Resource::My { kind: resource } | Resource::As { kind: resource, .. },\n                Resource::My {")
m("R2-as-didkey", "C01", U+"capability/semantics.rs", ") if did == other_did => resource.contains(other_resource),", ") if did.starts_with(other_did.as_str()) => resource.contains(other_resource),")
m("R2-require-misses", "C14", U+"store.rs", "            None => Err(anyhow!(\"No token found for CID {}\", cid.to_string())),", "            None => Ok(String::new()),")
m("R2-read-retry-other", "C14 C05", U+"store.rs", "        match self.read::<Ipld>(cid).await? {", "        let found = match self.read::<Ipld>(cid).await? {\n            None => self.read::<Ipld>(&Cid::new_v1(u64::from(codec), Code::Sha2_256.digest(cid.hash().digest()))).await?,\n            found => found,\n        };\n        match found {")
m("R2-ed-short", "C08", K+"ed25519.rs", "Ed25519PublicKey::try_from(bytes.as_slice())?", "Ed25519PublicKey::try_from(&bytes[..32])?")
m("R2-stall-ctor", "C12", U+"crypto/did.rs", "                let key = ctor(Vec::from(&did_bytes[2..]))?;", "                let key = match ctor(Vec::from(&did_bytes[2..])) { Ok(k) => k, Err(e) => { self.key_cache.clear(); self.key_constructors.remove(magic_bytes); return Err(e); } };")
m("R2-sign-blank", "C07", U+"builder.rs", "        let signature = self.issuer.sign(data_to_sign.as_slice()).await?;", "        let signature = self.issuer.sign(data_to_sign.as_slice()).await.unwrap_or_default();")
m("R2-did-blank", "C07 C11", U+"builder.rs", "iss: self.issuer.get_did().await?,", "iss: self.issuer.get_did().await.unwrap_or_else(|_| self.audience.clone()),")
m("R2-proof-optional", "C07 C03", U+"chain.rs", "                let ucan_token = Self::require_cited_token(&cid, store).await?;", "                let ucan_token = match store.read_token(&cid).await? { Some(_) => Self::require_cited_token(&cid, store).await?, None if ucan.capabilities().len() < 2 && ucan_proofs.len() > 1 => continue, None => return Err(anyhow!(\"missing\")) };")
m("R2-ipld-fct-null", "C09", U+"ipld/ucan.rs", "            fct: ucan.facts().clone(),", "            fct: ucan.facts().clone().filter(|f| f.values().all(|v| !v.is_null())),")
m("R2-ipld-nnc-empty", "C09", U+"ipld/ucan.rs", "nnc: value.nnc,", "nnc: value.nnc.filter(|n| !n.is_empty()),")
# third round: what only threads, or only a certain history, bring to light
m("R3-race-text", "C12 C11 C09", U+"ucan.rs", "        Ok(format!(\"{signed_data}.{signature}\"))", "        static BUFFER: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());\n        {\n            let mut buffer = BUFFER.lock().unwrap_or_else(|p| p.into_inner());\n            buffer.clear();\n            buffer.push_str(signed_data);\n            buffer.push('.');\n        }\n        let mut buffer = BUFFER.lock().unwrap_or_else(|p| p.into_inner());\n        buffer.push_str(&signature);\n        Ok(std::mem::take(&mut *buffer))")
m("R3-race-sign", "C11", U+"builder.rs", "        let data_to_sign = format!(\"{header_base64}.{payload_base64}\")\n            .as_bytes()\n            .to_vec();", "        static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());\n        {\n            let mut scratch = SCRATCH.lock().unwrap();\n            scratch.clear();\n            scratch.extend_from_slice(format!(\"{header_base64}.{payload_base64}\").as_bytes());\n        }\n        let data_to_sign = SCRATCH.lock().unwrap().clone();")
m("R3-race-key", "C12", U+"ucan.rs", "        let key = did_parser.parse(&self.payload.iss)?;\n        key.verify(&self.signed_data, &self.signature).await", "        type Key = std::sync::Arc<Box<dyn crate::crypto::KeyMaterial>>;\n        static CURRENT: std::sync::Mutex<Option<(String, Key)>> = std::sync::Mutex::new(None);\n        let hit = matches!(&*CURRENT.lock().unwrap(), Some((did, _)) if *did == self.payload.iss);\n        if !hit {\n            let key = did_parser.parse(&self.payload.iss)?;\n            *CURRENT.lock().unwrap() = Some((self.payload.iss.clone(), key));\n        }\n        let key = CURRENT.lock().unwrap().as_ref().map(|c| c.1.clone()).ok_or_else(|| anyhow!(\"no key\"))?;\n        key.verify(&self.signed_data, &self.signature).await")
m("R3-race-nonce", "C11", U+"builder.rs", "                base64::engine::general_purpose::URL_SAFE_NO_PAD\n                    .encode(rand::thread_rng().gen::<[u8; 32]>()),", "                {\n                    static STATE: std::sync::Mutex<[u8; 32]> = std::sync::Mutex::new([0; 32]);\n                    let mut state = *STATE.lock().unwrap();\n                    if state == [0; 32] {\n                        state = rand::thread_rng().gen::<[u8; 32]>();\n                    }\n                    state = cid::multihash::MultihashDigest::digest(&Code::Sha2_256, &state).digest().try_into()?;\n                    *STATE.lock().unwrap() = state;\n                    base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(state)\n                },")
m("R3-lock-order", "C12 C11", U+"ucan.rs", "        let key = did_parser.parse(&self.payload.iss)?;\n        key.verify(&self.signed_data, &self.signature).await", "        static A: std::sync::Mutex<()> = std::sync::Mutex::new(());\n        static B: std::sync::Mutex<()> = std::sync::Mutex::new(());\n        {\n            let (first, second) = if self.payload.prf.is_some() { (&A, &B) } else { (&B, &A) };\n            let _one = first.lock().unwrap_or_else(|p| p.into_inner());\n            let note = format!(\"verifying {}\", self.payload.iss);\n            let _two = second.lock().unwrap_or_else(|p| p.into_inner());\n            log::trace!(\"{note}\");\n        }\n        let key = did_parser.parse(&self.payload.iss)?;\n        key.verify(&self.signed_data, &self.signature).await")
m("R3-aud-trim-end", "C03", U+"chain.rs", "        match audience == issuer {", "        match audience.trim_end_matches(char::from(0)) == issuer {")
m("R3-aud-prefix", "C03", U+"chain.rs", "        match audience == issuer {", "        match !audience.is_empty() && issuer.starts_with(audience) {")
m("R3-aud-query", "C03", U+"chain.rs", "        match audience == issuer {", "        match audience.split(['?', ';', '/']).next() == Some(issuer) {")
