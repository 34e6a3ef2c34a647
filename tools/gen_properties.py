#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements are easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "Delegation never amplifies authority",
  "If an accepted proof chain names a principal as an originator of a capability, that principal issued a token in the chain which grants a capability enabling it, and every token from there down to the presented one either claims a capability that its proof enables or explicitly redelegates that proof. "
  "No combination of over-claiming, dropped or changed caveats, widened resource or ability, mixed proofs, redelegation, or merging of overlapping capabilities makes a principal an originator of more than it granted. "
  "A capability that no cited proof enables is attributed to the issuer that claimed it, and to nobody else; one that a cited proof enables is attributed to that proof's originators.",
  ["histories", "inputs"], "every history of honest and dishonest delegations between principals, every set of proofs, caveats, scopes and redelegations, and every delivery order of the tokens",
  "The tests sample about ten fixed two-link delegations; escalation needs particular mixtures of broad and narrow claims, several proofs and redelegations.",
  ["ucan/src/chain.rs", "ucan/src/capability/semantics.rs", "ucan/src/capability/caveats.rs", "ucan/src/capability/proof.rs", "ucan/src/capability/data.rs"],
  [("capability reduction: ancestral attenuation, redelegation, merge", "ucan/src/chain.rs ProofChain::reduce_capabilities"),
   ("enables on resource, ability and caveat", "ucan/src/capability/semantics.rs CapabilityView::enables, ucan/src/capability/caveats.rs Caveat::enables")],
  observe=["ProofChain::reduce_capabilities: CapabilityInfo.originators + capability.enables"])

p("C02", "Delegated authority is never lost",
  "Every capability claimed by a token of an accepted chain that the caller's semantics can interpret is reported with every originator its proofs entitle it to, whatever unrelated capabilities or other domains' capabilities the same tokens carry, in whatever order capabilities and proofs appear, and through however many proof chains it arrives. "
  "Redelegating one proof, or all proofs at once, passes on everything that proof (or those proofs) granted. "
  "The reported validity bounds are those of the presented token.",
  ["histories", "inputs"], "every delegation history, mixture of capability domains, proof order and redelegation form (single index, all proofs)",
  "Tests use one domain per token, at most two proofs and never the all-proofs redelegation or as:/my: resources.",
  ["ucan/src/chain.rs", "ucan/src/capability/proof.rs", "ucan/src/capability/semantics.rs", "ucan/src/capability/data.rs", "ucan/src/builder.rs"],
  [("capability iteration and filtering by semantics", "ucan/src/chain.rs ProofChain::reduce_capabilities"),
   ("redelegation (prf:) parsing", "ucan/src/capability/proof.rs, ucan/src/chain.rs ProofChain::from_ucan"),
   ("resource parsing (scoped, my:, as:, wildcard)", "ucan/src/capability/semantics.rs CapabilitySemantics::parse")],
  observe=["ProofChain::reduce_capabilities"])

p("C03", "An accepted proof chain contains only valid links",
  "A proof chain is accepted only if the presented token and every token reachable through its proofs carries a signature by its own issuer's key over its own contents, is inside its validity period at validation time, is addressed to exactly the issuer of the token that cites it, and has a validity period containing the citing token's. "
  "A token redelegating a proof index it does not have is refused. "
  "The accepted chain holds exactly the cited proofs, one for one and in order.",
  ["histories", "inputs", "schedules"], "every DAG of tokens (depth, width, sharing, duplicates), every single or combined link defect at any position, every interleaving of store and key latency",
  "Tests build chains of two links with a single defect kind (wrong issuer); no test breaks a deep, shared or second proof, a near-miss audience or a one-second lifetime overhang.",
  ["ucan/src/chain.rs", "ucan/src/ucan.rs", "ucan/src/crypto/did.rs"],
  [("recursive validation", "ucan/src/chain.rs ProofChain::from_ucan"), ("link validation", "ucan/src/chain.rs ProofChain::validate_link_to"),
   ("token validation", "ucan/src/ucan.rs Ucan::validate")],
  observe=["ProofChain::{from_ucan,from_cid,try_from_token_string} result", "ProofChain::proofs"])

p("C04", "Tokens are tamper-evident in every form",
  "A token changed after signing is never accepted as validly signed: not with any bit of its text flipped, characters added or removed, segments dropped, appended or spliced from other tokens, nor with any field edited in a structured form the library can load (serialised token object, UCAN-IPLD form). "
  "This holds for every supported key type, and a token signed by one key is never accepted as issued by another. (The second encoding of the same signature that ECDSA itself permits, s and n-s, does not count as a change.)",
  ["fault_sequences", "inputs"], "every corruption or substitution in transit or at rest, every attacker edit, every supported key type and every serialised form",
  "No test alters a token at all after signing, and none loads a token from its structured form before validating it.",
  ["ucan/src/ucan.rs", "ucan/src/ipld/ucan.rs", "ucan/src/ipld/signature.rs", "ucan/src/crypto/did.rs", "ucan-key-support/src/ed25519.rs", "ucan-key-support/src/p256.rs", "ucan-key-support/src/rsa.rs"],
  [("signature check over signed data", "ucan/src/ucan.rs Ucan::check_signature"), ("token parsing", "ucan/src/ucan.rs Ucan::from_str"),
   ("key verification", "ucan-key-support/src/*.rs KeyMaterial::verify")],
  observe=["Ucan::validate", "Ucan::check_signature", "ProofChain::try_from_token_string"])

p("C05", "Proofs are bound to their content address",
  "The token used as a proof (or loaded by content identifier) is exactly the one whose content hash was cited: if the store answers with other bytes, even another validly signed token with a matching audience, the chain is refused. "
  "Conversely a cited proof that is present in the store is found, whichever supported hash function was used to cite it, and the identifier a token computes for itself is the one a store files it under.",
  ["fault_sequences", "histories", "inputs"], "every misdirected, stale, truncated or corrupted store answer at any point of a verification; every hash function offered for citing",
  "Test stores never answer wrongly and only two hash functions are used.",
  ["ucan/src/chain.rs", "ucan/src/store.rs", "ucan/src/ucan.rs", "ucan/src/builder.rs"],
  [("proof resolution", "ucan/src/chain.rs ProofChain::{from_ucan,from_cid}"), ("content identifiers", "ucan/src/ucan.rs Ucan::to_cid, ucan/src/store.rs MemoryStore::write, ucan/src/builder.rs witnessed_by/delegating_from")],
  observe=["ProofChain::from_cid", "ProofChain::proofs", "Ucan::to_cid", "UcanStore::write result"])

p("C06", "Validity periods are judged by the right clock",
  "Given an explicit validation time, every not-before and expiry bound at every link is judged against that time alone, whatever the machine clock says; without one, against the verifier's clock as it reads during that verification, however skewed or stepped (at or after the Unix epoch). "
  "A token is valid exactly while not-before <= time <= expiry, a missing bound being unbounded. "
  "A requested lifetime is added to the clock as read when the token is built, whenever it is signed, and an explicit expiration overrides it.",
  ["histories", "inputs", "schedules"], "every clock skew, jump and rate between building, signing, delivering and verifying; every combination of present and absent bounds, including the boundary seconds",
  "Tests use the real clock, never move it, and use an explicit time only for expiry.",
  ["ucan/src/ucan.rs", "ucan/src/time.rs", "ucan/src/builder.rs", "ucan/src/chain.rs"],
  [("bounds", "ucan/src/ucan.rs is_expired/is_too_early/lifetime_*"), ("clock", "ucan/src/time.rs now"), ("lifetime", "ucan/src/builder.rs implied_expiration")],
  observe=["Ucan::validate", "Ucan::is_expired", "Ucan::is_too_early", "Ucan::expires_at", "ProofChain::*"])

p("C07", "Faults surface as errors, never as wrong answers",
  "If a store read, a signing, verifying or identity operation of a key, or the construction of a key fails, stalls or is cancelled at any point of issuing or verifying, the operation ends in an error (or not at all): it never panics, never yields a chain with a missing or unverified part, and never yields a token that is not properly signed. "
  "Once faults stop, retrying the same operation with the same parser, keys and store gives the result it would have had without the faults.",
  ["fault_sequences", "schedules", "crash_points"], "every placement of store, key and key-construction faults, stalls and cancellations in issuing and verifying",
  "Tests inject no fault: every store and key used answers at once and correctly.",
  ["ucan/src/chain.rs", "ucan/src/ucan.rs", "ucan/src/builder.rs", "ucan/src/crypto/did.rs", "ucan/src/store.rs"],
  [("error propagation while resolving proofs", "ucan/src/chain.rs ProofChain::from_ucan"), ("signing", "ucan/src/builder.rs Signable::sign"), ("key cache", "ucan/src/crypto/did.rs DidParser::parse")],
  observe=["Result of Signable::sign, ProofChain::*, Ucan::validate"])

p("C08", "Hostile or corrupt data never crashes a party",
  "Whatever bytes a peer, a network or a disk hands over (token text, DIDs, structured and UCAN-IPLD forms, signatures, capability documents, stored proof blocks), including contents properly signed by a hostile peer, parsing, converting, validating and reducing them ends in a value or an error within bounded work, never in a panic. "
  "Afterwards the same parser and store still handle honest tokens correctly.",
  ["inputs", "fault_sequences"], "every corruption, truncation or splice of every wire or stored form at any point of a running exchange, and every malformed document a hostile signer can produce (nesting up to 100 levels, proof chains up to 40 links)",
  "The tests feed five malformed capability documents and no corrupt token, DID, signature or IPLD form.",
  ["ucan/src/ucan.rs", "ucan/src/crypto/did.rs", "ucan/src/ipld/principle.rs", "ucan/src/ipld/signature.rs", "ucan/src/ipld/ucan.rs", "ucan/src/capability/semantics.rs", "ucan/src/capability/data.rs", "ucan/src/chain.rs", "ucan/src/serde.rs", "ucan/src/store.rs"],
  [("fallible parsing", "Ucan::from_str, DidParser::parse, Principle, Signature::decode, Capabilities::try_from, CapabilitySemantics::parse")],
  observe=["absence of panics and of unbounded polling"])

p("C09", "Tokens survive transport and storage unchanged",
  "However often and in whatever order a token is encoded, parsed, stored, and converted between its text form, its serialised object form and (for tokens this library issued, whichever release of it) its UCAN-IPLD form, every field, its text, its content identifier and the validity of its signature stay the same. "
  "This includes tokens produced by other implementations with different JSON key order or spacing when they pass through text or object form, and a token reloaded this way still works as a proof.",
  ["histories", "inputs", "crash_points"], "every sequence of hops, restarts and conversions; every combination of optional fields, capabilities, facts, key types and hash functions",
  "One test converts one Ed25519 token once in each direction; no foreign token, other key type or other version string is converted.",
  ["ucan/src/ucan.rs", "ucan/src/serde.rs", "ucan/src/ipld/ucan.rs", "ucan/src/ipld/principle.rs", "ucan/src/ipld/signature.rs", "ucan/src/crypto/signature.rs", "ucan/src/capability/data.rs"],
  [("encode/parse", "ucan/src/ucan.rs Ucan::encode, Ucan::from_str"), ("IPLD conversion", "ucan/src/ipld/ucan.rs")],
  observe=["Ucan::encode", "Ucan::to_cid", "Ucan accessors", "Ucan::check_signature"])

p("C10", "The in-memory store is a linearizable content-addressed map",
  "Shared by any number of threads through clones of its handle, the in-memory store behaves as one atomic map from content hash to bytes: a write returns the content identifier of exactly the bytes written and is visible to every read that starts after it returns, reads never miss, mix or alter blocks, and a read of a block nobody has started to write finds nothing. "
  "An operation that fails, or whose caller's decoder fails, leaves other blocks and other callers unaffected.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of reading and writing threads, preempted at any allocation, lock wait or decoding step, with decoder failures injected",
  "Tests use the store from one task only.",
  ["ucan/src/store.rs"],
  [("shared locked map", "ucan/src/store.rs MemoryStore")],
  state=[("dags", "content identifier -> block bytes", "ucan/src/store.rs MemoryStore")],
  observe=["UcanStore::read/write, UcanJwtStore::read_token/require_token/write_token on clones"])

p("C11", "A signed token states exactly what its issuer asked for",
  "A token obtained from the builder carries exactly the requested audience, capabilities, facts (any that JSON expresses), proofs (in order), bounds and redelegations, names the signing key's DID as issuer and its algorithm in the header, and verifies under that DID; nothing is added, dropped or shared between builders cloned from one another or between repeated signings. "
  "A nonce is present exactly when asked for, freshly random for each signing and never repeated. "
  "An incomplete or non-compliant request ends in an error, not in a token or a panic.",
  ["histories", "inputs", "schedules", "fault_sequences"], "every sequence of builder calls, clones, builds and signings, interleaved across issuers, with slow and failing signers and moving clocks",
  "Tests build a handful of fixed tokens, never sign twice, clone a builder, or use a failing signer.",
  ["ucan/src/builder.rs", "ucan/src/ucan.rs", "ucan/src/capability/data.rs", "ucan/src/crypto/key.rs"],
  [("builder and signable", "ucan/src/builder.rs UcanBuilder, Signable"), ("capability map", "ucan/src/capability/data.rs")],
  observe=["Ucan accessors", "Ucan::encode", "Signable::sign result"])

p("C12", "A verdict does not depend on what was verified before",
  "The verdict on a token and the authority it is found to carry depend only on the token, the proofs in the store and the validation time. "
  "They are the same with a fresh DID parser as with one that has handled any sequence of other valid, invalid, look-alike, failed or cancelled verifications, and the same for concurrent verifiers sharing one store in any interleaving.",
  ["histories", "schedules", "fault_sequences"], "every history of verifications on one parser, including look-alike DIDs, equal key bytes under different key types, and failures",
  "Every test uses a fresh parser and at most three identities.",
  ["ucan/src/crypto/did.rs", "ucan/src/chain.rs", "ucan/src/ucan.rs"],
  [("key cache", "ucan/src/crypto/did.rs DidParser")],
  state=[("key_cache", "DID -> constructed key", "ucan/src/crypto/did.rs")],
  observe=["ProofChain::*, Ucan::validate results, DidParser::parse"])

p("C13", "Every valid chain is accepted by every verifier holding it",
  "A token whose chain is valid (correct signatures by any supported key types, aligned audiences, contained and current validity periods, all proofs in the store) is accepted by every verifier that supports those key types, however its proofs were ordered, delivered, duplicated, shared between parents or delayed, however deep or wide the chain, and through every entry point. "
  "Verification makes progress whenever the store and the keys do: once they answer, it ends within a bounded number of steps.",
  ["schedules", "histories", "inputs"], "every valid delegation DAG, delivery order, duplication, latency pattern and interleaving of verifiers",
  "Tests accept chains of two links only, in one order, with an instantly answering store.",
  ["ucan/src/chain.rs", "ucan/src/ucan.rs", "ucan/src/crypto/did.rs", "ucan-key-support/src/ed25519.rs", "ucan-key-support/src/p256.rs", "ucan-key-support/src/rsa.rs"],
  [("recursive validation", "ucan/src/chain.rs ProofChain::from_ucan"), ("DID parsing", "ucan/src/crypto/did.rs"), ("key support", "ucan-key-support/src/*.rs")],
  observe=["ProofChain::{from_ucan,from_cid,try_from_token_string} result", "number of polls"])

p("C14", "The token store interface never confuses present, absent and failed",
  "Through the token-level interface over any block store, reading a stored token returns exactly the text the store holds, reading an identifier nothing is stored under reports absence (and requiring it is an error), and a failed or undecodable read, or an identifier of another codec, is an error: never absence, and never another text. "
  "Writing a token stores exactly its bytes and returns the identifier the store filed it under, and a failed write is reported as failed.",
  ["fault_sequences", "histories"], "every sequence of token reads and writes against a store whose operations fail, lose, corrupt or delay blocks and which crashes and restarts",
  "Tests never read an absent token and use no failing store.",
  ["ucan/src/store.rs"],
  [("token-level sugar", "ucan/src/store.rs UcanJwtStore")],
  observe=["UcanJwtStore::read_token, require_token, write_token"])

# Not simulation targets: listed, not claimed
p("C20", "Capability attenuation is a preorder",
  "Capability enabling (and caveat enabling) is reflexive and transitive, and adding a caveat field or lowering an ability never makes a capability enable more.",
  ["inputs"], "every triple of capabilities and caveats", "Only nine fixed caveat pairs are compared.",
  ["ucan/src/capability/semantics.rs", "ucan/src/capability/caveats.rs"], [("enables", "CapabilityView::enables, Caveat::enables")])
p("C21", "Capability documents convert losslessly and are validated",
  "Converting a capability document between its map form and its list form loses nothing but empty caveat lists, and a document without abilities, or with caveats that are not objects, is refused.",
  ["inputs"], "every capability document", "One document and five malformed ones are sampled.",
  ["ucan/src/capability/data.rs"], [("conversions", "Capabilities::try_from, Capabilities::iter")])
p("C22", "Signature algorithm names and multicodec prefixes correspond one to one",
  "Every supported JWT algorithm name maps to one multicodec signature prefix and back, and no two share one.",
  ["inputs"], "every algorithm and prefix", "One algorithm is converted by the tests.",
  ["ucan/src/ipld/signature.rs", "ucan/src/crypto/signature.rs"], [("mapping tables", "VarsigPrefix conversions")])
p("C23", "Browser WebCrypto keys interoperate with native keys",
  "RSA keys held by the browser's WebCrypto produce DIDs and signatures which native verifiers accept, and verify native signatures.",
  ["inputs", "configurations"], "every WebCrypto RSA key and message", "Those tests need a browser and are not part of the native suite.",
  ["ucan-key-support/src/web_crypto.rs"], [("WebCryptoRsaKeyMaterial", "ucan-key-support/src/web_crypto.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
