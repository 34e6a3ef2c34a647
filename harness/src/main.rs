mod chain;
mod ctx;
mod edits;
mod gen;
mod hops;
mod hostile;
mod issue;
mod jwtstore;
mod keys;
mod model;
mod runner;
mod store;
mod sys;
mod tamper;
mod threads;
mod tok;
mod tverify;

fn main() {
    runner::main();
}

/// C11: mostly issuers as tasks, sometimes as threads.
fn issuing() {
    if ctx::chance(1, 8) {
        tverify::run()
    } else {
        issue::run()
    }
}
/// C12: mostly verifiers as tasks, sometimes as threads.
fn verifying() {
    if ctx::chance(1, 6) {
        tverify::run()
    } else {
        chain::run()
    }
}
use runner::Prop;
const REAL: &str = "ucan and ucan-key-support as built from /repo's working tree (builder, signing, parsing, validation, proof chains, DID parsing, key types, capability semantics, MemoryStore)";
const STUB: &str = "wall clock, entropy, task scheduler, network, block store medium (except where the real MemoryStore backs it), toy key type (in part of the runs), caller-side scope and ability types";
const CHAIN_RULE: &str = "one seed = one generated delegation history (principals, tokens, faults, schedule); non-trivial: at least one chain with proofs or one refusal was judged against the model; distinct by hash of the event log";
pub const PROPS: &[Prop] = &[
    Prop { id: "C01", directed: &[], run: chain::run, quick: 60000, thorough: 1200000, real: REAL, stub: STUB, rule: CHAIN_RULE },
    Prop { id: "C02", directed: hostile::LARGE, run: chain::run, quick: 60000, thorough: 1200000, real: REAL, stub: STUB, rule: CHAIN_RULE },
    Prop { id: "C03", directed: &[], run: chain::run, quick: 80000, thorough: 1600000, real: REAL, stub: STUB, rule: CHAIN_RULE },
    Prop { id: "C04", directed: &[], run: tamper::run, quick: 45000, thorough: 900000, real: REAL, stub: STUB, rule: "one seed = one set of honest tokens and one history of alterations in transit; non-trivial: at least one altered token was refused; distinct by hash of the event log" },
    Prop { id: "C05", directed: &[], run: chain::run, quick: 100000, thorough: 2000000, real: REAL, stub: STUB, rule: CHAIN_RULE },
    Prop { id: "C06", directed: &[], run: chain::run, quick: 100000, thorough: 2000000, real: REAL, stub: STUB, rule: CHAIN_RULE },
    Prop { id: "C07", directed: &[], run: chain::run, quick: 100000, thorough: 2000000, real: REAL, stub: STUB, rule: CHAIN_RULE },
    Prop { id: "C08", directed: hostile::SCENARIOS, run: hostile::run, quick: 20000, thorough: 400000, real: REAL, stub: STUB, rule: "one seed = one sequence of hostile or corrupt items handed to one long-lived party; non-trivial: at least one item; distinct by hash of the event log" },
    Prop { id: "C09", directed: &[], run: hops::run, quick: 40000, thorough: 800000, real: REAL, stub: STUB, rule: "one seed = one set of tokens and their sequences of hops (text, objects, IPLD, stores with crashes, duplicated and delayed deliveries); non-trivial: at least one hop; distinct by hash of the event log" },
    Prop { id: "C10", directed: &[], run: threads::run, quick: 300000, thorough: 6000000, real: REAL, stub: STUB, rule: "one seed = one set of thread programs and one schedule" },
    Prop { id: "C11", directed: &[], run: issuing, quick: 80000, thorough: 1600000, real: REAL, stub: STUB, rule: "one seed = one history of builder calls, clones, builds and signings by several issuers; non-trivial: at least one signed token was compared with its request; distinct by hash of the event log" },
    Prop { id: "C12", directed: &[], run: verifying, quick: 90000, thorough: 1800000, real: REAL, stub: STUB, rule: CHAIN_RULE },
    Prop { id: "C13", directed: hostile::OVERSIZE, run: chain::run, quick: 15000, thorough: 300000, real: REAL, stub: STUB, rule: CHAIN_RULE },
    Prop { id: "C14", directed: &[], run: jwtstore::run, quick: 150000, thorough: 3000000, real: REAL, stub: STUB, rule: "one seed = one history of token reads and writes by several clients against a faulty store; non-trivial: at least one absence or refusal was judged; distinct by hash of the event log" },
];
