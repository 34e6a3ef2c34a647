//! C14: the token-level store interface over stores that fail, lose, damage, delay and crash. What each call says is
//! judged against what the store underneath really did for that call.
use crate::ctx::*;
use crate::ev;
use crate::gen::{foreign, gen_ident, gen_req};
use crate::store::*;
use crate::tok::gen_layout;
use anyhow::Result;
use cid::multihash::{Code, Multihash};
use cid::Cid;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use ucan::store::{MemoryStore, UcanJwtStore, UcanStore};

struct World {
    sim: SimStore,
    /// the library's own store, and what was written to it
    mem: MemoryStore,
    written: RefCell<BTreeMap<Vec<u8>, Vec<u8>>>,
    texts: Vec<String>,
    blobs: Vec<Vec<u8>>,
    cids: RefCell<Vec<Cid>>,
}

async fn read_token(w: &World, real: bool, c: &Cid) -> Option<Result<Option<String>>> {
    if real {
        cancellable(w.mem.clone().read_token(c)).await
    } else {
        cancellable(w.sim.read_token(c)).await
    }
}
async fn require_token(w: &World, real: bool, c: &Cid) -> Option<Result<String>> {
    if real {
        cancellable(w.mem.require_token(c)).await
    } else {
        cancellable(w.sim.require_token(c)).await
    }
}

fn gen_cid(w: &World) -> Cid {
    let known = w.cids.borrow();
    let c = if !known.is_empty() && !chance(1, 5) {
        known[draw(known.len() as u64) as usize]
    } else {
        let t: &[u8] = match draw(3) {
            0 => pick(&w.texts).as_bytes(),
            1 => pick(&w.blobs),
            _ => b"never written",
        };
        cid_of(*pick(HASHERS), t)
    };
    match draw(8) {
        0 => Cid::new_v1(*pick(&[0x71u64, 0x70, 0x0129, 0x00, 0x54, 0x56, 0x0155, 0x51]), *c.hash()),
        1 => match draw(3) {
            0 => cid::Cid::new_v0(*cid_of(Code::Sha2_256, pick(&w.texts).as_bytes()).hash()).expect("v0"),
            1 => Cid::new_v1(RAW, Multihash::wrap(0, &pick(&w.texts).as_bytes()[..0]).expect("identity")),
            _ => Cid::new_v1(RAW, Multihash::wrap(0x7777, &c.hash().digest()[..c.hash().digest().len() / 2]).expect("unknown")),
        },
        _ => c,
    }
}
fn show(c: &Cid) -> String {
    format!("{c} (codec {:#x})", c.codec())
}

async fn client(w: Rc<World>, me: usize, n: u64) {
    for _ in 0..n {
        if violated() {
            return;
        }
        latency().await;
        let real = chance(1, 4);
        let _ = (take_deliveries(), take_filings());
        match draw(6) {
            0 | 1 => {
                let text = pick(&w.texts).clone();
                let r = if real {
                    let mut m = w.mem.clone();
                    cancellable(m.write_token(&text)).await
                } else {
                    let mut s = w.sim;
                    cancellable(s.write_token(&text)).await
                };
                let f = take_filings();
                ev!("c{me} write {} chars to {}: {:?} (store: {})", text.len(), if real { "memory" } else { "sim" }, r.as_ref().map(|r| r.as_ref().map(|c| c.to_string()).map_err(|e| e.to_string())), f.len());
                match r {
                    None => probe("cancelled-write"),
                    Some(Ok(c)) => {
                        let want = if real { Some(cid_of(Code::Blake3_256, text.as_bytes())) } else { None };
                        let good = match want {
                            Some(x) => x == c && peek_real(&w, &c) == Some(text.clone().into_bytes()),
                            None => f.iter().any(|f| *f == Filing::Filed(c, text.clone().into_bytes())),
                        };
                        if !good {
                            violate(&["C14"], "write", format!("c{me}: writing {text:?} returned {} but the store filed {f:?}", show(&c)));
                        }
                        if !real && f.iter().filter(|f| **f != Filing::Failed).any(|x| *x != Filing::Filed(c, text.clone().into_bytes())) {
                            violate(&["C14"], "write-extra", format!("c{me}: writing {text:?} also filed {f:?}"));
                        }
                        if real {
                            w.written.borrow_mut().insert(c.to_bytes(), text.clone().into_bytes());
                        }
                        probe("written");
                        w.cids.borrow_mut().push(c);
                    }
                    Some(Err(e)) => {
                        probe("write-refused");
                        let answered = f.iter().all(|x| matches!(x, Filing::Filed(..))) && !f.is_empty() && !fault_enabled(F::StoreAckLost);
                        if real || answered {
                            violate(&["C14"], "write-lost", format!("c{me}: writing {text:?} failed ({e}) though the store did not"));
                        }
                    }
                }
            }
            2 => {
                // a block that is no text (somebody else uses the same store)
                let b = pick(&w.blobs).clone();
                let c = cid_of(Code::Blake3_256, &b);
                if real {
                    let mut m = w.mem.clone();
                    if let Ok(c2) = m.write(Block(b.clone())).await {
                        if c2 != c {
                            violate(&["C14"], "write", format!("c{me}: a block was filed under {} instead of {}", show(&c2), show(&c)));
                        }
                        w.written.borrow_mut().insert(c.to_bytes(), b.clone());
                    }
                } else {
                    w.sim.file_as(&c, &b);
                    if chance(1, 3) {
                        // and one of another codec, under the same hash
                        w.sim.file_as(&Cid::new_v1(0x71, *c.hash()), pick(&w.texts).as_bytes());
                    }
                }
                w.cids.borrow_mut().push(c);
            }
            3 if !real && chance(1, 2) => {
                if chance(1, 2) {
                    w.sim.sync();
                    ev!("c{me} sync");
                } else if fault(F::NodeCrash) {
                    let n = w.sim.crash();
                    ev!("c{me} crash: {n} blocks lost");
                    if n > 0 {
                        probe("blocks-lost");
                    }
                }
            }
            k => {
                let c = gen_cid(&w);
                let require = k == 3;
                let (got, cancelled) = if require {
                    match require_token(&w, real, &c).await {
                        None => (Ok(None), true),
                        Some(Ok(t)) => (Ok(Some(t)), false),
                        Some(Err(e)) => (Err(e.to_string()), false),
                    }
                } else {
                    match read_token(&w, real, &c).await {
                        None => (Ok(None), true),
                        Some(r) => (r.map_err(|e| e.to_string()), false),
                    }
                };
                let d = if real {
                    vec![match w.written.borrow().get(&c.to_bytes()) {
                        Some(b) => Delivery::Bytes(b.clone()),
                        None => Delivery::Nothing,
                    }]
                } else {
                    take_deliveries()
                };
                ev!("c{me} {} {} from {}: {}", if require { "require" } else { "read" }, show(&c), if real { "memory" } else { "sim" }, match (&got, cancelled) {
                    (_, true) => "cancelled".to_string(),
                    (Ok(Some(t)), _) => format!("{} chars", t.len()),
                    (Ok(None), _) => "nothing".into(),
                    (Err(e), _) => format!("error {e}"),
                });
                if cancelled {
                    probe("cancelled-read");
                    continue;
                }
                let what = if require { "requiring" } else { "reading" };
                if c.codec() != RAW {
                    probe("other-codec");
                    if got.is_ok() {
                        violate(&["C14"], "other-codec", format!("c{me}: {what} {} gave {got:?} instead of an error", show(&c)));
                    }
                    continue;
                }
                let text_of = |x: &Delivery| match x {
                    Delivery::Bytes(b) => String::from_utf8(b.clone()).ok(),
                    _ => None,
                };
                match &got {
                    Ok(Some(t)) => {
                        probe("read");
                        if !d.iter().any(|x| text_of(x).as_ref() == Some(t)) {
                            violate(&["C14"], "wrong-text", format!("c{me}: {what} {} gave {t:?} though the store answered {d:?}", show(&c)));
                        }
                    }
                    Ok(None) => {
                        probe("absent");
                        probe("nontrivial");
                        if !d.contains(&Delivery::Nothing) {
                            violate(&["C14"], "false-absence", format!("c{me}: {what} {} reported absence though the store answered {d:?}", show(&c)));
                        }
                    }
                    Err(e) => {
                        probe("read-refused");
                        probe("nontrivial");
                        let honest = |x: &Delivery| match x {
                            Delivery::Nothing => !require,
                            // bytes that are not those the identifier stands for may be refused
                            Delivery::Bytes(b) => text_of(x).is_some() && Code::try_from(c.hash().code()).map(|h| cid_of(h, b) == c).unwrap_or(false),
                            Delivery::Failed => false,
                        };
                        if !d.is_empty() && d.iter().all(honest) {
                            violate(&["C14"], "false-error", format!("c{me}: {what} {} failed ({e}) though the store answered {d:?}", show(&c)));
                        }
                    }
                }
                if d.is_empty() {
                    violate(&["C14"], "not-asked", format!("c{me}: {what} {} gave {got:?} without asking the store", show(&c)));
                }
            }
        }
    }
}
fn peek_real(w: &World, c: &Cid) -> Option<Vec<u8>> {
    now_or_never(w.mem.read::<Block>(c)).and_then(|r| r.ok()).flatten().map(|b| b.0)
}

pub fn run() {
    const LO: &[u16] = &[20, 100, 300];
    let lat = draw(LATS);
    with(|c| c.lat_max = lat);
    swarm(&[
        (F::StoreReadErr, LO), (F::StoreReadMiss, LO), (F::StoreCorrupt, LO), (F::StoreTruncate, LO), (F::StoreMisdirect, LO), (F::StoreShortRead, LO),
        (F::StoreWriteErr, LO), (F::StoreWriteTorn, LO), (F::StoreAckLost, LO), (F::Cancel, &[20, 100]), (F::NodeCrash, &[300, 900]),
    ]);
    let mut people: Vec<usize> = (0..2).map(|_| gen_ident()).collect();
    people.dedup();
    let mut texts: Vec<String> = vec!["a.b.c".into()];
    for _ in 0..1 + draw(3) {
        let r = gen_req(&people, 1_700_000_000);
        texts.push(foreign(&r, gen_layout()).text);
    }
    let t = texts[1].clone();
    for _ in 0..draw(4) {
        texts.push(match draw(8) {
            6 if chance(1, 4) => format!("{t}{}", "y".repeat(*pick(&[65_536 - t.len().min(65_536), 65_536, 70_000, 300_000]))),
            0 => String::new(),
            1 => format!("{t}\n"),
            2 => format!(" {t}"),
            3 => "é\u{1F600}\0\u{feff}".into(),
            4 => t.to_lowercase(),
            5 => "\u{feff}a.b.c".into(),
            _ => "x".repeat(1 + draw(9000) as usize),
        });
    }
    let blobs = vec![vec![0xff, 0xfe], [t.as_bytes(), &[0x80]].concat(), vec![0xc3], [&[0xef, 0xbb], t.as_bytes()].concat(), vec![0xed, 0xa0, 0x80]];
    let sim = SimStore::new(chance(1, 4), chance(1, 2)).with_primary(*pick(HASHERS));
    let w = Rc::new(World { sim, mem: MemoryStore::default(), written: Default::default(), texts, blobs, cids: Default::default() });
    for me in 0..1 + draw(3) as usize {
        let n = 3 + draw(20);
        spawn(&format!("client{me}"), 0, client(w.clone(), me, n));
    }
    match run_tasks(60_000) {
        RunEnd::Done => {}
        e => violate(&["C14"], "no-progress", format!("{e:?}")),
    }
    let _ = now_or_never(async {});
}
