//! Simulated block stores: content-addressed, asynchronous, faulty, crashing. Handles are Copy; the blocks live
//! with the run. The backing medium is either a plain map or the library's own MemoryStore.
use crate::ctx::{self, draw, fault, latency, op_read, stall, F};
use anyhow::{anyhow, Result};
use async_trait::async_trait;
use cid::multihash::{Code, MultihashDigest};
use cid::Cid;
use libipld_core::codec::{Decode, Encode};
use libipld_core::raw::RawCodec;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Cursor, Read, Seek, Write};
use ucan::store::{MemoryStore, UcanStore, UcanStoreConditionalSend};

pub const RAW: u64 = 0x55;
pub const HASHERS: &[Code] = &[
    Code::Blake3_256,
    Code::Sha2_256,
    Code::Sha2_512,
    Code::Sha3_256,
    Code::Sha3_512,
    Code::Keccak256,
    Code::Blake2b256,
    Code::Blake2s256,
    Code::Sha3_224,
    Code::Keccak512,
    Code::Blake2b512,
    Code::Blake2s128,
    Code::Sha3_384,
    Code::Keccak224,
    Code::Keccak384,
];
pub fn cid_of(h: Code, bytes: &[u8]) -> Cid {
    Cid::new_v1(RAW, h.digest(bytes))
}

/// What a read handed to its caller's decoder.
#[derive(Clone, Debug, PartialEq)]
pub enum Delivery {
    Failed,
    Nothing,
    Bytes(Vec<u8>),
}
/// What became of a write.
#[derive(Clone, Debug, PartialEq)]
pub enum Filing {
    Failed,
    Filed(Cid, Vec<u8>),
}

#[derive(Default)]
struct State {
    /// hash function of the identifiers this store gives out
    primary: Option<Code>,
    /// reads one operation may need before it counts as not ending
    most_reads: Option<u64>,
    /// contents on the medium
    durable: BTreeMap<Vec<u8>, Vec<u8>>,
    /// contents acknowledged but not yet on the medium
    volatile: BTreeMap<Vec<u8>, Vec<u8>>,
    mem: Option<MemoryStore>,
    write_through: bool,
}
thread_local! {
    static STORES: RefCell<Vec<State>> = const { RefCell::new(Vec::new()) };
    static DELIVERIES: RefCell<BTreeMap<usize, Vec<Delivery>>> = const { RefCell::new(BTreeMap::new()) };
    static FILINGS: RefCell<BTreeMap<usize, Vec<Filing>>> = const { RefCell::new(BTreeMap::new()) };
}

fn task() -> usize {
    ctx::with(|c| c.cur_task)
}
fn delivered(d: Delivery) {
    DELIVERIES.with(|x| x.borrow_mut().entry(task()).or_default().push(d));
}
fn filed(f: Filing) {
    FILINGS.with(|x| x.borrow_mut().entry(task()).or_default().push(f));
}
/// What the store did for the calling task since it last asked.
pub fn take_deliveries() -> Vec<Delivery> {
    DELIVERIES.with(|x| x.borrow_mut().remove(&task()).unwrap_or_default())
}
pub fn take_filings() -> Vec<Filing> {
    FILINGS.with(|x| x.borrow_mut().remove(&task()).unwrap_or_default())
}

/// A medium that hands over its bytes in pieces, and may fail half-way.
struct Pieces {
    c: Cursor<Vec<u8>>,
    most: usize,
    fail_at: Option<u64>,
    interrupts: bool,
}
impl Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if let Some(f) = self.fail_at {
            if self.c.position() >= f {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "simulated: medium error"));
            }
        }
        if self.interrupts && ctx::chance(1, 4) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.most);
        self.c.read(&mut b[..n])
    }
}
impl Seek for Pieces {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}

/// Bytes as they are, for moving blocks in and out of the library's store.
#[derive(Debug, Clone)]
pub struct Block(pub Vec<u8>);
impl Decode<RawCodec> for Block {
    fn decode<R: Read + Seek>(_: RawCodec, r: &mut R) -> Result<Self> {
        let mut v = Vec::new();
        r.read_to_end(&mut v)?;
        Ok(Block(v))
    }
}
impl Encode<RawCodec> for Block {
    fn encode<W: Write>(&self, _: RawCodec, w: &mut W) -> Result<()> {
        w.write_all(&self.0)?;
        Ok(())
    }
}

#[derive(Clone, Copy, Debug)]
pub struct SimStore {
    pub id: usize,
}

impl SimStore {
    pub fn new(real_memory: bool, write_through: bool) -> SimStore {
        STORES.with(|s| {
            let mut s = s.borrow_mut();
            s.push(State { mem: real_memory.then(MemoryStore::default), write_through, ..Default::default() });
            SimStore { id: s.len() - 1 }
        })
    }
    /// A store whose identifiers use another hash function than the library's default.
    pub fn with_primary(self, h: Code) -> SimStore {
        self.st(|s| s.primary = Some(h));
        self
    }
    pub fn most_reads(self, n: u64) -> SimStore {
        self.st(|s| s.most_reads = Some(n));
        self
    }
    fn st<R>(&self, f: impl FnOnce(&mut State) -> R) -> R {
        STORES.with(|s| f(&mut s.borrow_mut()[self.id]))
    }
    pub fn is_memory(&self) -> bool {
        self.st(|s| s.mem.is_some())
    }
    /// Put a block where reads of `cid` find it, whatever it contains (a store may be wrong or hostile).
    pub fn file_as(&self, cid: &Cid, bytes: &[u8]) {
        self.st(|s| s.durable.insert(cid.to_bytes(), bytes.to_vec()));
    }
    pub fn remove(&self, cid: &Cid) {
        self.st(|s| {
            s.durable.remove(&cid.to_bytes());
            s.volatile.remove(&cid.to_bytes());
        });
    }
    /// File a block honestly under every supported hash function.
    pub fn file(&self, bytes: &[u8]) {
        for h in HASHERS {
            self.file_as(&cid_of(*h, bytes), bytes);
        }
    }
    /// What a read that meets no fault finds.
    pub fn peek(&self, cid: &Cid) -> Option<Vec<u8>> {
        let k = cid.to_bytes();
        let (v, mem) = self.st(|s| (s.volatile.get(&k).or_else(|| s.durable.get(&k)).cloned(), s.mem.clone()));
        if v.is_some() {
            return v;
        }
        mem.and_then(|m| ctx::now_or_never(m.read::<Block>(cid)).expect("memory store suspended").ok().flatten()).map(|b| b.0)
    }
    pub fn sync(&self) {
        self.st(|s| {
            let v = std::mem::take(&mut s.volatile);
            s.durable.extend(v);
        });
    }
    /// Power loss: what was not yet on the medium is gone.
    pub fn crash(&self) -> usize {
        self.st(|s| {
            let n = s.volatile.len();
            s.volatile.clear();
            n
        })
    }
    pub fn keys(&self) -> Vec<Vec<u8>> {
        self.st(|s| s.durable.keys().chain(s.volatile.keys()).cloned().collect())
    }
    fn nth_other(&self, not: &[u8]) -> Option<Vec<u8>> {
        let all: Vec<Vec<u8>> = self.st(|s| {
            let mut v: Vec<Vec<u8>> = s.durable.values().chain(s.volatile.values()).filter(|b| b.as_slice() != not).cloned().collect();
            v.dedup();
            v
        });
        if all.is_empty() {
            None
        } else {
            Some(all[draw(all.len() as u64) as usize].clone())
        }
    }
}

pub fn damage(bytes: &mut Vec<u8>) {
    if bytes.is_empty() {
        return;
    }
    let n = 1 + draw(3);
    for _ in 0..n {
        let i = draw(bytes.len() as u64) as usize;
        bytes[i] ^= 1 << draw(8);
    }
}

#[async_trait]
impl UcanStore<RawCodec> for SimStore {
    async fn read<T: Decode<RawCodec>>(&self, cid: &Cid) -> Result<Option<T>> {
        let n = op_read();
        if self.st(|s| s.most_reads).map(|m| n > m).unwrap_or(false) {
            ctx::violate(&["C08", "C13"], "unbounded", format!("one operation made {n} reads and went on"));
            return Err(anyhow!("too many reads"));
        }
        if fault(F::StoreStall) {
            stall().await;
        }
        latency().await;
        if fault(F::StoreReadErr) {
            delivered(Delivery::Failed);
            return Err(ctx::sim_error("read error"));
        }
        if fault(F::StoreReadMiss) {
            delivered(Delivery::Nothing);
            return Ok(None);
        }
        let mut bytes = match self.peek(cid) {
            Some(b) => b,
            None => {
                delivered(Delivery::Nothing);
                return Ok(None);
            }
        };
        if fault(F::StoreMisdirect) {
            if let Some(o) = self.nth_other(&bytes) {
                bytes = o;
            }
        }
        if fault(F::StoreTruncate) {
            let n = draw(bytes.len() as u64 + 1) as usize;
            bytes.truncate(n);
        }
        if fault(F::StoreCorrupt) {
            damage(&mut bytes);
        }
        latency().await;
        if fault(F::StoreShortRead) {
            let most = 1 + draw(64) as usize;
            let fail_at = ctx::chance(1, 4).then(|| draw(bytes.len() as u64 + 1));
            delivered(if fail_at.is_some() { Delivery::Failed } else { Delivery::Bytes(bytes.clone()) });
            let mut p = Pieces { c: Cursor::new(bytes), most, fail_at, interrupts: ctx::chance(1, 3) };
            return Ok(Some(T::decode(RawCodec, &mut p)?));
        }
        delivered(Delivery::Bytes(bytes.clone()));
        Ok(Some(T::decode(RawCodec, &mut Cursor::new(bytes))?))
    }

    async fn write<T: Encode<RawCodec> + UcanStoreConditionalSend + core::fmt::Debug>(&mut self, token: T) -> Result<Cid> {
        let mut bytes = Vec::new();
        token.encode(RawCodec, &mut bytes)?;
        drop(token);
        if fault(F::StoreStall) {
            stall().await;
        }
        latency().await;
        if fault(F::StoreWriteErr) {
            filed(Filing::Failed);
            return Err(ctx::sim_error("write error"));
        }
        let mem = self.st(|s| s.mem.clone());
        if let Some(mut m) = mem {
            let r = m.write(Block(bytes.clone())).await;
            filed(match &r {
                Ok(c) => Filing::Filed(*c, bytes),
                Err(_) => Filing::Failed,
            });
            return r;
        }
        let cid = cid_of(self.st(|s| s.primary).unwrap_or(Code::Blake3_256), &bytes);
        if fault(F::StoreWriteTorn) {
            let n = draw(bytes.len() as u64) as usize;
            self.file_as(&cid, &bytes[..n]);
            filed(Filing::Failed);
            return Err(ctx::sim_error("torn write"));
        }
        for h in HASHERS {
            let k = cid_of(*h, &bytes).to_bytes();
            self.st(|s| {
                if s.write_through {
                    s.durable.insert(k, bytes.clone());
                } else {
                    s.volatile.insert(k, bytes.clone());
                }
            });
        }
        filed(Filing::Filed(cid, bytes));
        latency().await;
        if fault(F::StoreAckLost) {
            return Err(ctx::sim_error("the acknowledgement was lost"));
        }
        Ok(cid)
    }
}
