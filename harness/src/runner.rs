//! Batches of runs in worker processes, minimisation, replay files, evidence.
use crate::ctx::{self, fnv, mix, Chooser, Ctx, HarnessError, Violation, FAULT_NAMES, NF};
use crate::sys;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    /// scenarios run once per check, besides the seeded runs: what the findings in KNOWN_FINDINGS are about
    pub directed: &'static [(&'static str, fn())],
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
    pub real: &'static str,
    pub stub: &'static str,
    pub rule: &'static str,
}

#[derive(Default)]
pub struct RunResult {
    pub hash: u64,
    pub sched: u64,
    pub viol: Option<Violation>,
    pub fired: Vec<u64>,
    pub probes: BTreeMap<String, u64>,
    pub events: u64,
    pub polls: u64,
    pub steps: u64,
    pub sim_ns: i128,
    pub draws: Vec<u64>,
    pub lines: Vec<String>,
    pub harness_error: Option<String>,
}

pub fn run_seed(prop: &str, seed: u64, i: u64) -> u64 {
    mix(mix(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ fnv(0xcbf2_9ce4_8422_2325, prop.as_bytes())) ^ i.wrapping_mul(0xD134_2543_DE82_EF95))
}

/// One run, on its own thread, so that every thread-local of the library and of std starts afresh.
pub fn run_one(p: &'static Prop, ch: Chooser, trace: bool) -> RunResult {
    let h = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            let mut c = Ctx::new(p.id, ch, trace);
            let entropy = c.ch.draw(1 << 60);
            // never one of the directed scenarios unless the choices are scripted to be
            let scenario = if p.directed.is_empty() { 0 } else { c.ch.draw(1 << 62) };
            let run = scenario.checked_sub(1).and_then(|k| p.directed.get(k as usize)).map(|d| d.1).unwrap_or(p.run);
            ctx::install(c);
            sys::sim_enter(entropy);
            sys::set_clock(ctx::clock_now(0), 0);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(run));
            sys::sim_leave();
            let mut out = RunResult::default();
            if let Err(e) = r {
                let (loc, msg) = ctx::last_panic();
                if let Some(h) = e.downcast_ref::<HarnessError>() {
                    out.harness_error = Some(h.0.clone());
                } else if ctx::is_harness_panic(&loc) || loc.is_empty() {
                    out.harness_error = Some(format!("{loc}: {msg}"));
                } else {
                    ctx::library_panic("the library", &loc, &msg);
                }
                if out.harness_error.is_some() {
                    return out;
                }
            }
            let c = ctx::take();
            out.hash = c.hash;
            out.sched = c.sched_hash;
            out.viol = c.viol;
            out.fired = c.fired.to_vec();
            out.probes = c.probes;
            out.events = c.events;
            out.polls = c.polls;
            out.steps = c.steps;
            out.sim_ns = c.now;
            out.draws = c.ch.record;
            out.lines = c.lines;
            out
        })
        .expect("spawn run");
    match h.join() {
        Ok(r) => r,
        Err(_) => RunResult { harness_error: Some("run thread died".into()), ..Default::default() },
    }
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("UCANSIM_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn prop(id: &str) -> &'static Prop {
    crate::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}
fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

// ------------------------------------------------------------------ known findings

#[derive(Clone)]
pub struct Known {
    property: String,
    class: String,
    matches: String,
    text: String,
}
/// Lines `finding: property=C00 class=<class> match=<text in the message> :: <what fails>`; `fixed:` lines suppress nothing.
fn known() -> Vec<Known> {
    let s = std::fs::read_to_string(root().join("KNOWN_FINDINGS")).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let (head, text) = l.split_once(" :: ")?;
            let g = |k: &str| head.split_once(k).map(|x| x.1.to_string());
            let property = g("property=")?.split(' ').next()?.to_string();
            let class = g("class=")?.split(' ').next()?.to_string();
            let matches = g("match=")?;
            Some(Known { property, class, matches, text: text.to_string() })
        })
        .collect()
}

// ------------------------------------------------------------------ worker

fn worker(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let (w, nw, count): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let dir = PathBuf::from(&a[5]);
    let start: u64 = a[6].parse().unwrap();
    let prog = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(dir.join(format!("progress{w}"))).unwrap();
    let kn: Vec<Known> = known().into_iter().filter(|k| k.property == p.id).collect();
    let mut fired = vec![0u64; NF];
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut events, mut polls, mut sim_ns, mut steps) = (0u64, 0u64, 0u64, 0i128, 0u64);
    let mut faulty_runs = 0u64;
    let mut hashes: Vec<u8> = Vec::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut known_hits: BTreeMap<usize, u64> = BTreeMap::new();
    let mut found: Option<Value> = None;
    let mut draws_max = 0;
    let mut i = start;
    while i < count {
        if i % nw != w {
            i += 1;
            continue;
        }
        let _ = prog.write_all_at(&(i + 1).to_le_bytes(), 0);
        let r = run_one(p, Chooser::seeded(run_seed(p.id, seed, i)), false);
        if let Some(e) = r.harness_error {
            let o = json!({"harness_error": e, "run": i});
            std::fs::write(dir.join(format!("out{w}.json")), o.to_string()).unwrap();
            return 2;
        }
        runs += 1;
        events += r.events;
        polls += r.polls;
        steps += r.steps;
        sim_ns += r.sim_ns;
        draws_max = draws_max.max(r.draws.len());
        for (k, n) in r.fired.iter().enumerate() {
            fired[k] += n;
        }
        if r.fired.iter().any(|n| *n > 0) {
            faulty_runs += 1;
        }
        let nontrivial = r.probes.contains_key("nontrivial");
        for (k, n) in r.probes {
            *probes.entry(k).or_insert(0) += n;
        }
        if nontrivial && seen.insert(r.hash) {
            hashes.extend_from_slice(&r.hash.to_le_bytes());
        }
        scheds.insert(r.sched);
        if let Some(v) = r.viol {
            if let Some(k) = kn.iter().position(|k| k.class == v.class && v.msg.contains(&k.matches)) {
                *known_hits.entry(k).or_insert(0) += 1;
            } else {
                let _ = prog.write_all_at(&(u64::MAX).to_le_bytes(), 8); // tells the watchdog we are minimising
                let (draws, tried) = minimise(r.draws.clone(), &v.class, |d| {
                    let r = run_one(p, Chooser::scripted(d.to_vec()), false);
                    (r.viol.map(|v| v.class), r.draws)
                });
                found = Some(json!({"run": i, "class": v.class, "msg": v.msg, "draws": draws, "full": r.draws, "tried": tried}));
                break;
            }
        }
        i += 1;
    }
    std::fs::write(dir.join(format!("hash{w}")), &hashes).unwrap();
    let sc: Vec<u8> = scheds.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(dir.join(format!("sched{w}")), &sc).unwrap();
    let o = json!({
        "runs": runs, "events": events, "polls": polls, "steps": steps, "sim_s": (sim_ns / 1_000_000) as f64 / 1e3, "fired": fired, "probes": probes,
        "faulty_runs": faulty_runs, "known": known_hits.iter().map(|(k, n)| json!([k, n])).collect::<Vec<_>>(),
        "found": found, "draws_max": draws_max,
    });
    std::fs::write(dir.join(format!("out{w}.json")), o.to_string()).unwrap();
    0
}

/// Shrink the sequence of choices while the same class of violation persists.
pub fn minimise(full: Vec<u64>, class: &str, mut test: impl FnMut(&[u64]) -> (Option<String>, Vec<u64>)) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let mut tried = 0u64;
    let mut cur = full;
    let mut ok = |c: &Vec<u64>, tried: &mut u64| -> Option<Vec<u64>> {
        if *tried > 4000 || t0.elapsed() > Duration::from_secs(60) {
            return None;
        }
        *tried += 1;
        let (cl, rec) = test(c);
        if cl.as_deref() == Some(class) {
            let mut rec = rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            Some(rec)
        } else {
            None
        }
    };
    // simpler: shorter, or not longer and smaller in value
    let better = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a.iter().filter(|x| **x != 0).count(), a.iter().fold(0u128, |s, x| s + *x as u128)) < (b.len(), b.iter().filter(|x| **x != 0).count(), b.iter().fold(0u128, |s, x| s + *x as u128));
    loop {
        let before = cur.clone();
        // cut the tail
        let mut n = cur.len() / 2;
        while n > 0 {
            if cur.len() > n {
                let c = cur[..cur.len() - n].to_vec();
                if let Some(r) = ok(&c, &mut tried) {
                    if better(&r, &cur) {
                        cur = r;
                        continue;
                    }
                }
            }
            n /= 2;
        }
        // delete or zero chunks
        let mut n = (cur.len() / 4).max(1);
        while n > 0 {
            let mut at = 0;
            while at < cur.len() {
                let end = (at + n).min(cur.len());
                let mut c = cur.clone();
                c.drain(at..end);
                if let Some(r) = ok(&c, &mut tried) {
                    if better(&r, &cur) {
                        cur = r;
                        continue;
                    }
                }
                if cur[at..end].iter().any(|x| *x != 0) {
                    let mut c = cur.clone();
                    c[at..end].iter_mut().for_each(|x| *x = 0);
                    if let Some(r) = ok(&c, &mut tried) {
                        if better(&r, &cur) {
                            cur = r;
                            continue;
                        }
                    }
                }
                at += n;
            }
            n /= 2;
        }
        // lower single values
        let mut at = 0;
        while at < cur.len() {
            for v in [cur[at] / 2, cur[at].saturating_sub(1)] {
                if at < cur.len() && v < cur[at] {
                    let mut c = cur.clone();
                    c[at] = v;
                    if let Some(r) = ok(&c, &mut tried) {
                        if better(&r, &cur) {
                            cur = r;
                        }
                    }
                }
            }
            at += 1;
        }
        if cur == before || tried > 4000 || t0.elapsed() > Duration::from_secs(60) {
            return (cur, tried);
        }
    }
}

// ------------------------------------------------------------------ single runs (replay, crashes)

/// `one PROP OUT DRAWS.json|SEED:N`: one run, result to OUT; draws are also written as they happen to OUT.draws.
fn one(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let ch = match a[2].strip_prefix("SEED:") {
        Some(s) => Chooser::seeded(s.parse().unwrap()),
        None => {
            let v: Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            Chooser::scripted(v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect())
        }
    };
    let mut ch = ch;
    if a.get(3).map(|s| s == "sink").unwrap_or(false) {
        ch.sink = Some(std::fs::File::create(format!("{}.draws", a[1])).unwrap());
    }
    let r = run_one(p, ch, true);
    if let Some(e) = r.harness_error {
        eprintln!("harness error: {e}");
        return 2;
    }
    let o = json!({
        "hash": r.hash, "class": r.viol.as_ref().map(|v| v.class.clone()), "msg": r.viol.as_ref().map(|v| v.msg.clone()),
        "lines": r.lines, "draws": r.draws,
    });
    std::fs::write(&a[1], o.to_string()).unwrap();
    0
}

struct OneOut {
    class: Option<String>,
    msg: String,
    hash: u64,
    lines: Vec<String>,
    draws: Vec<u64>,
}
fn spawn_one(p: &Prop, dir: &Path, arg: &str, timeout: Duration, sink: bool) -> OneOut {
    let out = dir.join("one.json");
    let _ = std::fs::remove_file(&out);
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(["one", p.id, out.to_str().unwrap(), arg]);
    if sink {
        cmd.arg("sink");
    }
    let mut ch = cmd.stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn");
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait().unwrap() {
            Some(s) => break Some(s),
            None if t0.elapsed() > timeout => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    let died = |class: &str, msg: String| {
        let draws = std::fs::read(format!("{}.draws", out.display())).map(|b| b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()).unwrap_or_default();
        OneOut { class: Some(class.into()), msg, hash: 0, lines: vec![], draws }
    };
    match st {
        None => died("hang", format!("a run does not end within {timeout:?} of real time")),
        Some(s) if s.signal().is_some() => died("abort", format!("the process was killed by signal {} (abort or stack overflow)", s.signal().unwrap())),
        Some(s) if s.code() == Some(0) => {
            let v: Value = serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap();
            OneOut {
                class: v["class"].as_str().map(String::from),
                msg: v["msg"].as_str().unwrap_or("").to_string(),
                hash: v["hash"].as_u64().unwrap_or(0),
                lines: v["lines"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
                draws: v["draws"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
            }
        }
        Some(s) => died("abort", format!("the process exited with {s}")),
    }
}
fn write_draws(dir: &Path, d: &[u64]) -> String {
    let f = dir.join("draws.json");
    std::fs::write(&f, json!(d).to_string()).unwrap();
    f.to_str().unwrap().to_string()
}

const HANG: Duration = Duration::from_secs(60);

fn replay(file: &str) -> i32 {
    let v: Value = match std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {file}");
            return 2;
        }
    };
    let p = prop(v["property"].as_str().unwrap());
    let dir = work(p.id);
    let draws: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let o = spawn_one(p, &dir, &write_draws(&dir, &draws), HANG, false);
    let _ = std::fs::remove_dir_all(&dir);
    for l in &o.lines {
        println!("{l}");
    }
    match &o.class {
        Some(c) => {
            let same = Some(c.as_str()) == v["class"].as_str() && v["log_hash"].as_str() == Some(&format!("{:016x}", o.hash));
            println!("{}: {}", c, o.msg);
            println!("event log {:016x}: {}", o.hash, if same { "identical to the recorded one" } else { "DIFFERS from the recorded one" });
            println!("VIOLATION property={} replay={file}", p.id);
            1
        }
        None => {
            println!("the recorded choices no longer violate {}", p.id);
            0
        }
    }
}

fn work(id: &str) -> PathBuf {
    let d = root().join("work").join(format!("{id}-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

// ------------------------------------------------------------------ check

fn check(id: &str) -> i32 {
    let p = prop(id);
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let count = env_u64("UCANSIM_RUNS", if tier == "quick" { p.quick } else { p.thorough });
    let nw = env_u64("UCANSIM_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(2, 16));
    println!("{id}: seed {seed}, {count} runs ({tier}), {nw} workers");
    let dir = work(id);
    let exe = std::env::current_exe().unwrap();
    let launch = |w: u64, start: u64| -> Child {
        Command::new(&exe)
            .args(["worker", id, &seed.to_string(), &w.to_string(), &nw.to_string(), &count.to_string(), dir.to_str().unwrap(), &start.to_string()])
            .stdout(Stdio::null())
            .stderr(Stdio::inherit())
            .spawn()
            .expect("spawn worker")
    };
    let progress = |w: u64| -> (u64, bool) {
        let b = std::fs::read(dir.join(format!("progress{w}"))).unwrap_or_default();
        let g = |o: usize| b.get(o..o + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(0);
        (g(0), g(8) != 0)
    };
    let mut ch: Vec<Option<Child>> = (0..nw).map(|w| Some(launch(w, 0))).collect();
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); nw as usize];
    // (class, msg, run, draws)
    let mut found: Option<(String, String, u64, Vec<u64>, Vec<u64>)> = None;
    let mut err: Option<String> = None;
    while ch.iter().any(|c| c.is_some()) && err.is_none() && found.is_none() {
        std::thread::sleep(Duration::from_millis(10));
        for w in 0..nw as usize {
            let Some(c) = ch[w].as_mut() else { continue };
            let (idx, minimising) = progress(w as u64);
            if idx != last[w].0 || minimising {
                last[w] = (idx, Instant::now());
            }
            let hung = last[w].1.elapsed() > HANG;
            if hung {
                let _ = c.kill();
            }
            let Some(st) = (if hung { c.wait().ok() } else { c.try_wait().unwrap() }) else { continue };
            ch[w] = None;
            if st.code() == Some(0) {
                let o: Value = serde_json::from_slice(&std::fs::read(dir.join(format!("out{w}.json"))).unwrap()).unwrap();
                if let Some(f) = o.get("found").filter(|f| !f.is_null()) {
                    let dr = |k: &str| f[k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect::<Vec<u64>>();
                    found = Some((f["class"].as_str().unwrap().into(), f["msg"].as_str().unwrap().into(), f["run"].as_u64().unwrap(), dr("draws"), dr("full")));
                }
            } else if st.code() == Some(2) {
                let o = std::fs::read_to_string(dir.join(format!("out{w}.json"))).unwrap_or_default();
                err = Some(format!("worker {w}: {o}"));
            } else if idx == 0 {
                err = Some(format!("worker {w} died before its first run: {st}"));
            } else {
                // the process died or hung inside run idx-1: repeat that run alone, recording its choices as they are made
                let run = idx - 1;
                println!("worker {w} {} in run {run}; repeating it alone", if hung { "hung".to_string() } else { format!("died ({st})") });
                let o = spawn_one(p, &dir, &format!("SEED:{}", run_seed(id, seed, run)), HANG, true);
                match &o.class {
                    Some(cl) => {
                        let full = o.draws.clone();
                        let limit = if cl == "hang" { 6 } else { 120 };
                        let mut tries = 0;
                        let (draws, _) = minimise(full.clone(), cl, |d| {
                            tries += 1;
                            if tries > limit {
                                return (None, vec![]);
                            }
                            let o = spawn_one(p, &dir, &write_draws(&dir, d), if cl == "hang" { Duration::from_secs(5) } else { HANG }, true);
                            (o.class, o.draws)
                        });
                        found = Some((cl.clone(), o.msg.clone(), run, draws, full));
                    }
                    None => err = Some(format!("run {run} killed its worker ({st}) but ends by itself when repeated")),
                }
            }
        }
    }
    for c in ch.iter_mut().flatten() {
        let _ = c.kill();
        let _ = c.wait();
    }
    if let Some(e) = err {
        eprintln!("ERROR of the harness: {e}");
        let _ = std::fs::remove_dir_all(&dir);
        return 2;
    }
    let mut rc = 0;
    let mut known_met: BTreeMap<usize, u64> = BTreeMap::new();
    if found.is_none() {
        let kn: Vec<Known> = known().into_iter().filter(|k| k.property == p.id).collect();
        for (k, (name, _)) in p.directed.iter().enumerate() {
            let draws = vec![1, k as u64 + 1];
            let o = spawn_one(p, &dir, &write_draws(&dir, &draws), HANG, false);
            if let Some(class) = o.class {
                let msg = format!("{name}: {}", o.msg);
                match kn.iter().position(|k| k.class == class && msg.contains(&k.matches)) {
                    Some(k) => *known_met.entry(k).or_insert(0) += 1,
                    None if found.is_none() => found = Some((class, msg, count + k as u64, draws.clone(), draws)),
                    None => {}
                }
            }
        }
    }
    if let Some((class, msg, run, draws, full)) = &found {
        // replay in a fresh process; fall back on the choices as first made
        let mut o = spawn_one(p, &dir, &write_draws(&dir, draws), HANG, false);
        let mut used = draws;
        if o.class.as_deref() != Some(class) {
            o = spawn_one(p, &dir, &write_draws(&dir, full), HANG, false);
            used = full;
        }
        if o.class.is_none() {
            println!("note: the violation did not repeat in a fresh process");
        }
        let rd = root().join("replays");
        std::fs::create_dir_all(&rd).unwrap();
        let path = rd.join(format!("{id}-seed{seed}-run{run}.json"));
        let j = json!({
            "property": id, "class": class, "message": if o.msg.is_empty() { msg.clone() } else { o.msg.clone() }, "seed": seed, "run": run,
            "choices": used, "choices_before_minimising": full.len(), "log_hash": format!("{:016x}", o.hash), "trace": o.lines,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        println!("{class}: {}", if o.msg.is_empty() { msg } else { &o.msg });
        println!("run {run}: {} choices minimised to {} ({} not zero)", full.len(), used.len(), used.iter().filter(|x| **x != 0).count());
        for l in o.lines.iter().take(60) {
            println!("  {l}");
        }
        println!("VIOLATION property={id} replay={}", path.display());
        rc = 1;
    }
    evidence(p, tier, seed, &dir, nw, t0, rc, found.as_ref().map(|f| f.1.clone()), known_met);
    let _ = std::fs::remove_dir_all(&dir);
    rc
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &Prop, tier: &str, seed: u64, dir: &Path, nw: u64, t0: Instant, rc: i32, msg: Option<String>, mut known_n: BTreeMap<usize, u64>) {
    let mut tot: BTreeMap<&str, f64> = BTreeMap::new();
    let mut fired: BTreeMap<&str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut hs: HashSet<u64> = HashSet::new();
    let mut sc: HashSet<u64> = HashSet::new();
    let mut draws_max = 0;
    for w in 0..nw {
        let Some(o): Option<Value> = std::fs::read(dir.join(format!("out{w}.json"))).ok().and_then(|b| serde_json::from_slice(&b).ok()) else { continue };
        for k in ["runs", "events", "polls", "steps", "sim_s", "faulty_runs"] {
            *tot.entry(k).or_insert(0.0) += o[k].as_f64().unwrap_or(0.0);
        }
        draws_max = draws_max.max(o["draws_max"].as_u64().unwrap_or(0));
        for (k, n) in o["fired"].as_array().into_iter().flatten().enumerate() {
            let n = n.as_u64().unwrap_or(0);
            if n > 0 {
                *fired.entry(FAULT_NAMES[k]).or_insert(0) += n;
            }
        }
        for (k, n) in o["probes"].as_object().into_iter().flatten() {
            *probes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
        for kn in o["known"].as_array().into_iter().flatten() {
            *known_n.entry(kn[0].as_u64().unwrap() as usize).or_insert(0) += kn[1].as_u64().unwrap();
        }
        for (f, set) in [("hash", &mut hs), ("sched", &mut sc)] {
            for c in std::fs::read(dir.join(format!("{f}{w}"))).unwrap_or_default().chunks_exact(8) {
                set.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let kn: Vec<Known> = known().into_iter().filter(|k| k.property == p.id).collect();
    for (i, k) in kn.iter().enumerate() {
        println!("KNOWN-FINDING: property={} {} (met {} times)", p.id, k.text, known_n.get(&i).unwrap_or(&0));
    }
    // sample runs, written out
    let mut samples = Vec::new();
    for run in [0u64, 1, 2] {
        let o = spawn_one(p, dir, &format!("SEED:{}", run_seed(p.id, seed, run)), HANG, false);
        let n = o.lines.len();
        let mut l: Vec<String> = o.lines.into_iter().take(25).map(|s| s.chars().take(260).collect()).collect();
        if n > 25 {
            l.push(format!("... {} more events", n - 25));
        }
        samples.push(json!({"run": run, "seed_of_run": format!("{:016x}", run_seed(p.id, seed, run)), "choices": o.draws.len(), "log_hash": format!("{:016x}", o.hash), "events": l}));
    }
    let wall = t0.elapsed().as_secs_f64();
    let runs = tot.get("runs").copied().unwrap_or(0.0);
    let e = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": (wall * 100.0).round() / 100.0, "violations": rc,
        "violation": msg,
        "assumptions": [
            "The clock, entropy, futex, storage, key, network and scheduling seams are the only sources of nondeterminism the run meets (checked by `ucansim selftest`: same log hashes across processes and worker counts).",
            "The reference model (harness/src/model.rs and the oracles in the world) states the property.",
            "Sampled: a clean batch is evidence over the explored runs, not a proof."
        ],
        "coverage": {
            "evaluations": runs as u64,
            "distinct_nontrivial": hs.len(),
            "rule": p.rule,
            "samples": samples,
            "runs_per_hour_one_seed_each": (runs / wall * 3600.0) as u64,
            "simulated_time_s": tot.get("sim_s").copied().unwrap_or(0.0),
            "events": tot.get("events").copied().unwrap_or(0.0) as u64,
            "task_polls": tot.get("polls").copied().unwrap_or(0.0) as u64,
            "scheduler_steps": tot.get("steps").copied().unwrap_or(0.0) as u64,
            "runs_with_faults": tot.get("faulty_runs").copied().unwrap_or(0.0) as u64,
            "faults_injected": fired,
            "distinct_interleavings": sc.len(),
            "interleaving_measure": "distinct sequences of (which task or thread ran) per run",
            "longest_choice_sequence": draws_max,
            "rare_conditions_reached": probes,
            "workers": nw,
            "real_code": p.real,
            "stubs": p.stub,
            "known_findings_met": known_n.values().sum::<u64>(),
            "exhaustive": false
        }
    });
    let d = root().join("evidence");
    std::fs::create_dir_all(&d).unwrap();
    let mut f = std::fs::File::create(d.join(format!("{}.json", p.id))).unwrap();
    f.write_all(serde_json::to_string_pretty(&e).unwrap().as_bytes()).unwrap();
    println!(
        "{}: {} runs in {:.1}s, {} distinct non-trivial, {} interleavings, {:.0}s simulated, faults {:?}",
        p.id,
        runs,
        wall,
        hs.len(),
        sc.len(),
        tot.get("sim_s").copied().unwrap_or(0.0),
        fired
    );
}

// ------------------------------------------------------------------ determinism

/// `hashes PROP SEED FROM TO OUT`: the log hash of each run, for comparison between processes.
fn hashes(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let (from, to, stride): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[5].parse().unwrap());
    let mut out = String::new();
    let mut i = from;
    while i < to {
        let r = run_one(p, Chooser::seeded(run_seed(p.id, seed, i)), false);
        if let Some(e) = r.harness_error {
            eprintln!("harness error in run {i}: {e}");
            return 2;
        }
        out.push_str(&format!("{i} {:016x} {:016x} {}\n", r.hash, r.sched, r.draws.len()));
        i += stride;
    }
    std::fs::write(&a[4], out).unwrap();
    0
}
fn selftest(runs: u64, only: &[String]) -> i32 {
    let mut bad = 0;
    for p in crate::PROPS.iter().filter(|p| only.is_empty() || only.iter().any(|o| o == p.id)) {
        let dir = work(p.id);
        let mut maps: Vec<BTreeMap<u64, String>> = Vec::new();
        for (round, strides) in [(0u64, 1u64), (1, 3), (2, 8), (3, 8)] {
            let mut kids = Vec::new();
            for k in 0..strides {
                let out = dir.join(format!("h{round}-{k}"));
                let c = Command::new(std::env::current_exe().unwrap())
                    .args(["hashes", p.id, "7", &k.to_string(), &runs.to_string(), out.to_str().unwrap(), &strides.to_string()])
                    .env("SOME_ENV", "x".repeat(round as usize * 1000))
                    .stdout(Stdio::null())
                    .spawn()
                    .unwrap();
                kids.push((c, out));
            }
            let mut m = BTreeMap::new();
            for (mut c, out) in kids {
                let _ = c.wait();
                for l in std::fs::read_to_string(out).unwrap_or_default().lines() {
                    let (i, h) = l.split_once(' ').unwrap();
                    m.insert(i.parse().unwrap(), h.to_string());
                }
            }
            maps.push(m);
        }
        let diff = (0..runs).filter(|i| maps.iter().any(|m| m.get(i).is_none() || m.get(i) != maps[0].get(i))).collect::<Vec<_>>();
        println!("{}: {} runs x 4 process layouts, {} differ {:?}", p.id, runs, diff.len(), diff.iter().take(5).collect::<Vec<_>>());
        bad += diff.len();
        let _ = std::fs::remove_dir_all(&dir);
    }
    (bad > 0) as i32
}

/// What std and the libraries initialise once per process must not happen inside a run.
fn warm_up() {
    let _ = format!("{:?}", anyhow::anyhow!("warm-up").context("c"));
    let _ = std::panic::catch_unwind(|| std::panic::panic_any(HarnessError("warm-up".into())));
    let _ = std::panic::catch_unwind(|| panic!("warm-up {}", std::env::args().count()));
    let _ = ctx::last_panic();
    let _ = crate::keys::pools();
    for h in crate::store::HASHERS {
        let _ = crate::store::cid_of(*h, b"warm-up").to_string();
    }
}

pub fn main() {
    ctx::set_panic_hook();
    warm_up();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let rc = match a.first().map(|s| s.as_str()) {
        Some("check") => check(&a[1]),
        Some("worker") => worker(&a[1..]),
        Some("one") => one(&a[1..]),
        Some("hashes") => hashes(&a[1..]),
        Some("replay") => replay(&a[1]),
        Some("selftest") => selftest(a.get(1).and_then(|s| s.parse().ok()).unwrap_or(300), a.get(2..).unwrap_or(&[])),
        _ => {
            eprintln!("usage: ucansim check ID | replay FILE | selftest [RUNS]");
            2
        }
    };
    std::process::exit(rc);
}
