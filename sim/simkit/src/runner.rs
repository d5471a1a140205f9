//! Seeded search, minimisation, replay and evidence.
use crate::{RunReport, Sim, Violation, hooks, libc, mix, run_one};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Scenario {
    pub name: &'static str,
    pub weight: u32,
    pub run: fn(&Sim),
}

pub struct Prop {
    pub id: &'static str,
    pub scenarios: Vec<Scenario>,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Seconds of search and cap on runs: quick, then thorough.
    pub quick: (u64, u64),
    pub thorough: (u64, u64),
}

const VERIF: &str = "/verif";
const STUCK_S: u64 = 60;

struct Found {
    index: u64,
    scenario: usize,
    tape: Vec<u32>,
    entropy: u64,
    violation: Violation,
}

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    sim_ns: u128,
    draws: u64,
    faults: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    nontrivial_hashes: HashSet<u64>,
    per_scenario: BTreeMap<String, u64>,
    known: BTreeMap<String, (u64, String)>,
    found: Vec<Found>,
    found_docs: Vec<Value>,
    harness: Option<String>,
    samples: Vec<Value>,
}

pub struct Known {
    pub signature: String,
    pub text: String,
}

/// `finding: property=<id> signature="<violation kind>" <what fails>` lines of known-findings.txt.
fn load_known(id: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(format!("{VERIF}/known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("property={id} "))?;
            let rest = l.strip_prefix("signature=\"")?;
            let (sig, text) = rest.split_once('"')?;
            Some(Known { signature: sig.to_string(), text: text.trim().to_string() })
        })
        .collect()
}

fn seed_of(base: u64, id: &str, i: u64) -> u64 {
    mix(crate::hash_str(base, id) ^ mix(i))
}

fn pick_scenario(p: &Prop, seed: u64) -> usize {
    let total: u32 = p.scenarios.iter().map(|s| s.weight).sum();
    let mut v = (mix(seed ^ 0xabcdef) % total as u64) as u32;
    for (i, s) in p.scenarios.iter().enumerate() {
        if v < s.weight {
            return i;
        }
        v -= s.weight;
    }
    0
}

/// Main of a check binary: `<bin> check <id> <quick|thorough>`, `<bin> replay <file>`,
/// `<bin> selftest <id>`, `<bin> trace <id> <run index>`.
pub fn main(props: Vec<Prop>) -> ! {
    crate::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(3)
        })
    };
    let a: Vec<&str> = args.iter().skip(1).map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", id, tier] => check(find(id), tier),
        ["worker", id, tier, k, n, out] => worker(find(id), tier, k.parse().unwrap(), n.parse().unwrap(), out),
        ["replay", file] => replay(&props, file),
        ["selftest", id] => selftest(find(id)),
        ["trace", id, idx] => trace(find(id), idx.parse().unwrap()),
        ["list"] => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check <id> <quick|thorough> | replay <file> | selftest <id> | trace <id> <n>");
            3
        }
    };
    std::process::exit(code)
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn workers() -> usize {
    std::env::var("VERIF_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).min(8))
}

/// Parent of a check: worker processes (one run at a time each, so that no process-global state is
/// shared between runs), merged here.
fn check(p: &Prop, tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed = env_seed();
    let known = load_known(p.id);
    let n = workers();
    let dir = std::env::temp_dir().join(format!("vsim-check-{}-{}", p.id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let mut kids = Vec::new();
    for k in 0..n {
        let out = dir.join(format!("{k}"));
        let c = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["worker", p.id, tier, &k.to_string(), &n.to_string(), out.to_str().unwrap()])
            .stdin(std::process::Stdio::null())
            .spawn()
            .expect("spawn worker");
        kids.push((c, out, false));
    }
    // A worker that finds a violation stops; the others get a moment to find a shorter one.
    let mut found_at: Option<Instant> = None;
    let mut harness = None;
    loop {
        let mut running = 0;
        for (k, (c, out, done)) in kids.iter_mut().enumerate() {
            if *done {
                continue;
            }
            match c.try_wait() {
                Ok(Some(st)) => {
                    *done = true;
                    match st.code() {
                        Some(0) => {}
                        Some(1) => found_at = found_at.or(Some(Instant::now())),
                        _ => {
                            let last = std::fs::read_to_string(out.with_extension("now")).unwrap_or_default();
                            harness = Some(format!("worker {k} ended with {st} in run {last}"));
                            found_at = found_at.or(Some(Instant::now()));
                        }
                    }
                }
                _ => running += 1,
            }
        }
        if running == 0 {
            break;
        }
        if found_at.is_some_and(|t| t.elapsed() > Duration::from_secs(2)) {
            for (c, _, done) in kids.iter_mut() {
                if !*done {
                    let _ = c.kill();
                    let _ = c.wait();
                    *done = true;
                }
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    let mut t = Totals { harness, ..Default::default() };
    for (_, out, _) in &kids {
        merge(&mut t, out);
    }
    let _ = std::fs::remove_dir_all(&dir);
    conclude(p, tier, seed, t, &known, t0)
}

/// One worker: runs `k`, `k + n`, ... one at a time.
fn worker(p: &Prop, tier: &str, k: u64, n: u64, out: &str) -> i32 {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    let t0 = Instant::now();
    let seed = env_seed();
    let (secs, max_runs) = if tier == "thorough" { p.thorough } else { p.quick };
    let secs = std::env::var("VERIF_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(secs);
    let known = load_known(p.id);
    let mut t = Totals::default();
    let slot: Arc<Mutex<Option<(Sim, u64, usize)>>> = Default::default();
    let (s2, id, names) = (slot.clone(), p.id, p.scenarios.iter().map(|s| s.name).collect::<Vec<_>>());
    let out2 = out.to_string();
    // Watchdog: a run that makes no progress in real time is a violation of its own.
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let s = s2.lock().unwrap();
            let Some((sim, i, sc)) = &*s else { continue };
            let age = hooks::real_mono_ns() - sim.0.started_real.load(Ordering::Relaxed);
            if age > STUCK_S * 1_000_000_000 || sim.0.runaway.load(Ordering::Relaxed) {
                let (tape, entropy) = (0..100).find_map(|_| {
                    std::thread::sleep(Duration::from_millis(5));
                    sim.try_tape()
                }).unwrap_or_default();
                let f = json!({"index": i, "scenario": names[*sc], "tape": tape, "entropy": entropy.to_string(), "kind": STUCK,
                    "message": format!("run {i} of {id} did not end: still running after {} s of real time and {} draws", age / 1_000_000_000, tape.len())});
                let _ = std::fs::write(&out2, json!({"found": f}).to_string());
                unsafe { libc::_exit(1) };
            }
        }
    });
    let mut i = k;
    let mut done = 0;
    let mut stop = false;
    while !stop && i < max_runs && (done < 8 || t0.elapsed() < Duration::from_secs(secs)) {
        let s = seed_of(seed, p.id, i);
        let sc = pick_scenario(p, s);
        if done % 64 == 0 {
            let _ = std::fs::write(format!("{out}.now"), i.to_string());
        }
        let sim = Sim::random(s, i < 3);
        *slot.lock().unwrap() = Some((sim.clone(), i, sc));
        let r = run_one(&sim, p.scenarios[sc].run);
        *slot.lock().unwrap() = None;
        absorb(&mut t, p, sc, i, s, r, &known, &mut stop);
        i += n;
        done += 1;
    }
    let raw = |h: &HashSet<u64>| h.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<u8>>();
    let _ = std::fs::write(format!("{out}.h"), raw(&t.hashes));
    let _ = std::fs::write(format!("{out}.nh"), raw(&t.nontrivial_hashes));
    let found = t.found.first().map(|f| {
        json!({"index": f.index, "scenario": p.scenarios[f.scenario].name, "tape": f.tape, "entropy": f.entropy.to_string(),
            "kind": f.violation.kind, "message": f.violation.message})
    });
    let doc = json!({
        "runs": t.runs, "nontrivial": t.nontrivial, "sim_ns": (t.sim_ns as f64), "draws": t.draws, "faults": t.faults,
        "counters": t.counters, "per_scenario": t.per_scenario,
        "known": t.known.iter().map(|(k, v)| (k.clone(), json!([v.0, v.1]))).collect::<serde_json::Map<_, _>>(),
        "found": found, "harness": t.harness, "samples": t.samples,
    });
    if std::fs::write(out, doc.to_string()).is_err() {
        return 2;
    }
    if t.harness.is_some() {
        2
    } else if t.found.is_empty() {
        0
    } else {
        1
    }
}

const STUCK: &str = "no progress";

fn merge(t: &mut Totals, out: &std::path::Path) {
    let Some(d) = std::fs::read_to_string(out).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) else { return };
    t.runs += d["runs"].as_u64().unwrap_or(0);
    t.nontrivial += d["nontrivial"].as_u64().unwrap_or(0);
    t.sim_ns += d["sim_ns"].as_f64().unwrap_or(0.0) as u128;
    t.draws += d["draws"].as_u64().unwrap_or(0);
    for (key, map) in [("faults", &mut t.faults), ("counters", &mut t.counters), ("per_scenario", &mut t.per_scenario)] {
        for (k, v) in d[key].as_object().into_iter().flatten() {
            *map.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
        }
    }
    for (k, v) in d["known"].as_object().into_iter().flatten() {
        t.known.entry(k.clone()).or_insert((0, v[1].as_str().unwrap_or("").into())).0 += v[0].as_u64().unwrap_or(0);
    }
    t.samples.extend(d["samples"].as_array().into_iter().flatten().cloned());
    if let Some(h) = d["harness"].as_str() {
        t.harness = Some(h.to_string());
    }
    if d["found"].is_object() {
        t.found_docs.push(d["found"].clone());
    }
    for (ext, set) in [("h", &mut t.hashes), ("nh", &mut t.nontrivial_hashes)] {
        let raw = std::fs::read(format!("{}.{ext}", out.display())).unwrap_or_default();
        set.extend(raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
}

fn conclude(p: &Prop, tier: &str, seed: u64, mut t: Totals, known: &[Known], t0: Instant) -> i32 {
    for d in std::mem::take(&mut t.found_docs) {
        let Some(sc) = p.scenarios.iter().position(|s| Some(s.name) == d["scenario"].as_str()) else { continue };
        t.found.push(Found {
            index: d["index"].as_u64().unwrap_or(0),
            scenario: sc,
            tape: d["tape"].as_array().into_iter().flatten().map(|v| v.as_u64().unwrap_or(0) as u32).collect(),
            entropy: d["entropy"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0),
            violation: Violation {
                kind: d["kind"].as_str().unwrap_or("").into(),
                message: d["message"].as_str().unwrap_or("").into(),
            },
        });
    }
    t.samples.sort_by_key(|s| s["run"].as_u64());
    if let Some(h) = &t.harness {
        eprintln!("HARNESS ERROR property={} {h}", p.id);
        write_evidence(p, tier, seed, &t, t0, 0, json!(null));
        if t.found.is_empty() {
            return 2;
        }
    }
    t.found.sort_by_key(|f| f.index);
    // Listed findings: each must be shown to still fail; a replayable reproducer is tried when search did not meet it.
    for k in known {
        let hit = t.known.get(&k.signature).cloned();
        match hit {
            Some((n, _)) => println!("KNOWN-FINDING: property={} {} [seen in {n} runs]", p.id, k.text),
            None => println!("KNOWN-FINDING: property={} {} [not met by this run]", p.id, k.text),
        }
    }
    // Determinism: the same seeds again must leave the same histories.
    let mut redone = 0;
    let mut differing = 0;
    if t.found.is_empty() {
        let dt = Instant::now();
        for i in 0..16.min(t.runs) {
            let s = seed_of(seed, p.id, i);
            let sc = pick_scenario(p, s);
            let r = run_one(&Sim::random(s, false), p.scenarios[sc].run);
            redone += 1;
            if !t.hashes.contains(&r.trace_hash) {
                differing += 1;
            }
            if dt.elapsed() > Duration::from_secs(5) {
                break;
            }
        }
    }
    let det = json!({"seeds_rerun": redone, "histories_differing": differing});
    let nviol = t.found.len() as u64;
    write_evidence(p, tier, seed, &t, t0, nviol, det);
    if t.found.is_empty() {
        println!(
            "{} {}: held on {} runs ({} distinct histories, {:.1} s simulated) in {:.1} s",
            p.id, tier, t.runs, t.hashes.len(), t.sim_ns as f64 / 1e9, t0.elapsed().as_secs_f64()
        );
        return 0;
    }
    let f = t.found.remove(0);
    report(p, f, seed)
}

fn absorb(
    t: &mut Totals, p: &Prop, sc: usize, i: u64, seed: u64, r: RunReport, known: &[Known], stop: &mut bool,
) {
    t.runs += 1;
    t.sim_ns += r.sim_ns as u128;
    t.draws += r.draws;
    *t.per_scenario.entry(p.scenarios[sc].name.to_string()).or_default() += 1;
    for (k, v) in &r.faults {
        *t.faults.entry(k.to_string()).or_default() += v;
    }
    for (k, v) in &r.counters {
        *t.counters.entry(k.to_string()).or_default() += v;
    }
    if t.hashes.len() < 4_000_000 {
        t.hashes.insert(r.trace_hash);
    }
    if r.nontrivial {
        t.nontrivial += 1;
        if t.nontrivial_hashes.len() < 4_000_000 {
            t.nontrivial_hashes.insert(mix(r.trace_hash ^ sc as u64));
        }
    }
    if i < 3 {
        let tr: Vec<_> = r.trace.iter().take(60).cloned().collect();
        t.samples.push(json!({"run": i, "seed": seed.to_string(), "scenario": p.scenarios[sc].name, "faults": r.faults, "history": tr}));
    }
    if let Some(h) = r.harness_error {
        t.harness = Some(format!("run {i} seed {seed}: {h}"));
        *stop = true;
        return;
    }
    if let Some(v) = r.violation {
        if v.kind == "HARNESS" {
            t.harness = Some(format!("run {i} seed {seed}: {}", v.message));
            *stop = true;
            return;
        }
        if known.iter().any(|k| k.signature == v.kind) {
            let e = t.known.entry(v.kind.clone()).or_insert((0, v.message.clone()));
            e.0 += 1;
            return;
        }
        t.found.push(Found { index: i, scenario: sc, tape: r.tape, entropy: r.entropy, violation: v });
        *stop = true;
    }
}

fn replay_path(id: &str, i: u64) -> String {
    let _ = std::fs::create_dir_all(format!("{VERIF}/replays"));
    format!("{VERIF}/replays/{id}-{i}.json")
}

fn minimise(p: &Prop, f: &Found, budget: Duration) -> (Vec<u32>, u64) {
    let run = p.scenarios[f.scenario].run;
    let t0 = Instant::now();
    let tries = std::cell::Cell::new(0u64);
    let stuck = f.violation.kind == STUCK;
    let fails = |tape: &[u32]| -> bool {
        tries.set(tries.get() + 1);
        // In a child process: a candidate may not return, or leave process-global state behind.
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let r = run_one(&Sim::replay(tape.to_vec(), f.entropy, false), run);
            let y = r.harness_error.is_none() && r.violation.is_some_and(|v| v.kind == f.violation.kind);
            unsafe { libc::_exit(if y { 1 } else { 0 }) };
        }
        let t = Instant::now();
        let limit = Duration::from_secs(if stuck { 5 } else { 20 });
        loop {
            let mut st = 0;
            if unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) } == pid {
                return libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 1;
            }
            if t.elapsed() > limit {
                unsafe {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                }
                return stuck;
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    };
    let mut best = f.tape.clone();
    if !fails(&best) {
        return (best, tries.get());
    }
    // Cut the tail first (an exhausted tape draws zeros), then blocks, then values.
    let (mut lo, mut hi) = (0, best.len());
    while lo < hi && t0.elapsed() < budget {
        let mid = (lo + hi) / 2;
        if fails(&best[..mid]) { hi = mid } else { lo = mid + 1 }
    }
    if hi < best.len() && fails(&best[..hi]) {
        best.truncate(hi);
    }
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).next_power_of_two().min(256).max(1);
        loop {
            let mut at = 0;
            while at < best.len() && t0.elapsed() < budget {
                let end = (at + size).min(best.len());
                let mut cand = best.clone();
                cand.drain(at..end);
                if fails(&cand) {
                    best = cand;
                    continue;
                }
                if best[at..end].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[at..end].fill(0);
                    if fails(&cand) {
                        best = cand;
                    }
                }
                at = end;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut at = 0;
        while at < best.len() && t0.elapsed() < budget {
            let (mut lo, mut hi) = (0u32, best[at]);
            while lo < hi && t0.elapsed() < budget {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[at] = mid;
                if fails(&cand) { hi = mid; best = cand } else { lo = mid + 1 }
            }
            at += 1;
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before || t0.elapsed() >= budget {
            break;
        }
    }
    if !fails(&best) {
        return (f.tape.clone(), tries.get());
    }
    (best, tries.get())
}

/// Seconds spent on minimising.
fn env_minimise() -> u64 {
    std::env::var("VERIF_MINIMISE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(15)
}

fn report(p: &Prop, f: Found, seed: u64) -> i32 {
    if f.violation.kind == STUCK {
        // Executing it again does not return: there is no history to record.
        let (tape, tries) = minimise(p, &f, Duration::from_secs(90));
        let path = replay_path(p.id, f.index);
        let doc = json!({"property": p.id, "scenario": p.scenarios[f.scenario].name, "verif_seed": seed, "run": f.index,
            "kind": STUCK, "message": f.violation.message, "entropy": f.entropy.to_string(), "tape": tape,
            "minimised": {"draws_before": f.tape.len(), "draws_after": tape.len(), "executions": tries}});
        let _ = std::fs::write(&path, doc.to_string());
        println!("VIOLATION property={} replay={path}", p.id);
        println!("  {}: {}", f.violation.kind, f.violation.message);
        return 1;
    }
    let (tape, tries) = minimise(p, &f, Duration::from_secs(env_minimise()));
    let r = run_one(&Sim::replay(tape.clone(), f.entropy, true), p.scenarios[f.scenario].run);
    let v = r.violation.clone().unwrap_or_else(|| f.violation.clone());
    let path = replay_path(p.id, f.index);
    let doc = json!({
        "property": p.id, "scenario": p.scenarios[f.scenario].name, "verif_seed": seed, "run": f.index,
        "kind": v.kind, "message": v.message, "entropy": f.entropy.to_string(), "tape": tape,
        "minimised": {"draws_before": f.tape.len(), "draws_after": tape.len(), "executions": tries},
        "history_hash": r.trace_hash.to_string(), "history": r.trace, "faults": r.faults,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
    // Replay in a fresh process.
    let again = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["replay", &path])
        .output()
        .map(|o| o.status.code());
    println!("VIOLATION property={} replay={path}", p.id);
    println!("  {}: {}", v.kind, v.message);
    println!(
        "  seed {seed}, run {}, scenario {}; minimised from {} to {} draws; replay in a fresh process: {}",
        f.index, p.scenarios[f.scenario].name, f.tape.len(), tape.len(),
        if matches!(again, Ok(Some(1))) { "same violation" } else { "NOT reproduced" }
    );
    for l in r.trace.iter().rev().take(25).collect::<Vec<_>>().into_iter().rev() {
        println!("  | {l}");
    }
    1
}

fn replay(props: &[Prop], file: &str) -> i32 {
    let doc: Value = match std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(d) => d,
        None => {
            eprintln!("cannot read {file}");
            return 3;
        }
    };
    let id = doc["property"].as_str().unwrap_or("");
    let Some(p) = props.iter().find(|p| p.id == id) else { return 3 };
    let Some(sc) = p.scenarios.iter().find(|s| Some(s.name) == doc["scenario"].as_str()) else { return 3 };
    let tape: Vec<u32> = doc["tape"].as_array().into_iter().flatten().map(|v| v.as_u64().unwrap_or(0) as u32).collect();
    let entropy: u64 = doc["entropy"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0);
    let sim = Sim::replay(tape, entropy, true);
    let (s2, id2, file2) = (sim.clone(), id.to_string(), file.to_string());
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(20));
        for l in s2.trace_so_far() {
            println!("{l}");
        }
        println!("VIOLATION property={id2} replay={file2}");
        println!("  {STUCK}: still running after 20 s of real time");
        unsafe { libc::_exit(1) };
    });
    let r = run_one(&sim, sc.run);
    for l in &r.trace {
        println!("{l}");
    }
    if let Some(h) = r.harness_error {
        eprintln!("HARNESS ERROR {h}");
        return 2;
    }
    match r.violation {
        Some(v) => {
            let same = doc["history_hash"].as_str() == Some(&r.trace_hash.to_string());
            println!("VIOLATION property={id} replay={file}");
            println!("  {}: {} (history {})", v.kind, v.message, if same { "identical" } else { "differs" });
            1
        }
        None => {
            println!("{id}: no violation on this replay");
            0
        }
    }
}

fn selftest(p: &Prop) -> i32 {
    let seed = env_seed();
    let (mut bad, n) = (0, 200);
    for i in 0..n {
        let s = seed_of(seed, p.id, i);
        let sc = pick_scenario(p, s);
        let a = run_one(&Sim::random(s, true), p.scenarios[sc].run);
        let b = run_one(&Sim::random(s, true), p.scenarios[sc].run);
        let c = run_one(&Sim::replay(a.tape.clone(), a.entropy, true), p.scenarios[sc].run);
        if a.trace != b.trace || a.trace != c.trace || a.trace_hash != c.trace_hash {
            bad += 1;
            if bad == 1 {
                println!("run {i} ({}): histories differ", p.scenarios[sc].name);
                for (x, y) in a.trace.iter().zip(b.trace.iter()) {
                    if x != y {
                        println!("  a: {x}\n  b: {y}");
                        break;
                    }
                }
                println!("  lengths {} {} {}", a.trace.len(), b.trace.len(), c.trace.len());
            }
        }
    }
    println!("{}: {bad} of {n} runs not deterministic", p.id);
    (bad > 0) as i32
}

fn trace(p: &Prop, i: u64) -> i32 {
    let s = seed_of(env_seed(), p.id, i);
    let sc = pick_scenario(p, s);
    let r = run_one(&Sim::random(s, true), p.scenarios[sc].run);
    println!("run {i} scenario {}", p.scenarios[sc].name);
    for l in &r.trace {
        println!("{l}");
    }
    println!("faults {:?}\ncounters {:?}\nviolation {:?}\nharness {:?}", r.faults, r.counters, r.violation, r.harness_error);
    0
}

fn write_evidence(p: &Prop, tier: &str, seed: u64, t: &Totals, t0: Instant, violations: u64, det: Value) {
    let wall = t0.elapsed().as_secs_f64().max(0.001);
    let doc = json!({
        "property": p.id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial_hashes.len(),
            "rule": p.rule,
            "samples": t.samples,
            "simulated_runs": t.runs,
            "runs_per_hour": (t.runs as f64 / wall * 3600.0) as u64,
            "seeds_per_hour": (t.runs as f64 / wall * 3600.0) as u64,
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "faults_injected": t.faults,
            "observed": t.counters,
            "distinct_histories": t.hashes.len(),
            "distinct_measure": "64-bit hash of a run's whole event history (schedule, faults, observations)",
            "random_decisions": t.draws,
            "runs_per_scenario": t.per_scenario,
            "determinism": det,
            "known_findings_met": t.known.iter().map(|(k, v)| json!({"signature": k, "runs": v.0})).collect::<Vec<_>>(),
            "real_components": p.real,
            "stub_components": p.stub,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
    let _ = std::fs::write(
        format!("{VERIF}/evidence/{}.json", p.id),
        serde_json::to_string_pretty(&doc).unwrap() + "\n",
    );
}
