//! Schema registry replicas: publishers push their subgraphs over a lossy network, each replica keeps what it got on
//! disk, composes whenever that changes, crashes and restarts.
use crate::supply::Sub;
use crate::{conflict, expect, publish, sdl, supply};
use graphql_composition as gc;
use simkit::Sim;
use simkit::runner::{Prop, Scenario};
use std::collections::BTreeMap;

/// What composing a set of subgraphs came to.
#[derive(Clone, PartialEq, Debug)]
pub struct Outcome {
    pub graph: Option<(String, String)>,
    pub diagnostics: Vec<String>,
}

/// name → (version, url, SDL); `None` once withdrawn.
type State = BTreeMap<String, (u64, Option<(Option<String>, String)>)>;

/// Runs `f` as a process of its own would: hash tables get other seeds.
pub fn process<T: Send + 'static>(sim: &Sim, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let inner = sim.clone();
    let joined = std::thread::spawn(move || {
        simkit::set_current(Some(inner));
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| simkit::take_panic())
    })
    .join();
    match joined {
        Ok(Ok(t)) => Some(t),
        Ok(Err(p)) => {
            let (loc, msg) = p.unwrap_or_default();
            let v = simkit::panic_violation(&loc, &msg);
            if simkit::is_harness_location(&loc) {
                panic!("harness: {loc}: {msg}");
            }
            sim.violate(v.kind, v.message);
            None
        }
        Err(_) => panic!("thread"),
    }
}

pub fn compose(subs: &[(String, Option<String>, String)]) -> Outcome {
    let mut subgraphs = gc::Subgraphs::default();
    for (name, url, sdl) in subs {
        if let Err(e) = subgraphs.ingest_str(sdl, name, url.as_deref()) {
            return Outcome { graph: None, diagnostics: vec![format!("{e}")] };
        }
    }
    let result = gc::compose(&mut subgraphs);
    let diagnostics = result.diagnostics().iter().map(|d| format!("{:?} {}", d.severity(), d.message())).collect();
    let graph = result.into_result().ok().map(|g| (gc::render_federated_sdl(&g).unwrap(), gc::render_api_sdl(&g)));
    Outcome { graph, diagnostics }
}

struct Replica {
    disk: State,
    /// The graph on disk, and for which state it was composed.
    stored: Option<(String, Outcome)>,
    up: bool,
}

#[derive(Clone)]
struct Msg {
    epoch: u64,
    name: String,
    body: Option<(Option<String>, String)>,
}

enum Ev {
    Arrive(usize, Msg),
    Crash(usize),
    Restart(usize),
    Sync(usize, usize),
}

pub struct Epoch {
    pub subs: Vec<Sub>,
    /// Why it can't be composed.
    pub conflict: Option<&'static str>,
    pub texts: Vec<String>,
}

fn key(state: &State) -> String {
    state.iter().filter(|(_, v)| v.1.is_some()).map(|(n, v)| format!("{n}@{}", v.0)).collect::<Vec<_>>().join(" ")
}

fn live(state: &State) -> Vec<(String, Option<String>, String)> {
    state.iter().filter_map(|(n, (_, b))| b.as_ref().map(|(u, s)| (n.clone(), u.clone(), s.clone()))).collect()
}

pub fn make_epoch(sim: &Sim, conflicts: bool) -> Epoch {
    let mut subs = supply::release(sim);
    supply::link(sim, &mut subs);
    subs.sort_by(|a, b| a.name.cmp(&b.name));
    let mut conflict = None;
    if conflicts && sim.chance(450) {
        conflict = conflict::inject(sim, &mut subs);
        subs.sort_by(|a, b| a.name.cmp(&b.name));
    }
    let texts = subs.iter().map(|s| publish::text(sim, s)).collect();
    Epoch { subs, conflict, texts }
}

fn run(sim: &Sim, meaning: bool) {
    let epochs: Vec<Epoch> = (0..1 + sim.choose(if meaning { 2 } else { 3 })).map(|_| make_epoch(sim, true)).collect();
    let n = if meaning { 2 } else { 2 + sim.choose(2) as usize };
    let mut replicas: Vec<Replica> = (0..n).map(|_| Replica { disk: State::new(), stored: None, up: true }).collect();
    let mut queue: Vec<(u64, u64, Ev)> = vec![];
    let mut seq = 0;
    let mut push = |queue: &mut Vec<(u64, u64, Ev)>, at: u64, ev: Ev| {
        seq += 1;
        queue.push((at, seq, ev));
    };
    let lossy = sim.chance(500);
    let mut at = 0;
    let mut published: BTreeMap<String, ()> = BTreeMap::new();
    for (i, e) in epochs.iter().enumerate() {
        at += sim.log_range(1, 10_000_000_000);
        let epoch = i as u64 + 1;
        let mut msgs: Vec<Msg> = vec![];
        for (s, t) in e.subs.iter().zip(&e.texts) {
            msgs.push(Msg { epoch, name: s.name.clone(), body: Some((s.url.clone(), t.clone())) });
        }
        for gone in published.keys().filter(|n| !e.subs.iter().any(|s| s.name == **n)) {
            msgs.push(Msg { epoch, name: gone.clone(), body: None });
        }
        for s in &e.subs {
            published.insert(s.name.clone(), ());
        }
        for m in msgs {
            for r in 0..n {
                if lossy && sim.chance(200) {
                    sim.fault("message lost");
                    continue;
                }
                push(&mut queue, at + sim.log_range(1, 20_000_000_000), Ev::Arrive(r, m.clone()));
                if lossy && sim.chance(150) {
                    sim.fault("message duplicated");
                    push(&mut queue, at + sim.log_range(1, 60_000_000_000), Ev::Arrive(r, m.clone()));
                }
            }
        }
    }
    for _ in 0..sim.choose(3) {
        let r = sim.choose(n as u32) as usize;
        let t = sim.range(0, at + 20_000_000_000);
        push(&mut queue, t, Ev::Crash(r));
        push(&mut queue, t + sim.log_range(1, 20_000_000_000), Ev::Restart(r));
    }
    // Anti-entropy, once the network has calmed down.
    let end = at + 100_000_000_000;
    for a in 0..n {
        for b in 0..n {
            if a != b {
                push(&mut queue, end + (a * n + b) as u64, Ev::Sync(a, b));
                push(&mut queue, end + 1000 + (a * n + b) as u64, Ev::Sync(a, b));
            }
        }
    }
    let mut known: BTreeMap<String, Outcome> = BTreeMap::new();
    // Composition is costly: bursts are composed once, at the next tick of the replica.
    let mut seen_full = vec![false; epochs.len()];
    while !queue.is_empty() {
        let i = (0..queue.len()).min_by_key(|i| (queue[*i].0, queue[*i].1)).unwrap();
        let (t, _, ev) = queue.swap_remove(i);
        if t > sim.now_ns() {
            sim.advance_ns(t - sim.now_ns());
        }
        let r = match ev {
            Ev::Arrive(r, m) => {
                if !replicas[r].up {
                    sim.fault("message to a replica that is down");
                    continue;
                }
                sim.event_with(r as u64, || format!("{r} gets {}@{}", m.name, m.epoch));
                let have = replicas[r].disk.get(&m.name).map_or(0, |v| v.0);
                if m.epoch < have {
                    sim.fault("message out of order");
                }
                if m.epoch <= have {
                    continue;
                }
                replicas[r].disk.insert(m.name, (m.epoch, m.body));
                r
            }
            Ev::Crash(r) => {
                sim.fault("replica crash");
                sim.event_with(r as u64, || format!("{r} crashes"));
                replicas[r].up = false;
                continue;
            }
            Ev::Restart(r) => {
                sim.event_with(r as u64, || format!("{r} restarts"));
                replicas[r].up = true;
                // Serves the graph it has on disk; it says what it said.
                if let Some((_, Outcome { graph: Some((fed, api)), .. })) = &replicas[r].stored {
                    let f = fed.clone();
                    let Some(back) = process(sim, move || gc::FederatedGraph::from_sdl(&f).map(|g| (gc::render_federated_sdl(&g).unwrap(), gc::render_api_sdl(&g))).map_err(|e| e.to_string())) else { return };
                    reread(sim, fed, api, back);
                }
                if sim.chance(500) {
                    replicas[r].stored = None;
                    sim.fault("stored graph lost");
                }
                r
            }
            Ev::Sync(a, b) => {
                let theirs = replicas[b].disk.clone();
                for (n, v) in theirs {
                    if replicas[a].disk.get(&n).map_or(0, |h| h.0) < v.0 {
                        replicas[a].disk.insert(n, v);
                    }
                }
                a
            }
        };
        if sim.violated() {
            return;
        }
        let state = replicas[r].disk.clone();
        let k = key(&state);
        if k.is_empty() || replicas[r].stored.as_ref().is_some_and(|s| s.0 == k) {
            continue;
        }
        let full = full_epoch(&epochs, &state);
        // States between releases matter to replica agreement only.
        if meaning && full.is_none_or(|e| seen_full[e]) {
            continue;
        }
        let subs = live(&state);
        if std::env::var_os("SIM_LOG").is_some() {
            eprintln!("=== {}", subs.iter().map(|(n, u, s)| format!("--- {n} {u:?}\n{s}")).collect::<Vec<_>>().join("\n"));
        }
        let Some(out) = process(sim, move || compose(&subs)) else { return };
        sim.count(if out.graph.is_some() { "composed" } else { "rejected" });
        if meaning {
            let e = full.unwrap();
            seen_full[e] = true;
            let epoch = &epochs[e];
            judge(sim, epoch, &out);
        } else {
            match known.get(&k) {
                None => {
                    if let Some((fed, api)) = &out.graph {
                        sim.nontrivial();
                        let f = fed.clone();
                        let Some(back) = process(sim, move || gc::FederatedGraph::from_sdl(&f).map(|g| (gc::render_federated_sdl(&g).unwrap(), gc::render_api_sdl(&g))).map_err(|e| e.to_string())) else { return };
                        reread(sim, fed, api, back);
                    }
                    known.insert(k.clone(), out.clone());
                }
                Some(was) => {
                    sim.count("compared");
                    same(sim, &k, was, &out);
                }
            }
        }
        if sim.violated() {
            return;
        }
        replicas[r].stored = Some((k, out));
    }
    let keys: Vec<String> = replicas.iter().map(|r| key(&r.disk)).collect();
    if keys.iter().any(|k| *k != keys[0]) {
        panic!("replicas didn't converge");
    }
    // The last release reached everyone.
    if meaning {
        let last = epochs.len() - 1;
        let subs: Vec<_> = epochs[last].subs.iter().zip(&epochs[last].texts).map(|(s, t)| (s.name.clone(), s.url.clone(), t.clone())).collect();
        if !seen_full[last] {
            let Some(out) = process(sim, move || compose(&subs)) else { return };
            judge(sim, &epochs[last], &out);
        }
    }
}

fn full_epoch(epochs: &[Epoch], state: &State) -> Option<usize> {
    epochs.iter().enumerate().position(|(i, e)| {
        let live: Vec<_> = state.iter().filter(|(_, v)| v.1.is_some()).collect();
        live.len() == e.subs.len() && live.iter().all(|(n, v)| v.0 == i as u64 + 1 && e.subs.iter().any(|s| s.name == **n))
    })
}

fn first_difference(a: &str, b: &str) -> String {
    let (a, b): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            return format!("line {}: {:?} / {:?}", i + 1, a.get(i), b.get(i));
        }
    }
    "no difference".into()
}

fn same(sim: &Sim, k: &str, a: &Outcome, b: &Outcome) {
    sim.check(a.diagnostics == b.diagnostics, "diagnostics-diverge", || format!("[{k}] {:?} / {:?}", a.diagnostics, b.diagnostics));
    match (&a.graph, &b.graph) {
        (Some((f1, a1)), Some((f2, a2))) => {
            sim.check(f1 == f2, "federated-graph-diverges", || format!("[{k}] {}", first_difference(f1, f2)));
            sim.check(a1 == a2, "api-schema-diverges", || format!("[{k}] {}", first_difference(a1, a2)));
        }
        (None, None) => {}
        _ => sim.violate("acceptance-diverges", format!("[{k}] composed on one replica only: {:?}", b.diagnostics)),
    }
}

fn reread(sim: &Sim, fed: &str, api: &str, back: Result<(String, String), String>) {
    sim.count("read back");
    match back {
        Err(e) => sim.violate("composed-graph-unreadable", format!("{e}\n{fed}")),
        Ok((f, a)) => {
            sim.check(f == fed, "federated-graph-changed-by-restart", || first_difference(fed, &f));
            sim.check(a == api, "api-schema-changed-by-restart", || first_difference(api, &a));
        }
    }
}

fn diff(want: &BTreeMap<String, usize>, got: &BTreeMap<String, usize>) -> Option<String> {
    let mut out = vec![];
    // Whether directives of linked schemas that several subgraphs apply alike are repeated is left open.
    let open = |f: &str| f.contains(" @markNote") || f.contains(" @markLog");
    for (f, n) in want {
        let m = got.get(f).copied().unwrap_or(0);
        if m != *n && !(m > 0 && open(f)) {
            out.push(format!("missing: {f}{}", if m > 0 { format!(" ({m} of {n})") } else { String::new() }));
        }
    }
    for (f, n) in got {
        let m = want.get(f).copied().unwrap_or(0);
        if m < *n && !(m > 0 && open(f)) {
            out.push(format!("extra: {f}{}", if m > 0 { format!(" ({n} rather than {m})") } else { String::new() }));
        }
    }
    out.sort_by_key(|l| l.split_once(": ").map(|(_, r)| r.to_string()));
    (!out.is_empty()).then(|| out.join("\n  "))
}

fn judge(sim: &Sim, epoch: &Epoch, out: &Outcome) {
    sim.nontrivial();
    let show = || epoch.subs.iter().zip(&epoch.texts).map(|(s, t)| format!("--- {}\n{t}", s.name)).collect::<Vec<_>>().join("\n");
    if let Some(why) = epoch.conflict {
        sim.count(why);
        sim.check(out.graph.is_none(), "conflict-accepted", || format!("{why}\n{}", show()));
        return;
    }
    let Some((fed, api)) = &out.graph else {
        sim.violate("release-rejected", format!("{:?}\n{}", out.diagnostics, show()));
        return;
    };
    let want = expect::compose(&epoch.subs);
    let got = match sdl::parse(fed) {
        Ok(d) => d,
        Err(e) => return sim.violate("federated-graph-unreadable", format!("{e}\n{fed}")),
    };
    if let Some(e) = got.def("extension__Link") {
        let twice = e.values.iter().enumerate().find(|(i, v)| e.values[..*i].iter().any(|w| w.name == v.name));
        if let Some((_, v)) = twice {
            sim.violate("extensions-share-a-name", format!("{}\n{}", v.name, show()));
            return;
        }
    }
    if let Some(d) = diff(&sdl::facts(&want), &sdl::facts(&got)) {
        sim.violate("federated-graph-differs", format!("\n  {d}\n{}", show()));
        return;
    }
    let got = match sdl::parse(api) {
        Ok(d) => d,
        Err(e) => return sim.violate("api-schema-unreadable", format!("{e}\n{api}")),
    };
    let got = sdl::facts(&got);
    let hiding = diff(&sdl::facts(&expect::api(&want, false)), &got);
    if hiding.is_some() && diff(&sdl::facts(&expect::api(&want, true)), &got).is_none() {
        sim.violate("api-schema-shows-inaccessible-argument", format!("\n  {}\n{}", hiding.unwrap(), show()));
        return;
    }
    if let Some(d) = hiding {
        sim.violate("api-schema-differs", format!("\n  {d}\n{}", show()));
    }
}

const REAL: &[&str] = &["graphql-composition: ingestion, validation, composition, federated graph emission, SDL rendering, from_sdl", "cynic-parser"];
const STUB: &[&str] = &["registry replicas, publishers and their network", "hash seeds come from the simulator"];

pub fn replicas() -> Prop {
    Prop {
        id: "C01",
        scenarios: vec![Scenario { name: "replicas", weight: 1, run: |s| run(s, false) }],
        rule: "a run counts if some replica composed a graph that was then read back from disk or compared with another's",
        real: REAL,
        stub: STUB,
        assumptions: &["replicas ingest subgraphs in name order"],
        quick: (35, 100_000),
        thorough: (600, 10_000_000),
    }
}

pub fn meaning() -> Prop {
    Prop {
        id: "C02",
        scenarios: vec![Scenario { name: "releases", weight: 1, run: |s| run(s, true) }],
        rule: "a run counts if a complete release was composed and judged",
        real: REAL,
        stub: STUB,
        assumptions: &["the reference composition in expect.rs states federation's rules as the documentation and the test suite have them"],
        quick: (35, 100_000),
        thorough: (600, 10_000_000),
    }
}
