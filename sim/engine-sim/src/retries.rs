//! Q03: mutations run in order and at most once. Q04: retries, budgets and deadlines.
use crate::answers::{check_bad, op_mode, reference, same};
use crate::exec::{Db, Exec};
use crate::gateway::{self, Gateway, Reply, request_body};
use crate::gql::{self, J, Kind, Op};
use crate::model::{Gen, Model};
use crate::ops;
use crate::runtime::{ALL_FAULTS, Fault, Seen, Sick, World, world};
use bytes::Bytes;
use futures_util::future::join_all;
use simkit::Sim;
use simkit::runner::{Prop, Scenario};
use std::collections::BTreeMap;
use std::time::Duration;

#[derive(Clone, Copy, Debug)]
pub struct Retry {
    enabled: bool,
    /// Retries per second, TTL in seconds, percentage of successes.
    budget: (u32, u64, f32),
    mutations: bool,
}

impl Retry {
    fn toml(&self) -> String {
        let mut s = format!("enabled = {}\nretry_mutations = {}\n", self.enabled, self.mutations);
        let (per_second, ttl, percent) = self.budget;
        for (text, default) in [
            (format!("min_per_second = {per_second}\n"), per_second == 10),
            (format!("ttl = \"{ttl}s\"\n"), ttl == 10),
            (format!("retry_percent = {percent:?}\n"), percent == 0.2),
        ] {
            if !default {
                s += &text;
            }
        }
        s
    }

    fn generate(sim: &Sim) -> Retry {
        Retry {
            enabled: sim.chance(700),
            budget: (*sim.pick(&[10, 0, 1, 100]), *sim.pick(&[10, 1, 3, 60]), *sim.pick(&[0.2, 0.0, 1.0, 0.5, 3.0])),
            mutations: sim.chance(500),
        }
    }

    /// Retries available without any success.
    fn reserve(&self) -> u64 {
        self.budget.0 as u64 * self.budget.1
    }
}

/// The gateway's configuration as written, and what each subgraph's requests must follow.
pub struct Policy {
    pub toml: String,
    retry: Vec<Option<Retry>>,
    timeout: Vec<Duration>,
    gateway: Duration,
}

impl Policy {
    pub fn generate(sim: &Sim, w: &World, gateway: Duration) -> Policy {
        let global = sim.chance(600).then(|| Retry::generate(sim));
        let mut toml = format!("[gateway]\ntimeout = \"{}ms\"\n", gateway.as_millis());
        let timeout = Duration::from_secs(30);
        if let Some(r) = &global {
            toml += &format!("[gateway.retry]\n{}", r.toml());
        }
        toml += "[[headers]]\nrule = \"forward\"\nname = \"x-sim-request\"\n";
        let (mut retries, mut timeouts) = (vec![], vec![]);
        for name in &w.m.subs {
            let mut own = timeout;
            let mut retry = global;
            if sim.chance(400) {
                own = Duration::from_millis(*sim.pick(&[200, 3000, 100_000]));
                toml += &format!("[subgraphs.{name}]\ntimeout = \"{}ms\"\n", own.as_millis());
            }
            if sim.chance(400) {
                let r = Retry::generate(sim);
                toml += &format!("[subgraphs.{name}.retry]\n{}", r.toml());
                retry = Some(r);
            }
            retries.push(retry.filter(|r| r.enabled));
            timeouts.push(own);
        }
        Policy { toml, retry: retries, timeout: timeouts, gateway }
    }

    fn allows(&self, s: &Seen) -> bool {
        self.retry[s.sub].is_some_and(|r| !s.mutation || r.mutations)
    }
}

/// The mutation fields a request to a subgraph contains, with their arguments.
fn contents(w: &World, s: &Seen) -> Vec<String> {
    let (Ok(body), mut db) = (J::parse(s.body.as_bytes()), Db::default()) else { return vec![] };
    let Some(op) = body.get("query").and_then(J::str).and_then(|q| gql::parse(q).ok()) else { return vec![] };
    let vars = body.get("variables").cloned().unwrap_or(J::Obj(vec![]));
    Exec::new(&w.m, Some(s.sub), &op, &vars, &mut db).run();
    db.log
}

/// Groups of requests that are one request sent again and again.
pub fn attempts<'a>(seen: &[&'a Seen]) -> Vec<Vec<&'a Seen>> {
    let mut groups: Vec<Vec<&Seen>> = vec![];
    for s in seen {
        match groups.iter_mut().find(|g| g[0].plan == s.plan) {
            Some(g) => g.push(s),
            None => groups.push(vec![s]),
        }
    }
    groups
}

fn rules(sim: &Sim, w: &World, p: &Policy, seen: &[&Seen]) {
    for g in attempts(seen) {
        let text = || format!("{} to {} under\n{}", g[0].body, w.m.subs[g[0].sub], p.toml);
        if g.len() > 1 {
            sim.count_n("retries", g.len() as u64 - 1);
            if !p.allows(g[0]) {
                sim.violate("retried against the configuration", format!("{} times {}", g.len(), text()));
            }
        }
        for (i, pair) in g.windows(2).enumerate() {
            if !pair[0].failed || pair[0].done_ns.is_none_or(|d| d > pair[1].sent_ns) {
                sim.violate("sent again without a failure", format!("{:?} before {:?}: {}", pair[0], pair[1], text()));
                return;
            }
            if (pair[0].sub, &pair[0].body) != (pair[1].sub, &pair[1].body) {
                sim.violate("retry differs", format!("{:?} before {:?}", pair[0], pair[1]));
            }
            let wait = (pair[1].sent_ns - pair[0].done_ns.unwrap()) / 1_000_000;
            if wait > 200u64.saturating_mul(1 << i.min(40)) + 1 {
                sim.violate("retry too late", format!("retry {i} after {wait} ms: {}", text()));
            }
        }
        if g[0].timeout != p.timeout[g[0].sub] {
            sim.violate("wrong timeout", format!("{:?} instead of {:?}: {}", g[0].timeout, p.timeout[g[0].sub], text()));
        }
    }
}

fn serial(sim: &Sim, w: &World, op: &str, seen: &[&Seen], want: &[String], all: bool) {
    let sent: Vec<&&Seen> = seen.iter().filter(|s| s.mutation).collect();
    for pair in sent.windows(2) {
        if pair[0].done_ns.is_none_or(|d| d > pair[1].sent_ns) {
            sim.violate("mutations overlap", format!("{} was sent before the end of {}, for {op}", pair[1].body, pair[0].body));
        }
    }
    let mutations: Vec<&Seen> = seen.iter().filter(|s| s.mutation).copied().collect();
    let ran: Vec<String> = attempts(&mutations).iter().flat_map(|g| contents(w, g[0])).collect();
    let mut rest = want.iter();
    let ordered = ran.iter().all(|r| rest.any(|x| x == r));
    if !ordered || all && ran.len() != want.len() {
        sim.violate("mutation fields not run once in order", format!("{ran:?} instead of {want:?} for {op}"));
    }
    sim.count_n("mutation fields", ran.len() as u64);
}

pub fn of<'a>(seen: &'a [Seen], client: u64) -> Vec<&'a Seen> {
    seen.iter().filter(|s| s.client == Some(client)).collect()
}

pub fn make_sick(sim: &Sim, w: &World, limit: u64) {
    for s in 0..w.m.subs.len() {
        if sim.chance(600) {
            let kinds = (0..sim.range(1, 4)).map(|_| *sim.pick(&ALL_FAULTS)).collect();
            w.sick.lock().unwrap().insert(s, Sick { rate: *sim.pick(&[1000, 700, 300]), limit, kinds });
        }
    }
}

fn mutations(sim: &Sim) {
    let m = Model::generate(sim, Gen { mutations: true, ..Gen::default() });
    let w = world(sim, m);
    let p = Policy::generate(sim, &w, Duration::from_millis(*sim.pick(&[1_000_000_000, 60_000, 1000])));
    if sim.chance(700) {
        make_sick(sim, &w, *sim.pick(&[3, 1, 20, u64::MAX]));
    }
    gateway::run(sim, Duration::from_secs(10_000_000), async {
        let Some(sdl) = gateway::compose(&w) else { return };
        let Some(g) = gateway::build(&w, &sdl, &p.toml, op_mode(sim), |_| {}).await else { return };
        let mut jobs = vec![];
        for i in 0..sim.range(1, 4) {
            let kind = if sim.chance(200) { Kind::Query } else { Kind::Mutation };
            let (op, vars) = ops::generate(sim, &w.m, kind, sim.chance(500).then(|| format!("Op{i}")));
            let safe = sim.chance(150);
            let start = if sim.chance(500) { 0 } else { sim.log_range(1, 2_000_000) };
            jobs.push(mutate(&g, &p, i, op, vars, safe, start));
        }
        join_all(jobs).await;
        check_bad(&w);
    });
}

async fn mutate(g: &Gateway, p: &Policy, i: u64, op: Op, vars: J, safe: bool, start: u64) {
    let (w, sim) = (&g.world, &g.world.sim);
    tokio::time::sleep(Duration::from_micros(start)).await;
    let text = op.print();
    sim.event_with(i, || format!("operation {i}{}: {text} with {}", if safe { " (GET)" } else { "" }, vars.text()));
    let mut db = Db::default();
    let (want, _) = reference(w, &op, &vars, &mut db);
    let began = sim.now_ns();
    let header = [("x-sim-request", i.to_string())];
    let reply = if safe { get(g, &text, &vars, &header).await } else { g.post(&request_body(&text, &vars, None), &header).await };
    let took = Duration::from_nanos(sim.now_ns() - began);
    sim.count("operations");
    let timed_out = deadline(sim, w, p, i, &text, &reply, took);
    let net = w.net.lock().unwrap();
    let seen = of(&net.seen, i);
    rules(sim, w, p, &seen);
    if safe && op.kind == Kind::Mutation {
        if reply.status != 405 || !seen.is_empty() {
            sim.violate("mutation with GET", format!("{text} answered {} {}, requests {seen:?}", reply.status, reply.text));
        }
        sim.count("mutations with GET");
        return;
    }
    if op.kind == Kind::Mutation {
        let whole = !timed_out && !want.is_null() && reply.data().is_some_and(|d| !d.is_null());
        serial(sim, w, &text, &seen, &db.log, whole);
    } else if let Some(s) = seen.iter().find(|s| s.mutation) {
        sim.violate("mutation for a query", format!("{} for {text}", s.body));
    }
}

async fn get(g: &Gateway, text: &str, vars: &J, headers: &[(&str, String)]) -> Reply {
    let query = url::form_urlencoded::Serializer::new(String::new())
        .append_pair("query", text)
        .append_pair("variables", &vars.text())
        .finish();
    let mut b = http::Request::builder()
        .method("GET")
        .uri(format!("http://gateway.test/graphql?{query}"))
        .header("accept", "application/json");
    for (k, v) in headers {
        b = b.header(*k, v);
    }
    let resp = g.send(b.body(Bytes::new()).unwrap()).await;
    g.reply(resp).await
}

/// Checks that the gateway kept its own deadline. Returns whether it was reached.
fn deadline(sim: &Sim, w: &World, p: &Policy, i: u64, text: &str, reply: &Reply, took: Duration) -> bool {
    let out = reply.text.contains("Gateway timeout");
    // Timers have a granularity of a millisecond.
    if took > p.gateway + Duration::from_millis(3) {
        sim.violate("deadline missed", format!("{text} took {took:?} with a timeout of {:?}", p.gateway));
    }
    if out {
        sim.count("gateway timeouts");
        if took < p.gateway {
            sim.violate("deadline too early", format!("{text} took {took:?} with a timeout of {:?}", p.gateway));
        }
    }
    let net = w.net.lock().unwrap();
    if !out && of(&net.seen, i).iter().any(|s| s.done_ns.is_none()) {
        sim.violate("answered before its subgraphs", format!("{text} answered {}", reply.text));
    }
    out
}

fn retries(sim: &Sim) {
    let m = Model::generate(sim, Gen::default());
    let w = world(sim, m);
    let p = Policy::generate(sim, &w, Duration::from_secs(1_000_000));
    let limit = *sim.pick(&[2, 5, 30, u64::MAX]);
    make_sick(sim, &w, limit);
    let heal = sim.chance(400);
    gateway::run(sim, Duration::from_secs(10_000_000), async {
        let Some(sdl) = gateway::compose(&w) else { return };
        let Some(g) = gateway::build(&w, &sdl, &p.toml, op_mode(sim), |_| {}).await else { return };
        let n = sim.range(1, 12);
        let pause = *sim.pick(&[0, 1_000_000, 30_000_000]);
        let mut jobs = vec![];
        for i in 0..n {
            let (op, vars) = ops::generate(sim, &w.m, Kind::Query, None);
            let start = if pause == 0 { 0 } else { sim.range(0, pause) };
            jobs.push(query(&g, &p, i, op, vars, start));
        }
        join_all(jobs).await;
        check_bad(&w);
        budget(&w, &p);
        if heal && !sim.violated() {
            // All is well again: so must be the answers.
            w.sick.lock().unwrap().clear();
            let (op, vars) = ops::generate(sim, &w.m, Kind::Query, None);
            let (data, errors) = reference(&w, &op, &vars, &mut Db::default());
            let text = op.print();
            sim.event_with(n, || format!("healed: {text} with {}", vars.text()));
            let reply = g.post(&request_body(&text, &vars, None), &[]).await;
            same(sim, &text, &vars, &data, &errors, &reply);
            sim.count("healed");
        }
        let left = w.net.lock().unwrap().inflight;
        if left != 0 {
            sim.violate("requests left behind", format!("{left} subgraph requests outlive their operations"));
        }
    });
}

async fn query(g: &Gateway, p: &Policy, i: u64, op: Op, vars: J, start: u64) {
    let (w, sim) = (&g.world, &g.world.sim);
    tokio::time::sleep(Duration::from_micros(start)).await;
    let text = op.print();
    sim.event_with(i, || format!("operation {i}: {text} with {}", vars.text()));
    let (data, errors) = reference(w, &op, &vars, &mut Db::default());
    let began = sim.now_ns();
    let reply = g.post(&request_body(&text, &vars, None), &[("x-sim-request", i.to_string())]).await;
    sim.count("operations");
    let timed_out = deadline(sim, w, p, i, &text, &reply, Duration::from_nanos(sim.now_ns() - began));
    let net = w.net.lock().unwrap();
    let seen = of(&net.seen, i);
    rules(sim, w, p, &seen);
    if timed_out {
        return;
    }
    // With a budget that is not used up, every failure that may be retried must be.
    let failures = |sub| net.seen.iter().filter(|s| s.sub == sub && s.failed).count() as u64;
    let ample = |s: &Seen| p.retry[s.sub].is_some_and(|r| r.reserve() >= failures(s.sub));
    let (mut retried, mut final_faults) = (0, 0);
    for a in attempts(&seen) {
        let last = a.last().unwrap();
        retried += a.len() - 1;
        if last.failed && ample(last) {
            sim.violate("not retried", format!("{last:?}, under\n{}", p.toml));
        }
        final_faults += (last.failed || last.fault.is_some()) as u32;
    }
    if final_faults == 0 {
        drop(net);
        same(sim, &text, &vars, &data, &errors, &reply);
        if retried > 0 {
            sim.count("operations saved by retries");
        }
    }
}

/// Retries never exceed the budget.
fn budget(w: &World, p: &Policy) {
    let sim = &w.sim;
    let net = w.net.lock().unwrap();
    let mut ends: BTreeMap<usize, (u64, Vec<u64>)> = BTreeMap::new();
    let all: Vec<&Seen> = net.seen.iter().collect();
    for g in attempts(&all) {
        let e = ends.entry(g[0].sub).or_default();
        e.1.extend(g[1..].iter().map(|s| s.sent_ns));
        e.0 += !g.last().unwrap().failed as u64;
    }
    for (sub, (deposits, mut at)) in ends {
        let Some(r) = &p.retry[sub] else { continue };
        let (_, ttl, percent) = r.budget;
        // As tower rounds.
        let per_deposit = match percent {
            0.0 => 0.0,
            x if x <= 1.0 => 1.0 / (1.0 / x).floor(),
            x => 1000.0 / (1000.0 / x).floor(),
        };
        let most = r.reserve() + (deposits as f32 * per_deposit).ceil() as u64;
        at.sort();
        // A retry is sent after its backoff: withdrawals of one window can be spread over more than it.
        let window = ttl * 1_000_000_000 / 2;
        for (k, t) in at.iter().enumerate() {
            let n = at[k..].iter().take_while(|x| **x - t < window).count() as u64;
            let slack = at.len() as u64 / 2;
            if n > most + if r.reserve() > 0 { slack } else { 0 } {
                sim.violate(
                    "retry budget exceeded",
                    format!("{n} retries to {} within {window} ns, {most} are allowed, under\n{}", w.m.subs[sub], p.toml),
                );
                return;
            }
        }
        if most == 0 {
            sim.count("empty budgets");
        }
    }
}

/// `subgraph_timeout` is a known finding: kept out of the other scenarios.
fn global_timeout(sim: &Sim) {
    let w = world(sim, Model::generate(sim, Gen::default()));
    gateway::run(sim, Duration::from_secs(100_000), async {
        let Some(sdl) = gateway::compose(&w) else { return };
        let Some(g) = gateway::build(&w, &sdl, "[gateway]\nsubgraph_timeout = \"7s\"\n", op_mode(sim), |_| {}).await else { return };
        let (op, vars) = ops::generate(sim, &w.m, Kind::Query, None);
        g.post(&request_body(&op.print(), &vars, None), &[]).await;
        if let Some(s) = w.net.lock().unwrap().seen.iter().find(|s| s.timeout != Duration::from_secs(7)) {
            sim.violate("case: global subgraph timeout", format!("subgraph_timeout is 7s, but the request has {:?}", s.timeout));
        }
    });
}

/// Gateway deadlines: nothing goes on for an operation that is over.
fn deadlines(sim: &Sim) {
    let m = Model::generate(sim, Gen::default());
    let w = world(sim, m);
    let p = Policy::generate(sim, &w, Duration::from_millis(*sim.pick(&[100, 1000, 10_000])));
    make_sick(sim, &w, u64::MAX);
    if sim.chance(500) {
        *w.latency.lock().unwrap() = (1000, *sim.pick(&[1_000_000, 10_000_000]));
    }
    gateway::run(sim, Duration::from_secs(100_000), async {
        let Some(sdl) = gateway::compose(&w) else { return };
        let Some(g) = gateway::build(&w, &sdl, &p.toml, op_mode(sim), |_| {}).await else { return };
        for i in 0..sim.range(1, 4) {
            let (op, vars) = ops::generate(sim, &w.m, Kind::Query, None);
            let text = op.print();
            sim.event_with(i, || format!("operation {i}: {text} with {}", vars.text()));
            let began = sim.now_ns();
            let reply = g.post(&request_body(&text, &vars, None), &[("x-sim-request", i.to_string())]).await;
            sim.count("operations");
            deadline(sim, &w, &p, i, &text, &reply, Duration::from_nanos(sim.now_ns() - began));
            let sent = w.net.lock().unwrap().seen.len();
            if sim.chance(500) {
                tokio::time::sleep(Duration::from_secs(sim.log_range(1, 1000))).await;
            }
            let net = w.net.lock().unwrap();
            if net.inflight != 0 || net.seen.len() != sent {
                sim.violate("requests left behind", format!("{} in flight and {} new requests after the answer to {text}", net.inflight, net.seen.len() - sent));
            }
            rules(sim, &w, &p, &of(&net.seen, i));
        }
        check_bad(&w);
    });
}

pub fn props() -> Vec<Prop> {
    let real: &[&str] = &["gateway-config", "engine-schema", "engine", "tower retry budget"];
    let stub: &[&str] = &["subgraph servers and HTTP (reference executor over a generated database, 17 kinds of fault)", "extensions (none installed)", "operation cache, rate limiter, clock"];
    vec![
        Prop {
            id: "Q03",
            scenarios: vec![Scenario { name: "mutations", weight: 1, run: mutations }],
            rule: "One to four clients at once send random mutations (up to several mutation fields of several subgraphs each), some of them with GET and some of them queries, to gateways with random global and per-subgraph retry settings, while subgraphs fail in 17 ways. For each operation: the mutation fields the subgraphs were sent are the fields of the operation in its order, each in one request, which was sent again only if retrying of mutations is on for that subgraph and the attempt failed in a way that can be retried; a mutation request is sent only after the previous one has ended; all were sent if the answer has data; a GET never sends any and gets 405.",
            real,
            stub,
            assumptions: &["only root fields are ordered; what a mutation's answer pulls from other subgraphs may run alongside the next mutation field, as upstream documents"],
            quick: (30, 100_000),
            thorough: (600, 1_000_000),
        },
        Prop {
            id: "Q04",
            scenarios: vec![Scenario { name: "retries", weight: 80, run: retries }, Scenario { name: "deadlines", weight: 40, run: deadlines }, Scenario { name: "known cases", weight: 1, run: global_timeout }],
            rule: "Up to twelve concurrent queries run against subgraphs that fail for a while or forever, with random global and per-subgraph retry settings and timeouts. A request is sent again only if retries are on for its subgraph and after a failed connection, a timeout, 429 or 5xx, at most 200*2^n ms after the n-th failure, never beyond the budget (reserve plus percentage of successes); with a budget that cannot run out every such failure is retried until it succeeds, and the answer is the faultless one; each request has its subgraph's timeout; the answer to an operation comes within the gateway's timeout, not before its subgraphs unless it timed out, and nothing runs on for it afterwards; when the faults stop, answers are right again.",
            real,
            stub,
            assumptions: &["the budget is checked with slack for withdrawals that wait for their backoff"],
            quick: (30, 100_000),
            thorough: (600, 1_000_000),
        },
    ]
}
