//! Q07: the entity cache saves requests, and never changes an answer.
use crate::answers::{check_bad, op_mode, reference, same};
use crate::exec::{Db, GErr};
use crate::gateway::{self, Gateway, request_body};
use crate::gql::{J, Kind, Op};
use crate::model::{Gen, Model};
use crate::ops;
use crate::runtime::{Control, Fault, Sick, World, world};
use futures_util::future::join_all;
use simkit::runner::{Prop, Scenario};
use simkit::{Sim, mix};
use std::collections::BTreeMap;
use std::time::Duration;

const CONTROLS: [Control; 14] = {
    const fn c(header: &'static str, forbidden: bool, max_age: Option<u64>, age: Option<u64>) -> Control {
        Control { header: Some(header), age, forbidden, max_age }
    }
    [
        Control { header: None, age: None, forbidden: false, max_age: None },
        Control { header: None, age: Some(3), forbidden: false, max_age: None },
        c("private", true, None, None),
        c("private, max-age=100", true, Some(100), Some(1)),
        c("no-store", true, None, None),
        c("max-age=5, no-store", true, Some(5), None),
        c("public, max-age=5", false, Some(5), None),
        c("max-age=100", false, Some(100), None),
        c("max-age=100", false, Some(100), Some(40)),
        c("max-age=100", false, Some(100), Some(100)),
        c("max-age=100", false, Some(100), Some(101)),
        c("max-age=0", false, Some(0), None),
        c("public", false, None, Some(5)),
        c("s", false, None, None),
    ]
};

/// Faults that a client or a cache must be able to tell from an answer.
const KINDS: [Fault; 12] = [
    Fault::Refused,
    Fault::Reset,
    Fault::Status500,
    Fault::Status503Body,
    Fault::Status429,
    Fault::Status400,
    Fault::Garbage,
    Fault::Truncated,
    Fault::Empty,
    Fault::NoData,
    Fault::NullData,
    Fault::Hang,
];

fn secs(sim: &Sim) -> u64 {
    *sim.pick(&[60, 1, 10, 1000])
}

/// The configuration as written, and the time to live it means for each subgraph.
fn configure(sim: &Sim, w: &World) -> (String, Vec<Option<Duration>>) {
    let (mut on, mut ttl) = (true, 60);
    let mut toml = "[gateway]\ntimeout = \"20s\"\n".to_string();
    toml += "[[headers]]\nrule = \"forward\"\nname = \"x-tenant\"\n[[headers]]\nrule = \"forward\"\nname = \"x-other\"\n";
    toml += "[entity_caching]\n";
    if sim.chance(200) {
        on = false;
    } else {
        toml += "enabled = true\n";
    }
    if sim.chance(600) {
        ttl = secs(sim);
        toml += &format!("ttl = \"{ttl}s\"\n");
    }
    let mut ttls = vec![];
    for name in &w.m.subs {
        let (mut on, mut ttl) = (on, ttl);
        if sim.chance(400) {
            toml += &format!("[subgraphs.{name}.entity_caching]\n");
            if sim.chance(600) {
                on = sim.chance(600);
                toml += &format!("enabled = {on}\n");
            }
            if sim.chance(600) {
                ttl = secs(sim);
                toml += &format!("ttl = \"{ttl}s\"\n");
            }
        }
        ttls.push(on.then_some(Duration::from_secs(ttl)));
    }
    (toml, ttls)
}

struct Known {
    op: Op,
    vars: J,
    text: String,
    mutation: bool,
    /// For each tenant: until when everything it needs is cached.
    cached: BTreeMap<usize, u64>,
}

/// Letters for the tenants; the second pair differ in where one header ends and the next begins.
const TENANTS: [(&str, &str); 4] = [("a", ""), ("b", ""), ("ab", "c"), ("a", "bc")];

fn salt(tenant: usize) -> u64 {
    mix(TENANTS[tenant].0.bytes().map(|b| b as u64).sum())
}

struct Ask {
    known: usize,
    tenant: usize,
    data: J,
    errors: Vec<GErr>,
    saved: bool,
    sick: bool,
}

async fn ask(g: &Gateway, k: &Known, a: Ask) -> (usize, usize, Option<u64>) {
    let w = &g.world;
    let sim = &w.sim;
    let (x, y) = TENANTS[a.tenant];
    let start = w.net.lock().unwrap().seen.len();
    let start_hits = w.cache.lock().unwrap().served.len();
    let reply = g.post(&request_body(&k.text, &k.vars, None), &[("x-tenant", x.into()), ("x-other", y.into())]).await;
    sim.count("operations");
    let net = w.net.lock().unwrap();
    // Requests of others that ran at the same time are in there too: they can only shorten what is expected.
    let seen = &net.seen[start..];
    let fine = |s: &crate::runtime::Seen| s.fault.is_none() && s.done_ns.is_some();
    if a.sick && !reply.errors().is_empty() {
        sim.count("failed operations");
        return (a.known, a.tenant, None);
    }
    let until = seen.iter().map(|s| s.cacheable.filter(|_| fine(s)).map(|t| s.sent_ns + t.as_nanos() as u64)).min().unwrap_or(Some(u64::MAX));
    let sent = seen.len();
    drop(net);
    let hits = w.cache.lock().unwrap().served[start_hits..].iter().copied().min();
    let until = until.map(|u| u.min(hits.unwrap_or(u64::MAX)));
    same(sim, &k.text, &k.vars, &a.data, &a.errors, &reply);
    if a.saved && sent > 0 {
        sim.violate("not served from the cache", format!("operation {} was sent again: {sent} requests", k.text));
    }
    if a.saved {
        sim.count("operations served from the cache alone");
    }
    (a.known, a.tenant, until)
}

fn scenario(sim: &Sim) {
    let sick = sim.chance(200);
    let m = Model::generate(sim, Gen { sick, mutations: true, ..Gen::default() });
    let w = world(sim, m);
    let (toml, ttls) = configure(sim, &w);
    {
        let mut c = w.cache.lock().unwrap();
        c.enabled = true;
        c.ttls = ttls;
        c.latency_us = *sim.pick(&[0, 1000, 50_000]);
        if sim.chance(400) {
            c.fail_get = *sim.pick(&[0, 100, 1000]);
            c.fail_put = *sim.pick(&[0, 100, 1000]);
            c.drop = *sim.pick(&[0, 100]);
        }
        for _ in 0..sim.range(0, 3) {
            c.controls.push(*sim.pick(&CONTROLS));
        }
    }
    if sim.chance(400) {
        for s in 0..w.m.subs.len() {
            if sim.chance(600) {
                let kinds = (0..sim.range(1, 4)).map(|_| *sim.pick(&KINDS));
                // A cut that only loses the errors of the answer may go unnoticed.
                let kinds = kinds.filter(|k| !sick || *k != Fault::Truncated).collect();
                w.sick.lock().unwrap().insert(s, Sick { rate: *sim.pick(&[1000, 500]), limit: *sim.pick(&[1, 3, 8]), kinds });
            }
        }
    }
    gateway::run(sim, Duration::from_secs(1_000_000), async {
        let Some(sdl) = gateway::compose(&w) else { return };
        let Some(g) = gateway::build(&w, &sdl, &toml, op_mode(sim), |_| {}).await else { return };
        let mut known: Vec<Known> = vec![];
        let mut db = Db::default();
        for round in 0..sim.range(2, 10) {
            let mut asks = vec![];
            let alone = sim.chance(500);
            for _ in 0..if alone { 1 } else { sim.range(2, 4) } {
                let i = if known.is_empty() || sim.chance(300) {
                    let mutation = alone && sim.chance(200);
                    let kind = if mutation { Kind::Mutation } else { Kind::Query };
                    let (op, vars) = ops::generate(sim, &w.m, kind, sim.chance(500).then(|| format!("Op{round}")));
                    known.push(Known { text: op.print(), op, vars, mutation, cached: BTreeMap::new() });
                    known.len() - 1
                } else {
                    sim.choose(known.len() as u32) as usize
                };
                if known[i].mutation && !asks.is_empty() {
                    continue;
                }
                asks.push((i, sim.choose(if sim.chance(500) { 2 } else { 4 }) as usize));
                if known[i].mutation {
                    break;
                }
            }
            let now = sim.now_ns();
            let failing = {
                let net = w.net.lock().unwrap();
                w.sick.lock().unwrap().iter().any(|(s, k)| net.per_sub.get(s).is_none_or(|n| *n < k.limit))
            };
            let flaky = {
                let c = w.cache.lock().unwrap();
                c.fail_get + c.fail_put + c.drop > 0
            };
            let mutating = known[asks[0].0].mutation;
            let jobs = asks.iter().map(|&(i, tenant)| {
                let k = &known[i];
                db.salt = salt(tenant);
                let (data, errors) = reference(&w, &k.op, &k.vars, &mut db);
                // A whole minute is longer than any operation takes.
                let saved = alone && !flaky && !k.mutation && k.cached.get(&tenant).is_some_and(|t| *t > now + 60_000_000_000);
                ask(&g, k, Ask { known: i, tenant, data, errors, saved, sick: failing })
            });
            let done: Vec<_> = join_all(jobs.collect::<Vec<_>>()).await;
            check_bad(&w);
            for (i, tenant, until) in done {
                let c = &mut known[i].cached;
                match until {
                    Some(t) => c.insert(tenant, t),
                    None => c.remove(&tenant),
                };
            }
            if mutating {
                // Faults and null bubbling may keep later fields from running.
                db.seq = w.net.lock().unwrap().db.seq;
            }
            if sim.violated() {
                return;
            }
            let pause = sim.log_range(1000, 400_000_000);
            tokio::time::sleep(Duration::from_micros(pause)).await;
        }
        let hits = w.cache.lock().unwrap().hits;
        if hits > 0 {
            sim.nontrivial();
        }
    });
}

pub fn prop() -> Prop {
    Prop {
        id: "Q07",
        scenarios: vec![Scenario { name: "caching", weight: 1, run: scenario }],
        rule: "Random federated graphs with entity caching on, off or overridden per subgraph, in random times to live. Up to four clients in different header scopes send up to nine rounds of new and repeated queries, and mutations, with pauses from a millisecond to minutes. Subgraphs answer each scope with its own values, set random Cache-Control and Age headers, and may fail; cache reads and writes may be slow, fail or lose entries. Every answer without errors must be the reference's, also after failures; mutations are executed every time; only complete answers, of subgraphs with caching on, that their headers allow may be stored, for max-age less age or the configured time; an operation whose parts are all stored and fresh sends no request. Counted: runs that served something from the cache.",
        real: &["engine (entity and response caching, resolvers, response merging)", "engine-schema", "gateway-config", "graphql-composition"],
        stub: &["subgraph servers and HTTP", "the cache's storage (a map over simulated time)", "extensions (none installed)"],
        assumptions: &[],
        quick: (30, 100_000),
        thorough: (600, 1_000_000),
    }
}
