//! Q01/Q02: what clients get equals what one server owning everything would say.
use crate::exec::{Db, Exec, GErr};
use crate::gateway::{self, Reply, request_body};
use crate::gql::{J, Kind, Op};
use crate::model::{Gen, Model};
use crate::ops;
use crate::runtime::{OpCacheMode, World, world};
use simkit::Sim;
use simkit::runner::{Prop, Scenario};
use std::time::Duration;

pub fn reference(w: &World, op: &Op, vars: &J, db: &mut Db) -> (J, Vec<GErr>) {
    let mut x = Exec::new(&w.m, None, op, vars, db);
    let data = x.run();
    assert!(x.bad.is_empty(), "generated operation is invalid: {:?} in {}", x.bad, op.print());
    (data, x.errors)
}

pub fn check_bad(w: &World) {
    let net = w.net.lock().unwrap();
    if let Some(b) = net.bad.first() {
        w.sim.violate("invalid subgraph request", b.clone());
    }
}

pub fn op_mode(sim: &Sim) -> OpCacheMode {
    *sim.pick(&[OpCacheMode::Memory, OpCacheMode::Bytes, OpCacheMode::Lossy, OpCacheMode::Off])
}

fn healthy(sim: &Sim) {
    let sick = sim.chance(300);
    let m = Model::generate(sim, Gen { sick, mutations: true, ..Gen::default() });
    let w = world(sim, m);
    gateway::run(sim, Duration::from_secs(100_000), async {
        let Some(sdl) = gateway::compose(&w) else { return };
        let Some(g) = gateway::build(&w, &sdl, "", op_mode(sim), |_| {}).await else { return };
        let mut ref_db = Db::default();
        for i in 0..sim.range(1, 6) {
            let kind = if sim.chance(200) { Kind::Mutation } else { Kind::Query };
            let (op, vars) = ops::generate(sim, &w.m, kind, sim.chance(500).then(|| format!("Op{i}")));
            let text = op.print();
            sim.event_with(i, || format!("operation {i}: {text} with {}", vars.text()));
            let (data, errors) = reference(&w, &op, &vars, &mut ref_db);
            let reply = g.post(&request_body(&text, &vars, None), &[]).await;
            sim.count("operations");
            same(sim, &text, &vars, &data, &errors, &reply);
            check_bad(&w);
            if data.is_null() {
                // The remaining fields of the mutation need not run.
                ref_db.seq = w.net.lock().unwrap().db.seq;
            }
            if sim.violated() {
                return;
            }
        }
    });
}

pub fn same(sim: &Sim, text: &str, vars: &J, data: &J, errors: &[GErr], reply: &Reply) {
    let ctx = || format!("operation {text} with {} answered {}, expected data {}", vars.text(), reply.text, data.text());
    let Some(got) = reply.data() else {
        sim.violate("operation refused", ctx());
        return;
    };
    if got.text() != data.text() {
        let kind = if got.sorted() == data.sorted() { "response order" } else { "wrong data" };
        sim.violate(kind, ctx());
        return;
    }
    // A subgraph may be asked for more than the client was (a narrower type condition can be left out), and
    // report an error for a field that isn't in the response: no error the client can relate to anything, but
    // no wrong answer either.
    let spurious = errors.is_empty() && reply.errors().iter().all(|e| !has_path(data, e.get("path")));
    if reply.errors().is_empty() != errors.is_empty() && !spurious {
        sim.violate("wrong errors", format!("{} and errors {errors:?}", ctx()));
    }
}

pub fn answers() -> Prop {
    Prop {
        id: "Q01",
        scenarios: vec![Scenario { name: "healthy", weight: 60, run: healthy }, Scenario { name: "known cases", weight: 1, run: crate::known::scenario }],
        rule: "Random sets of one to four federated subgraphs (entities with keys, shareable and external fields, @requires, @provides, @override, interfaces, unions, arguments, lists, enums, input objects) are composed by graphql-composition and served by the engine, over a simulated network with random latencies and reply orders, with every kind of operation cache. A run sends up to six random valid queries and mutations; subgraphs may fail individual fields. Every answer must be, byte for byte, the data that one server owning the whole graph and the same database returns, with errors exactly when that server has some; every request a subgraph receives must be valid for that subgraph, with representations that carry a key; every mutation field runs once and in order.",
        real: &["graphql-composition", "graphql-federated-graph", "gateway-config", "engine-schema", "engine (parser, binder, query solver, planner, executor, response writer)"],
        stub: &["subgraph servers and HTTP (reference executor over a generated database)", "extensions (none installed)", "operation cache, rate limiter, clock"],
        assumptions: &["operations stay clear of the known findings listed for Q01 (see model::Gen and known.rs)"],
        quick: (40, 100_000),
        thorough: (600, 1_000_000),
    }
}

fn has_path(data: &J, path: Option<&J>) -> bool {
    let Some(J::Arr(path)) = path else { return true };
    let mut at = data;
    for step in path {
        let next = match (at, step) {
            (J::Arr(items), J::Int(i)) => items.get(*i as usize),
            (_, J::Str(key)) => at.get(key),
            _ => None,
        };
        match next {
            Some(v) => at = v,
            // The error nulled something above.
            None => return at.is_null(),
        }
    }
    true
}
