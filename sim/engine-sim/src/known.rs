//! Cases in which the gateway is known to answer wrongly (known-findings.txt), kept out of the random
//! workload by the flags of `model::Gen`.
use crate::gateway::{self, request_body};
use crate::gql::J;
use crate::model::Model;
use crate::runtime::{Cache, OpCacheMode, world};
use simkit::Sim;
use std::time::Duration;

struct Case {
    name: &'static str,
    subs: &'static [(&'static str, &'static str)],
    /// Part of a request, and its answer.
    script: &'static [(usize, &'static str, &'static str)],
    query: &'static str,
    data: &'static str,
}

const LINK: &str = "extend schema @link(url: \"https://specs.apollo.dev/federation/v2.3\", import: [\"@key\", \"@shareable\", \"@external\", \"@requires\"])\n";

const CASES: &[Case] = &[
    Case {
        name: "nested type conditions widened",
        subs: &[("suba", "type Query { q: I } interface I { id: ID! n: Int } interface J { n: Int x: Int! } type A implements I & J { id: ID! n: Int x: Int! } type B implements I & J { id: ID! n: Int x: Int! }")],
        script: &[
            (0, "on A", r#"{"data":{"q":{"__typename":"B"}}}"#),
            (0, "", r#"{"data":{"q":null},"errors":[{"message":"x failed","path":["q","x"]}]}"#),
        ],
        query: "{ q { ... on A { ... on J { x } } } }",
        data: r#"{"q":{}}"#,
    },
    Case {
        name: "void selection",
        subs: &[("suba", "type Query { q: A } interface I { id: ID! } type A implements I { id: ID! } type B implements I { id: ID! x: Int }")],
        script: &[(0, "", r#"{"data":{"q":{"__typename":"A"}}}"#)],
        query: "{ q { ... on I { ... on B { x } } } }",
        data: r#"{"q":{}}"#,
    },
    Case {
        name: "conditional twin",
        subs: &[("suba", "type Query { x: Int y: Int }")],
        script: &[(0, "x", r#"{"data":{"x":1,"y":2}}"#), (0, "", r#"{"data":{"y":2}}"#)],
        query: "{ x @skip(if: true) y x }",
        data: r#"{"y":2,"x":1}"#,
    },
    Case {
        name: "twin selections",
        subs: &[
            ("suba", "type Query { q: U } union U = A type A @key(fields: \"id\") { id: ID! o: B } type B @key(fields: \"id\") { id: ID! }"),
            ("subb", "type B @key(fields: \"id\") { id: ID! x: Int y: Int }"),
        ],
        script: &[
            (0, "", r#"{"data":{"q":{"__typename":"A","id":"1","o":{"__typename":"B","id":"2"}}}}"#),
            (1, "x y", r#"{"data":{"_entities":[{"__typename":"B","x":1,"y":2}]}}"#),
            (1, "x", r#"{"data":{"_entities":[{"__typename":"B","x":1}]}}"#),
            (1, "y", r#"{"data":{"_entities":[{"__typename":"B","y":2}]}}"#),
        ],
        query: "{ q { ... on A { ... on A { o { x } } o { y } } } }",
        data: r#"{"q":{"o":{"x":1,"y":2}}}"#,
    },
    Case {
        name: "condition on an interface declared elsewhere",
        subs: &[
            ("suba", "type Query { q: A @shareable } type A @key(fields: \"id\") { id: ID! }"),
            ("subb", "interface I { x: Int } type A implements I @key(fields: \"id\") { id: ID! x: Int }"),
            ("subc", "type Query { q: A @shareable } type A @key(fields: \"id\") { id: ID! }"),
        ],
        script: &[
            (0, "", r#"{"data":{"q":{"__typename":"A","id":"1"}}}"#),
            (1, "", r#"{"data":{"_entities":[{"__typename":"A","x":1}]}}"#),
            (2, "", r#"{"data":{"q":{"__typename":"A","id":"1"}}}"#),
        ],
        query: "{ q { ... on I { x } } }",
        data: r#"{"q":{"x":1}}"#,
    },
    Case {
        name: "two keys in two subgraphs",
        subs: &[
            ("suba", "type A @key(fields: \"id\") @key(fields: \"sku\") { id: ID! sku: ID! a: Int }"),
            ("subb", "type Query { q: A } type A @key(fields: \"sku\") { sku: ID! }"),
            ("subc", "type A @key(fields: \"id\") @key(fields: \"sku\") { id: ID! sku: ID! c: Int }"),
        ],
        script: &[
            (0, "s1", r#"{"data":{"_entities":[{"__typename":"A","id":"i1","sku":"s1","a":1}]}}"#),
            (0, "i1", r#"{"data":{"_entities":[{"__typename":"A","id":"i1","sku":"s1","a":1}]}}"#),
            (1, "", r#"{"data":{"q":{"__typename":"A","sku":"s1"}}}"#),
            (2, "s1", r#"{"data":{"_entities":[{"__typename":"A","id":"i1","sku":"s1","c":3}]}}"#),
            (2, "i1", r#"{"data":{"_entities":[{"__typename":"A","id":"i1","sku":"s1","c":3}]}}"#),
        ],
        query: "{ q { c a id } }",
        data: r#"{"q":{"c":3,"a":1,"id":"i1"}}"#,
    },
];

fn run(sim: &Sim, c: &Case) {
    let mut m = Model::generate(sim, Default::default());
    m.subs = c.subs.iter().map(|s| s.0.to_string()).collect();
    let w = world(sim, m);
    *w.script.lock().unwrap() = c.script.to_vec();
    *w.cache.lock().unwrap() = Cache::default();
    gateway::run(sim, Duration::from_secs(1000), async {
        let Some(sdl) = gateway::compose_sdl(&w, c.subs.iter().map(|s| (s.0, format!("{LINK}{}", s.1)))) else { return };
        let Some(g) = gateway::build(&w, &sdl, "", OpCacheMode::Off, |_| {}).await else { return };
        let reply = g.post(&request_body(c.query, &J::Obj(vec![]), None), &[]).await;
        if reply.data().is_none_or(|d| d.text() != c.data) {
            sim.violate(format!("case: {}", c.name), format!("{} answered {}, expected data {}", c.query, reply.text, c.data));
        }
    });
}

pub fn scenario(sim: &Sim) {
    let c = sim.choose(CASES.len() as u32) as usize;
    run(sim, &CASES[c]);
}
