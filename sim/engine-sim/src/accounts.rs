//! Q05: what the engine reports about operations is what happened.
use crate::answers::{check_bad, op_mode};
use crate::gateway::{self, Gateway, request_body};
use crate::gql::{J, Kind, Op};
use crate::model::{Gen, Model};
use crate::ops;
use crate::retries::{Policy, make_sick, of};
use crate::runtime::{Fault, OpCacheMode, Seen, World, world};
use bytes::Bytes;
use engine::RequestExtensions;
use event_queue::{CacheStatus, Event, EventFilter, EventFilterType, EventQueue, OperationType, RequestExecution};
use futures_util::future::join_all;
use grafbase_telemetry::graphql::GraphqlResponseStatus;
use grafbase_telemetry::metrics::EngineMetrics;
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{InstrumentKind, ManualReader, Pipeline, SdkMeterProvider, Temporality};
use simkit::Sim;
use simkit::runner::{Prop, Scenario};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, Weak};
use std::time::Duration;

#[derive(Clone, Debug)]
struct Reader(Arc<ManualReader>);

impl MetricReader for Reader {
    fn register_pipeline(&self, p: Weak<Pipeline>) {
        self.0.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.0.collect(rm)
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, t: Duration) -> OTelSdkResult {
        self.0.shutdown_with_timeout(t)
    }
    fn temporality(&self, k: InstrumentKind) -> Temporality {
        self.0.temporality(k)
    }
}

/// (metric, the attributes of interest) -> count of a histogram, value of a counter.
type Totals = BTreeMap<(String, String), i64>;

const WANTED: [&str; 6] = [
    "graphql.subgraph.name",
    "graphql.subgraph.aborted",
    "graphql.response.status",
    "graphql.operation.name",
    "graphql.response.error.code",
    "http.response.status_code",
];

fn collect(reader: &Reader) -> Totals {
    let mut rm = ResourceMetrics::default();
    reader.collect(&mut rm).expect("collect");
    let mut out = Totals::new();
    for sm in rm.scope_metrics() {
        for m in sm.metrics() {
            let mut put = |attrs: Vec<(String, String)>, v: i64| {
                let mut a: Vec<String> = attrs.into_iter().filter(|a| WANTED.contains(&a.0.as_str())).map(|(k, v)| format!("{k}={v}")).collect();
                a.sort();
                *out.entry((m.name().to_string(), a.join(","))).or_default() += v;
            };
            macro_rules! points {
                ($s:expr, $v:expr) => {
                    for p in $s.data_points() {
                        put(p.attributes().map(|kv| (kv.key.to_string(), kv.value.to_string())).collect(), $v(p));
                    }
                };
            }
            match m.data() {
                AggregatedMetrics::U64(MetricData::Sum(s)) => points!(s, |p: &opentelemetry_sdk::metrics::data::SumDataPoint<u64>| p.value() as i64),
                AggregatedMetrics::I64(MetricData::Sum(s)) => points!(s, |p: &opentelemetry_sdk::metrics::data::SumDataPoint<i64>| p.value()),
                AggregatedMetrics::U64(MetricData::Histogram(h)) => {
                    points!(h, |p: &opentelemetry_sdk::metrics::data::HistogramDataPoint<u64>| p.count() as i64)
                }
                AggregatedMetrics::U64(MetricData::ExponentialHistogram(h)) => {
                    points!(h, |p: &opentelemetry_sdk::metrics::data::ExponentialHistogramDataPoint<u64>| p.count() as i64)
                }
                o => panic!("unexpected metric data {o:?}"),
            }
        }
    }
    out
}

struct Case<'a> {
    g: &'a Gateway,
    p: &'a Policy,
    want: Mutex<Totals>,
    prepared: Mutex<i64>,
}

impl Case<'_> {
    fn add(&self, metric: &str, attrs: &str, v: i64) {
        *self.want.lock().unwrap().entry((metric.to_string(), attrs.to_string())).or_default() += v;
    }
}

fn run(sim: &Sim) {
    let m = Model::generate(sim, Gen { mutations: true, sick: sim.chance(300), ..Gen::default() });
    let w = world(sim, m);
    let p = Policy::generate(sim, &w, Duration::from_millis(*sim.pick(&[1_000_000_000, 60_000, 1000])));
    if sim.chance(800) {
        make_sick(sim, &w, *sim.pick(&[3, 20, u64::MAX]));
    }
    let reader = Reader(Arc::new(ManualReader::builder().with_temporality(Temporality::Cumulative).build()));
    let provider = SdkMeterProvider::builder().with_reader(reader.clone()).build();
    gateway::run(sim, Duration::from_secs(10_000_000), async {
        let Some(sdl) = gateway::compose(&w) else { return };
        let meter = grafbase_telemetry::metrics::meter(&provider);
        let mode = op_mode(sim);
        let Some(g) = gateway::build(&w, &sdl, &p.toml, mode, |rt| rt.metrics = EngineMetrics::build(&meter, None)).await else { return };
        let case = Case { g: &g, p: &p, want: Default::default(), prepared: Default::default() };
        let n = sim.range(1, 4);
        if n > 1 {
            sim.nontrivial();
        }
        let ops: Vec<_> = (0..n)
            .map(|i| {
                let kind = if sim.chance(300) { Kind::Mutation } else { Kind::Query };
                ops::generate(sim, &w.m, kind, sim.chance(600).then(|| format!("Op{i}")))
            })
            .collect();
        let mut jobs = vec![];
        for (i, (op, vars)) in ops.iter().enumerate() {
            let start = if sim.chance(500) { 0 } else { sim.log_range(1, 2_000_000) };
            jobs.push(operate(&case, i as u64, op, vars, start));
            if sim.chance(200) {
                jobs.push(operate(&case, n + i as u64, op, vars, sim.log_range(1, 2_000_000)));
            }
        }
        join_all(jobs).await;
        check_bad(&w);
        // Whatever is cut short has the time to end.
        tokio::time::sleep(Duration::from_secs(1)).await;
        if sim.violated() {
            return;
        }
        totals(sim, &case, collect(&reader), mode);
    });
}

/// What is reported about an attempt.
fn execution(f: Option<Fault>) -> &'static str {
    match f {
        Some(Fault::Refused | Fault::Reset | Fault::Hang) => "error",
        Some(Fault::Status500) => "500",
        Some(Fault::Status503Body) => "503",
        Some(Fault::Status429) => "429",
        Some(Fault::Status400) => "400",
        _ => "200",
    }
}

async fn operate(c: &Case<'_>, i: u64, op: &Op, vars: &J, start: u64) {
    let (w, sim) = (&c.g.world, &c.g.world.sim);
    tokio::time::sleep(Duration::from_micros(start)).await;
    let text = op.print();
    sim.event_with(i, || format!("operation {i}: {text} with {}", vars.text()));
    let filter = match sim.choose(4) {
        0 | 1 => Some(EventFilter::All),
        2 => Some(EventFilter::Types(EventFilterType::Operation | EventFilterType::SubgraphRequest)),
        _ => None,
    };
    let queue = Arc::new(EventQueue::new(filter));
    let mut req = http::Request::builder()
        .method("POST")
        .uri("http://gateway.test/graphql")
        .header("content-type", "application/json")
        .header("accept", "application/json")
        .header("x-sim-request", i.to_string())
        .body(Bytes::from(request_body(&text, vars, None).text()))
        .unwrap();
    req.extensions_mut().insert(RequestExtensions { event_queue: queue.clone(), ..Default::default() });
    let began = sim.now_ns();
    let reply = c.g.reply(c.g.send(req).await).await;
    let took = Duration::from_nanos(sim.now_ns() - began);
    sim.count("operations");
    *c.prepared.lock().unwrap() += 1;
    let net = w.net.lock().unwrap();
    let seen = of(&net.seen, i);
    for s in &seen {
        c.add("graphql.subgraph.request.inflight", &format!("graphql.subgraph.name={}", w.m.subs[s.sub]), 0);
    }
    if reply.text.contains("Gateway timeout") {
        sim.count("gateway timeouts");
        return;
    }
    let errors = reply.errors();
    let null = reply.data().is_none_or(J::is_null);
    let status = match (errors.is_empty(), null) {
        (true, _) => "SUCCESS",
        (false, true) => "FIELD_ERROR_NULL_DATA",
        (false, false) => "FIELD_ERROR",
    };
    let name = op.name.as_ref().map(|n| format!("graphql.operation.name={n},"));
    c.add("graphql.operation.duration", &format!("{}graphql.response.status={status}", name.as_deref().unwrap_or_default()), 1);
    let Some(filter) = filter else {
        if queue.pop().is_some() {
            sim.violate("event nobody wants", text);
        }
        return;
    };
    let _ = filter;
    let mut operations = 0;
    let mut reported: BTreeMap<(String, &str), i64> = BTreeMap::new();
    let mut requests = 0;
    while let Some(e) = queue.pop() {
        match e {
            Event::Operation(o) => {
                operations += 1;
                let want = match (errors.len() as u64, null) {
                    (0, _) => GraphqlResponseStatus::Success,
                    (count, data_is_null) => GraphqlResponseStatus::FieldError { count, data_is_null },
                };
                let ty = if op.kind == Kind::Mutation { OperationType::Mutation } else { OperationType::Query };
                let facts = [
                    (o.name.as_deref() != op.name.as_deref(), "name"),
                    (format!("{:?}", o.status) != format!("{want:?}"), "status"),
                    (o.operation_type != ty, "operation type"),
                    (o.has_deprecated_fields, "deprecated fields"),
                    (o.prepare_duration > o.duration || o.duration > took, "duration"),
                    (o.document.is_empty() && !text.contains("__typename"), "document"),
                ];
                if let Some((_, what)) = facts.iter().find(|f| f.0) {
                    sim.violate("wrong operation event", format!("{what} of {o:?} for {text} answered in {took:?} with {}", reply.text));
                }
            }
            Event::Subgraph(s) => {
                requests += 1;
                if !matches!(s.cache_status, CacheStatus::Miss) || s.total_duration > took || s.executions.is_empty() {
                    sim.violate("wrong subgraph event", format!("{s:?} for {text}"));
                }
                let sub = w.m.subs.iter().position(|n| *n == s.subgraph_name);
                if sub.is_none() || s.method != http::Method::POST || s.url != format!("http://{}.test/", s.subgraph_name) {
                    sim.violate("wrong subgraph event", format!("{s:?} for {text}"));
                }
                for x in &s.executions {
                    let what = match x {
                        RequestExecution::Response(r) => match r.status.as_u16() {
                            200 => "200",
                            400 => "400",
                            429 => "429",
                            500 => "500",
                            503 => "503",
                            _ => "other",
                        },
                        RequestExecution::RequestError => "error",
                        RequestExecution::InternalServerError => "500",
                        RequestExecution::RateLimited => "rate limited",
                    };
                    *reported.entry((s.subgraph_name.clone(), what)).or_default() += 1;
                }
            }
            o => sim.violate("event out of nowhere", format!("{o:?}")),
        }
    }
    if operations != 1 {
        sim.violate("operation not reported once", format!("{operations} events for {text} answered {}", reply.text));
    }
    let mut sent: BTreeMap<(String, &str), i64> = BTreeMap::new();
    for s in &seen {
        *sent.entry((w.m.subs[s.sub].clone(), execution(s.fault))).or_default() += 1;
    }
    if sent != reported {
        sim.violate("subgraph requests misreported", format!("{reported:?} instead of {sent:?} in {requests} events for {text}"));
    }
    sim.count_n("subgraph requests", seen.len() as u64);
}

fn totals(sim: &Sim, c: &Case, got: Totals, mode: OpCacheMode) {
    let w = &c.g.world;
    let fail = |what: &str, detail: String| sim.violate("wrong metrics", format!("{what}: {detail}, all metrics: {got:?}"));
    for ((metric, attrs), v) in &got {
        match metric.as_str() {
            "graphql.subgraph.request.inflight" if *v != 0 => fail("subgraph requests still counted as in flight", format!("{attrs}: {v}")),
            "graphql.operation.duration" => {
                if c.want.lock().unwrap().get(&(metric.clone(), attrs.clone())) != Some(v) {
                    fail("operations", format!("{attrs}: {v} instead of {:?}", c.want.lock().unwrap()));
                }
            }
            _ => {}
        }
    }
    for ((metric, attrs), v) in c.want.lock().unwrap().iter() {
        if *v > 0 && got.get(&(metric.clone(), attrs.clone())) != Some(v) {
            fail("operations", format!("{attrs}: {:?} instead of {v}", got.get(&(metric.clone(), attrs.clone()))));
        }
    }
    // Retries.
    let net = w.net.lock().unwrap();
    let sum = |metric: &str, part: &str| -> i64 {
        got.iter().filter(|((m, a), _)| m == metric && a.contains(part)).map(|x| *x.1).sum()
    };
    if mode != OpCacheMode::Lossy {
        let (hits, misses) = (sum("graphql.operation.cache.hit", ""), sum("graphql.operation.cache.miss", ""));
        if hits + misses != *c.prepared.lock().unwrap() || mode == OpCacheMode::Off && hits > 0 {
            fail("operation cache", format!("{hits} hits and {misses} misses for {} operations", c.prepared.lock().unwrap()));
        }
    }
    if net.seen.iter().all(|s| s.done_ns.is_some()) {
        for (s, name) in w.m.subs.iter().enumerate() {
            let attr = format!("graphql.subgraph.name={name}");
            let all: Vec<&Seen> = net.seen.iter().filter(|x| x.sub == s).collect();
            let requests = sum("graphql.subgraph.request.body.size", &attr);
            let retries: i64 = got
                .iter()
                .filter(|((m, a), _)| m == "graphql.subgraph.request.retries" && a.contains(&attr) && !a.contains("aborted=true"))
                .map(|x| *x.1)
                .sum();
            if requests + retries != all.len() as i64 {
                // A retry that waited for its backoff when the deadline came is not counted.
                fail("subgraph requests", format!("{requests} and {retries} retries to {name} instead of {} in all", all.len()));
            }
        }
    }
    let _ = c.p;
}

pub fn prop() -> Prop {
    Prop {
        id: "Q05",
        scenarios: vec![Scenario { name: "accounts", weight: 1, run }],
        rule: "One to eight concurrent queries and mutations, some of them the same, run against failing subgraphs with random retry settings and timeouts, with real metrics and event queues. Every operation that is answered is in its event queue exactly once, with its name, type and the status of the answer; every request to a subgraph, retries included, is in it once, with its outcome; durations are within the time it really took; a queue whose filter wants nothing gets nothing. The metrics are the sums: operations by name and status, operation cache hits and misses, subgraph requests and retries; and no subgraph request remains in flight, whether it was answered, failed, or was cut short by the gateway's timeout.",
        real: &["engine", "event-queue", "telemetry metrics (EngineMetrics)", "opentelemetry_sdk metrics"],
        stub: &["subgraph servers and HTTP (17 kinds of fault)", "metric reader (manual)", "extensions (none installed)", "clock"],
        assumptions: &["operations that end with the gateway's timeout are only required to leave nothing in flight"],
        quick: (30, 100_000),
        thorough: (600, 1_000_000),
    }
}
