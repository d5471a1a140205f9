//! Metrics totals over histories of concurrent requests.
use grafbase_telemetry::grafbase_client::Client;
use grafbase_telemetry::graphql::*;
use grafbase_telemetry::metrics::*;
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{InstrumentKind, ManualReader, Pipeline, SdkMeterProvider, Temporality};
use simkit::hooks::guard;
use simkit::runner::{Prop, Scenario};
use simkit::{Sim, threads};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, Weak};
use std::time::Duration;

#[derive(Clone, Debug)]
struct Reader(Arc<ManualReader>);

impl MetricReader for Reader {
    fn register_pipeline(&self, p: Weak<Pipeline>) {
        self.0.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.0.collect(rm)
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, t: Duration) -> OTelSdkResult {
        self.0.shutdown_with_timeout(t)
    }
    fn temporality(&self, k: InstrumentKind) -> Temporality {
        self.0.temporality(k)
    }
}

/// (metric, sorted attributes) -> (count, sum)
type Totals = BTreeMap<(String, Vec<String>), (u64, i64)>;

fn add(m: &Mutex<Totals>, metric: &str, attrs: &[(&str, String)], v: i64) {
    let mut a: Vec<String> = attrs.iter().map(|(k, v)| format!("{k}={v}")).collect();
    a.sort();
    guard(|| {
        let mut m = m.lock().unwrap();
        let e = m.entry((metric.to_string(), a)).or_default();
        e.0 += 1;
        e.1 += v;
    })
}

fn collect(reader: &Reader) -> Totals {
    let mut rm = ResourceMetrics::default();
    reader.collect(&mut rm).expect("collect");
    let mut out = Totals::new();
    for sm in rm.scope_metrics() {
        for m in sm.metrics() {
            let mut put = |attrs: Vec<String>, count: u64, sum: i64| {
                let mut attrs = attrs;
                attrs.sort();
                let e = out.entry((m.name().to_string(), attrs)).or_default();
                e.0 += count;
                e.1 += sum;
            };
            match m.data() {
                AggregatedMetrics::U64(MetricData::Sum(s)) => {
                    for p in s.data_points() {
                        put(p.attributes().map(|kv| format!("{}={}", kv.key, kv.value)).collect(), 0, p.value() as i64);
                    }
                }
                AggregatedMetrics::I64(MetricData::Sum(s)) => {
                    for p in s.data_points() {
                        put(p.attributes().map(|kv| format!("{}={}", kv.key, kv.value)).collect(), 0, p.value());
                    }
                }
                AggregatedMetrics::U64(MetricData::Histogram(h)) => {
                    for p in h.data_points() {
                        put(p.attributes().map(|kv| format!("{}={}", kv.key, kv.value)).collect(), p.count(), p.sum() as i64);
                    }
                }
                AggregatedMetrics::U64(MetricData::ExponentialHistogram(h)) => {
                    for p in h.data_points() {
                        put(p.attributes().map(|kv| format!("{}={}", kv.key, kv.value)).collect(), p.count() as u64, p.sum() as i64);
                    }
                }
                o => panic!("unexpected metric data {o:?}"),
            }
        }
    }
    out
}

struct Ctx {
    sim: Sim,
    engine: EngineMetrics,
    request: RequestMetrics,
    model: Mutex<Totals>,
    version: Option<String>,
}

fn client(sim: &Sim) -> Option<Client> {
    let name = sim.chance(600).then(|| format!("c{}", sim.choose(2)));
    let v = sim.chance(500).then(|| "v1".to_string());
    Client::maybe_new(name, v)
}

fn client_attrs<'a>(c: &Option<Client>, a: &mut Vec<(&'a str, String)>) {
    if let Some(c) = c {
        a.push(("http.headers.x-grafbase-client-name", c.name.clone()));
        if let Some(v) = &c.version {
            a.push(("http.headers.x-grafbase-client-version", v.clone()));
        }
    }
}

fn operation(sim: &Sim) -> (GraphqlOperationAttributes, Vec<(&'static str, String)>) {
    let ty = *sim.pick(&[OperationType::Query, OperationType::Mutation, OperationType::Subscription]);
    let doc = format!("doc{}", sim.choose(2));
    let mut a = vec![("graphql.document", doc.clone()), ("graphql.operation.type", ty.as_str().to_string())];
    let name = match sim.choose(3) {
        0 => OperationName::Unknown,
        1 => {
            a.push(("graphql.operation.name", "N".into()));
            OperationName::Original("N".into())
        }
        _ => {
            a.push(("grafbase.operation.computed_name", "C".into()));
            OperationName::Computed("C".into())
        }
    };
    (GraphqlOperationAttributes { ty, name, sanitized_query: doc.into(), complexity_cost: None }, a)
}

fn status(sim: &Sim) -> (GraphqlResponseStatus, &'static str) {
    match sim.choose(5) {
        0 => (GraphqlResponseStatus::Success, "SUCCESS"),
        1 => (GraphqlResponseStatus::FieldError { count: 1, data_is_null: false }, "FIELD_ERROR"),
        2 => (GraphqlResponseStatus::FieldError { count: 1, data_is_null: true }, "FIELD_ERROR_NULL_DATA"),
        3 => (GraphqlResponseStatus::RequestError { count: 1 }, "REQUEST_ERROR"),
        _ => (GraphqlResponseStatus::RefusedRequest, "REFUSED_REQUEST"),
    }
}

fn ms(sim: &Sim) -> (Duration, i64) {
    let v = sim.log_range(0, 100_000);
    (Duration::from_micros(v * 1000 + sim.choose(1000) as u64), v as i64)
}

/// One client request: what it reports, in the order a request reports it.
fn request(c: &Ctx) {
    let (sim, e, r, m) = (&c.sim, &c.engine, &c.request, &c.model);
    r.increment_connected_clients();
    add(m, "http.server.connected.clients", &[], 1);
    threads::yield_point("request accepted");
    if sim.chance(200) {
        let n = sim.range(1, 5);
        e.record_batch_size(n as usize);
        add(m, "graphql.operation.batch.size", &[], n as i64);
    }
    let size = sim.log_range(0, 100_000);
    e.record_request_body_size(size as usize);
    add(m, "http.server.request.body.size", &[], size as i64);
    if sim.chance(500) {
        e.record_operation_cache_hit();
        add(m, "graphql.operation.cache.hit", &[], 1);
    } else {
        e.record_operation_cache_miss();
        add(m, "graphql.operation.cache.miss", &[], 1);
    }
    let (op, mut attrs) = operation(sim);
    let (d, v) = ms(sim);
    let mut a = attrs.clone();
    if sim.chance(200) {
        let with_op = sim.chance(500);
        if !with_op {
            a.clear();
        }
        a.push(("graphql.operation.success", "false".into()));
        e.record_failed_preparation_duration(with_op.then(|| op.clone()), d);
    } else {
        a.push(("graphql.operation.success", "true".into()));
        e.record_successful_preparation_duration(op.clone(), d);
    }
    add(m, "graphql.operation.prepare.duration", &a, v);
    for _ in 0..sim.choose(4) {
        let name = format!("s{}", sim.choose(2));
        let sub = [("graphql.subgraph.name", name.clone())];
        match sim.choose(3) {
            0 => {
                e.record_subgraph_cache_hit(SubgraphCacheHitAttributes { name: name.clone() });
                add(m, "graphql.subgraph.request.cache.hit", &sub, 1);
            }
            1 => {
                e.record_subgraph_cache_miss(SubgraphCacheMissAttributes { name: name.clone() });
                add(m, "graphql.subgraph.request.cache.miss", &sub, 1);
            }
            _ => {
                e.record_subgraph_cache_partial_hit(name.clone());
                add(m, "graphql.subgraph.request.cache.partial_hit", &sub, 1);
            }
        }
        let n = sim.log_range(0, 10_000);
        e.record_subgraph_request_size(SubgraphRequestBodySizeAttributes { name: name.clone() }, n as usize);
        add(m, "graphql.subgraph.request.body.size", &sub, n as i64);
        e.increment_subgraph_inflight_requests(SubgraphInFlightRequestAttributes { name: name.clone() });
        add(m, "graphql.subgraph.request.inflight", &sub, 1);
        threads::yield_point("subgraph request in flight");
        for _ in 0..sim.choose(3) {
            let aborted = sim.chance(300);
            e.record_subgraph_retry(SubgraphRequestRetryAttributes { name: name.clone(), aborted });
            add(m, "graphql.subgraph.request.retries", &[sub[0].clone(), ("graphql.subgraph.aborted", aborted.to_string())], 1);
        }
        e.decrement_subgraph_inflight_requests(SubgraphInFlightRequestAttributes { name: name.clone() });
        add(m, "graphql.subgraph.request.inflight", &sub, -1);
        let (d, v) = ms(sim);
        let code = sim.chance(700).then_some(http::StatusCode::OK);
        let (st, text) = match sim.choose(4) {
            0 => (SubgraphResponseStatus::HookError, "HOOK_ERROR"),
            1 => (SubgraphResponseStatus::HttpError, "HTTP_ERROR"),
            2 => (SubgraphResponseStatus::InvalidGraphqlResponseError, "INVALID_RESPONSE"),
            _ => {
                let (s, t) = status(sim);
                (SubgraphResponseStatus::WellFormedGraphqlResponse(s), t)
            }
        };
        e.record_subgraph_request_duration(SubgraphRequestDurationAttributes { name: name.clone(), status: st, http_status_code: code }, d);
        let mut a = vec![sub[0].clone(), ("graphql.subgraph.response.status", text.to_string())];
        if code.is_some() {
            a.push(("http.response.status_code", "200".into()));
        }
        add(m, "graphql.subgraph.request.duration", &a, v);
        let n = sim.log_range(0, 10_000);
        e.record_subgraph_response_size(SubgraphResponseBodySizeAttributes { name: name.clone() }, n as usize);
        add(m, "graphql.subgraph.response.body.size", &sub, n as i64);
    }
    for _ in 0..sim.choose(3) {
        let cl = client(sim);
        let name = sim.chance(500).then(|| "N".to_string());
        let mut a = vec![("graphql.response.error.code", "CODE".to_string())];
        if name.is_some() {
            a.push(("graphql.operation.name", "N".into()));
        }
        client_attrs(&cl, &mut a);
        e.increment_graphql_errors(GraphqlErrorAttributes { code: "CODE", operation_name: name, client: cl });
        add(m, "graphql.operation.errors", &a, 1);
    }
    let (d, v) = ms(sim);
    let (st, text) = status(sim);
    let cl = client(sim);
    let ty = op.ty;
    e.record_query_or_mutation_duration(GraphqlRequestMetricsAttributes { operation: op, status: st, client: cl.clone() }, d);
    if ty != OperationType::Subscription {
        if let Some(v) = &c.version {
            attrs.push(("grafbase.graph.version", v.clone()));
        }
        attrs.push(("graphql.response.status", text.into()));
        client_attrs(&cl, &mut attrs);
        add(m, "graphql.operation.duration", &attrs, v);
    }
    let (d, v) = ms(sim);
    let errors = sim.chance(300);
    let cl = client(sim);
    let mut a = vec![("http.response.status_code", "200".to_string())];
    client_attrs(&cl, &mut a);
    if errors {
        a.push(("graphql.response.has_errors", "true".into()));
    }
    let full = sim.chance(500);
    if full {
        a.extend([
            ("http.request.method", "POST".to_string()),
            ("http.route", "/graphql".to_string()),
            ("network.protocol.version", "HTTP/1.1".to_string()),
            ("server.address", "127.0.0.1".to_string()),
            ("server.port", "4000".to_string()),
            ("url.scheme", "http".to_string()),
            ("http.response.headers.cache.status", "HIT".to_string()),
        ]);
    }
    r.record_http_duration(
        RequestMetricsAttributes {
            status_code: 200,
            cache_status: full.then(|| "HIT".into()),
            client: cl,
            url_scheme: full.then(|| "http".into()),
            route: full.then(|| "/graphql".into()),
            listen_address: full.then(|| "127.0.0.1:4000".parse().unwrap()),
            version: full.then_some(http::Version::HTTP_11),
            method: full.then_some(http::Method::POST),
            has_graphql_errors: errors,
        },
        d,
    );
    add(m, "http.server.request.duration", &a, v);
    threads::yield_point("response sent");
    let n = sim.log_range(0, 100_000);
    r.record_response_body_size(n);
    add(m, "http.server.response.body.size", &[], n as i64);
    r.decrement_connected_clients();
    add(m, "http.server.connected.clients", &[], -1);
    sim.event_with(v as u64, || format!("request done, {v} ms"));
}

fn run(sim: &Sim) {
    let reader = Reader(Arc::new(ManualReader::builder().with_temporality(Temporality::Cumulative).build()));
    let provider = SdkMeterProvider::builder().with_reader(reader.clone()).build();
    let meter = grafbase_telemetry::metrics::meter(&provider);
    let version = sim.chance(500).then(|| "ver".to_string());
    let c = Arc::new(Ctx {
        sim: sim.clone(),
        engine: EngineMetrics::build(&meter, version.clone()),
        request: RequestMetrics::build(&meter),
        model: Default::default(),
        version,
    });
    let n = sim.range(1, 4) as usize;
    if n > 1 {
        sim.nontrivial();
    }
    let mut bodies: Vec<threads::Body> = Vec::new();
    for _ in 0..n {
        let c = c.clone();
        bodies.push(Box::new(move || {
            for _ in 0..c.sim.range(1, 3) {
                request(&c);
            }
        }));
    }
    threads::run_threads(sim, bodies);
    let got = collect(&reader);
    let want = c.model.lock().unwrap();
    for (k, (count, sum)) in want.iter() {
        let Some((gc, gs)) = got.get(k) else {
            sim.violate("metric missing", format!("{} {:?}: expected {sum} over {count} records", k.0, k.1));
            return;
        };
        let histogram = *gc > 0;
        if gs != sum || (histogram && gc != count) {
            sim.violate("metric total wrong", format!("{} {:?}: expected {sum} over {count} records, got {gs} over {gc}", k.0, k.1));
            return;
        }
    }
    for (k, v) in &got {
        if !want.contains_key(k) && *v != (0, 0) {
            sim.violate("metric not expected", format!("{} {:?} = {v:?}", k.0, k.1));
            return;
        }
    }
    let _ = provider.shutdown();
}

pub fn conservation() -> Prop {
    Prop {
        id: "T02",
        scenarios: vec![Scenario { name: "concurrent requests", weight: 1, run }],
        rule: "one run = 1-4 threads, each serving 1-3 simulated requests and reporting them through the gateway's metrics, interleaved by the seeded scheduler; afterwards every data point is compared with the sum of what was reported; non-trivial with two or more threads; distinct by hash of the history",
        real: &["engine and request metrics of grafbase-telemetry", "opentelemetry_sdk metrics pipeline"],
        stub: &["metric exporter: a manual reader", "OS thread scheduling", "the requests themselves"],
        assumptions: &["instrument names and attributes as documented are the contract with dashboards"],
        quick: (20, 150_000),
        thorough: (120, 10_000_000),
    }
}
