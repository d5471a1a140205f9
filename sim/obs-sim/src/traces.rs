//! Spans exported for interleaved requests.
use crate::logs::{YieldOnce, execute};
use futures::FutureExt;
use gateway_config::telemetry::{BatchExportConfig, StdoutExporterConfig, TelemetryConfig, TracingCollectConfig};
use grafbase_telemetry::graphql::*;
use grafbase_telemetry::http::HeaderInjector;
use grafbase_telemetry::otel::layer::{OtelTelemetry, build};
use grafbase_telemetry::span::cache::CacheSpan;
use grafbase_telemetry::span::graphql::GraphqlOperationSpan;
use grafbase_telemetry::span::http_request::{HttpRequestSpan, HttpRequestSpanBuilder};
use grafbase_telemetry::span::resolver::ResolverInvocationSpan;
use grafbase_telemetry::span::subgraph::{SubgraphHttpRequestSpan, SubgraphRequestSpanBuilder};
use grafbase_telemetry::span::{CacheRecorderSpanExt, ResolverInvocationRecorderSpanExt};
use opentelemetry::KeyValue;
use opentelemetry::propagation::{Extractor, TextMapPropagator};
use opentelemetry::trace::{SpanContext, SpanId, TraceFlags, TraceId, TraceState};
use opentelemetry_sdk::propagation::TraceContextPropagator;
use opentelemetry_sdk::trace::IdGenerator;
use simkit::hooks::{self, guard};
use simkit::runner::{Prop, Scenario};
use simkit::{Sim, threads};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use tracing::Instrument;
use tracing_opentelemetry::OpenTelemetrySpanExt;
use tracing_subscriber::layer::SubscriberExt;

type Task = Pin<Box<dyn Future<Output = ()> + Send>>;

/// Span ids count up; the low half of a trace id is small, large or in between, as the ratio sampler looks at it.
struct Ids(Sim, Mutex<u64>);
impl std::fmt::Debug for Ids {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Ids")
    }
}

fn trace_of(n: u64, class: u32) -> TraceId {
    let low = match class {
        0 => n,
        1 => u64::MAX - n,
        _ => (n.wrapping_mul(0x9e37_79b9_7f4a_7c15)) | 1,
    };
    TraceId::from(((0x1000_0000_0000_0000u64 + n) as u128) << 64 | low as u128)
}

impl IdGenerator for Ids {
    fn new_trace_id(&self) -> TraceId {
        let class = self.0.choose(3);
        guard(|| {
            let mut n = self.1.lock().unwrap();
            *n += 1;
            trace_of(*n, class)
        })
    }
    fn new_span_id(&self) -> SpanId {
        guard(|| {
            let mut n = self.1.lock().unwrap();
            *n += 1;
            SpanId::from(0x2000_0000_0000_0000u64 + *n)
        })
    }
}

/// What must be exported for one span.
#[derive(Debug, Default, Clone)]
struct Node {
    parent: Option<usize>,
    name: String,
    kind: &'static str,
    status: &'static str,
    /// In the order they were recorded.
    attrs: Vec<(&'static str, String)>,
    events: Vec<(String, Vec<(&'static str, String)>)>,
    links: Vec<(SpanContext, usize)>,
}

#[derive(Debug, Clone)]
struct Root {
    node: usize,
    /// Where the caller's `traceparent` says this request belongs.
    remote: Option<SpanContext>,
}

#[derive(Clone, Debug)]
struct Sent {
    node: usize,
    headers: http::HeaderMap,
}

#[derive(Default)]
struct Ledger {
    nodes: Vec<Node>,
    roots: Vec<Root>,
    sent: Vec<Sent>,
    /// Work a request leaves behind when its response is on the way.
    late: Vec<Task>,
}

struct World {
    sim: Sim,
    ledger: Mutex<Ledger>,
    dispatch: tracing::Dispatch,
}

impl World {
    fn with<R>(&self, f: impl FnOnce(&mut Ledger) -> R) -> R {
        guard(|| f(&mut self.ledger.lock().unwrap()))
    }
    fn node(&self, n: Node) -> usize {
        self.with(|l| {
            l.nodes.push(n);
            l.nodes.len() - 1
        })
    }
    fn set(&self, node: usize, key: &'static str, value: impl ToString) {
        let value = value.to_string();
        self.with(|l| l.nodes[node].attrs.push((key, value)));
    }
    fn opt(&self, node: usize, key: &'static str, value: Option<impl ToString>) {
        if let Some(v) = value {
            self.set(node, key, v);
        }
    }
    fn status(&self, node: usize, status: &'static str) {
        self.with(|l| l.nodes[node].status = status);
    }
    fn rename(&self, node: usize, name: &str) {
        self.with(|l| l.nodes[node].name = name.to_string());
    }
}

const ERROR: &str = "Error { description: \"\" }";

struct Body(Option<u64>);

impl http_body::Body for Body {
    type Data = bytes::Bytes;
    type Error = std::convert::Infallible;
    fn poll_frame(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Option<Result<http_body::Frame<bytes::Bytes>, Self::Error>>> {
        std::task::Poll::Ready(None)
    }
    fn size_hint(&self) -> http_body::SizeHint {
        match self.0 {
            Some(n) => http_body::SizeHint::with_exact(n),
            None => http_body::SizeHint::default(),
        }
    }
}

struct Headers<'a>(&'a http::HeaderMap);
impl Extractor for Headers<'_> {
    fn get(&self, key: &str) -> Option<&str> {
        self.0.get(key).and_then(|v| v.to_str().ok())
    }
    fn keys(&self) -> Vec<&str> {
        self.0.keys().map(|k| k.as_str()).collect()
    }
}

async fn pause(w: &World) {
    for _ in 0..w.sim.choose(3) {
        w.sim.advance_ns(w.sim.choose(50) as u64 * 1_000_000);
        YieldOnce::new().await
    }
    threads::yield_point("step");
}

/// A log line inside a span becomes an event of that span.
fn event(w: &World, node: usize) {
    if !w.sim.chance(250) {
        return;
    }
    let n = w.sim.choose(1000);
    let mut fields = vec![];
    match w.sim.choose(3) {
        0 => tracing::info!("said {n}"),
        1 => {
            tracing::info!(first = n, "said {n}");
            fields.push(("first", n.to_string()));
        }
        _ => {
            tracing::warn!(first = n, second = "s", third = true, "said {n}");
            fields.extend([("first", n.to_string()), ("second", "s".into()), ("third", "true".into())]);
        }
    }
    w.with(|l| l.nodes[node].events.push((format!("said {n}"), fields)));
}

fn status_of(sim: &Sim) -> http::StatusCode {
    http::StatusCode::from_u16(*sim.pick(&[200, 200, 200, 201, 204, 302, 400, 401, 403, 404, 429, 500, 502, 503, 504])).unwrap()
}

fn graphql_status(sim: &Sim) -> GraphqlResponseStatus {
    match sim.choose(6) {
        0..=2 => GraphqlResponseStatus::Success,
        3 => GraphqlResponseStatus::FieldError { count: sim.range(1, 9), data_is_null: sim.chance(500) },
        4 => GraphqlResponseStatus::RequestError { count: sim.range(1, 9) },
        _ => GraphqlResponseStatus::RefusedRequest,
    }
}

fn expect_graphql_status(w: &World, node: usize, status: GraphqlResponseStatus) {
    match status {
        GraphqlResponseStatus::Success => w.set(node, "graphql.response.data.is_present", true),
        GraphqlResponseStatus::FieldError { count, data_is_null } => {
            w.set(node, "graphql.response.errors.count", count);
            w.set(node, "graphql.response.data.is_present", true);
            if data_is_null {
                w.set(node, "graphql.response.data.is_null", true);
            }
        }
        GraphqlResponseStatus::RequestError { count } => w.set(node, "graphql.response.errors.count", count),
        GraphqlResponseStatus::RefusedRequest => {}
    }
}

/// One request to a subgraph, with its attempts.
async fn subgraph_request(w: Arc<World>, parent: usize, tag: String) {
    let sim = w.sim.clone();
    let name = format!("sub-{tag}");
    let query = format!("query {{ q{} }}", sim.choose(1000));
    let ty = *sim.pick(&["query", "mutation", "subscription"]);
    let span = SubgraphRequestSpanBuilder { subgraph_name: &name, operation_type: ty, sanitized_query: &query }.build();
    let node = w.node(Node { parent: Some(parent), name: name.clone(), kind: "Client", status: "Unset", ..Default::default() });
    w.set(node, "grafbase.kind", "subgraph-graphql-request");
    w.set(node, "subgraph.name", &name);
    w.set(node, "graphql.operation.type", ty);
    w.set(node, "graphql.operation.document", &query);
    sim.event_with(node as u64, || format!("{tag}: subgraph request {node}"));
    let inner = span.span.clone();
    async {
        if sim.chance(200) {
            resolver(&w, node, &tag);
        }
        let attempts = sim.range(1, 3);
        for attempt in 0..attempts {
            let port = *sim.pick(&["", ":4000", ":80", ":443"]);
            let scheme = *sim.pick(&["http", "https"]);
            let url: url::Url = format!("{scheme}://{}{port}/{tag}/{attempt}{}", sim.pick(&["host", "10.0.0.1", "[::1]"]), sim.pick(&["", "?k=v", "?a=%20b&c"])).parse().unwrap();
            let method = sim.pick(&[http::Method::POST, http::Method::POST, http::Method::GET]).clone();
            let http_span = SubgraphHttpRequestSpan::new(&url, &method);
            let h = w.node(Node {
                parent: Some(node),
                name: format!("{method} /{tag}/{attempt}"),
                kind: "Internal",
                status: "Unset",
                ..Default::default()
            });
            w.set(h, "http.request.method", &method);
            w.opt(h, "server.address", url.host_str());
            w.opt(h, "server.port", url.port());
            w.set(h, "url.full", &url);
            let mut headers = http::HeaderMap::new();
            if sim.chance(200) {
                // Forwarded from the client by a header rule; this attempt's own must replace it.
                headers.insert("traceparent", http::HeaderValue::from_static("00-aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa-bbbbbbbbbbbbbbbb-01"));
            }
            if sim.chance(800) {
                TraceContextPropagator::new().inject_context(&http_span.context(), &mut HeaderInjector(&mut headers));
                w.with(|l| l.sent.push(Sent { node: h, headers }));
            }
            let dead = async {
                pause(&w).await;
                event(&w, h);
                sim.chance(150)
            }
            .instrument(http_span.span())
            .await;
            let count = attempt as usize;
            http_span.record_resend_count(count);
            if count > 0 {
                w.set(h, "http.request.resend_count", count);
            }
            if dead {
                sim.fault("attempt without response");
                http_span.set_as_http_error(None);
                w.status(h, ERROR);
            } else {
                let s = status_of(&sim);
                w.set(h, "http.response.status_code", s.as_u16());
                if !s.is_success() {
                    w.status(h, ERROR);
                    w.set(h, "error.type", s.as_str());
                    sim.fault("error status");
                }
                if s.is_server_error() && sim.chance(500) {
                    w.status(h, ERROR);
                    http_span.set_as_http_error(Some(s));
                } else {
                    http_span.record_http_status_code(s);
                }
            }
        }
        event(&w, node);
    }
    .instrument(inner)
    .await;
    if sim.chance(900) {
        let failed = |w: &World, ty: &str| {
            w.status(node, ERROR);
            w.set(node, "error.type", ty);
        };
        let status = match sim.choose(6) {
            0 => {
                failed(&w, "HOOK_ERROR");
                SubgraphResponseStatus::HookError
            }
            1 => {
                failed(&w, "HTTP_ERROR");
                SubgraphResponseStatus::HttpError
            }
            2 => {
                failed(&w, "INVALID_RESPONSE");
                SubgraphResponseStatus::InvalidGraphqlResponseError
            }
            _ => {
                let s = graphql_status(&sim);
                expect_graphql_status(&w, node, s);
                if matches!(s, GraphqlResponseStatus::RequestError { .. }) {
                    failed(&w, "REQUEST_ERROR");
                }
                SubgraphResponseStatus::WellFormedGraphqlResponse(s)
            }
        };
        span.record_graphql_response_status(status);
    }
}

fn resolver(w: &World, parent: usize, tag: &str) {
    let sim = &w.sim;
    if sim.chance(500) {
        let name = format!("res-{tag}");
        let span = ResolverInvocationSpan::new(&name).into_span();
        let node = w.node(Node { parent: Some(parent), name: format!("resolver:{name}"), kind: "Internal", status: "Unset", ..Default::default() });
        w.set(node, "resolver.name", &name);
        w.set(node, "resolver.invocation.is_error", false);
        span.in_scope(|| event(w, node));
        if sim.chance(400) {
            let text = format!("failed \"{}\"", sim.choose(1000));
            span.record_failure(&text);
            w.set(node, "resolver.invocation.error", text);
            w.set(node, "resolver.invocation.is_error", true);
        }
    } else {
        let value = |sim: &Sim| *sim.pick(&["HIT", "MISS", "STALE", "BYPASS"]);
        let first = value(sim);
        let span = CacheSpan::new(http::HeaderValue::from_static(first)).into_span();
        let node = w.node(Node { parent: Some(parent), name: "cache".into(), kind: "Internal", status: "Unset", ..Default::default() });
        w.set(node, "cache.status", first);
        span.in_scope(|| event(w, node));
        if sim.chance(400) {
            let last = value(sim);
            span.record_status(http::HeaderValue::from_static(last));
            w.set(node, "cache.status", last);
        }
        if sim.chance(300) {
            span.record_error();
            w.set(node, "cache.is_error", true);
        }
    }
}

struct Done {
    ty: OperationType,
    name: OperationName,
    errors: Vec<(String, u16)>,
}

fn by_code(errors: &[(String, u16)]) -> String {
    errors.iter().map(|(c, n)| format!("{c}:{n}")).collect::<Vec<_>>().join(",")
}

async fn operation(w: Arc<World>, parent: usize, tag: String) -> Done {
    let sim = w.sim.clone();
    let span = GraphqlOperationSpan::default();
    let node = w.node(Node { parent: Some(parent), name: "graphql".into(), kind: "Server", status: "Unset", ..Default::default() });
    w.set(node, "grafbase.kind", "graphql-operation");
    sim.event_with(node as u64, || format!("{tag}: operation {node}"));
    let ty = *sim.pick(&[OperationType::Query, OperationType::Query, OperationType::Mutation, OperationType::Subscription]);
    let name = match sim.choose(4) {
        0 | 1 => OperationName::Original(format!("Op{}", sim.choose(5))),
        2 => OperationName::Computed(format!("computed{}", sim.choose(5))),
        _ => OperationName::Unknown,
    };
    let inner = span.span.clone();
    let mut done = Done { ty, name: OperationName::Unknown, errors: Vec::new() };
    async {
        pause(&w).await;
        event(&w, node);
        if sim.chance(100) {
            // Refused before anything is known about the operation.
            return;
        }
        let attributes = GraphqlOperationAttributes {
            ty,
            name: name.clone(),
            sanitized_query: format!("query {{ sanitized{} }}", sim.choose(100)).into(),
            complexity_cost: sim.chance(300).then(|| sim.choose(500) as usize),
        };
        match &name {
            OperationName::Original(n) => {
                w.rename(node, n);
                w.set(node, "graphql.operation.name", n);
            }
            OperationName::Computed(n) => {
                w.rename(node, n);
                w.set(node, "grafbase.operation.computed_name", n);
            }
            OperationName::Unknown => {}
        }
        w.set(node, "graphql.operation.document", &attributes.sanitized_query);
        w.set(
            node,
            "graphql.operation.type",
            match ty {
                OperationType::Query => "query",
                OperationType::Mutation => "mutation",
                OperationType::Subscription => "subscription",
            },
        );
        w.opt(node, "graphql.operation.complexity", attributes.complexity_cost);
        span.record_operation(&attributes);
        done.name = name.clone();
        if sim.chance(300) {
            resolver(&w, node, &tag);
        }
        let k = sim.choose(4);
        futures::future::join_all((0..k).map(|i| subgraph_request(w.clone(), node, format!("{tag}-{i}")))).await;
    }
    .instrument(inner)
    .await;
    let status = graphql_status(&sim);
    done.errors = (0..sim.choose(3)).map(|i| (format!("CODE_{i}"), sim.range(1, 400) as u16)).collect();
    expect_graphql_status(&w, node, status);
    w.set(node, "graphql.response.errors.count_by_code", by_code(&done.errors));
    span.record_response(status, &done.errors);
    done
}

fn execution(w: &World, span: &HttpRequestSpan, node: usize, done: &[Done]) {
    let mut telemetry = GraphqlExecutionTelemetry::<String>::default();
    for d in done {
        telemetry.operations.push((d.ty, d.name.clone()));
        telemetry.errors_count_by_code.extend(d.errors.iter().cloned());
    }
    let text = |n: &OperationName| match n {
        OperationName::Original(s) | OperationName::Computed(s) => s.clone(),
        OperationName::Unknown => String::new(),
    };
    let join = |l: Vec<String>| l.join(",");
    w.set(node, "graphql.operations.name", join(done.iter().map(|d| text(&d.name)).collect()));
    w.set(
        node,
        "graphql.operations.type",
        join(
            done.iter()
                .map(|d| match d.ty {
                    OperationType::Query => "query".into(),
                    OperationType::Mutation => "mutation".into(),
                    OperationType::Subscription => "subscription".into(),
                })
                .collect(),
        ),
    );
    w.set(node, "graphql.response.errors.count", telemetry.errors_count_by_code.iter().map(|(_, n)| *n as u64).sum::<u64>());
    w.set(node, "graphql.response.errors.count_by_code", by_code(&telemetry.errors_count_by_code));
    span.record_graphql_execution_telemetry(&telemetry);
}

/// The whole of one client's request.
async fn request(w: Arc<World>, tag: String) {
    let sim = w.sim.clone();
    let mut req = http::Request::builder()
        .method(sim.pick(&[http::Method::POST, http::Method::POST, http::Method::GET, http::Method::OPTIONS]))
        .uri(format!("{}/{tag}{}", sim.pick(&["", "http://gateway:5000", "https://example.com"]), sim.pick(&["", "?query=%7Ba%7D", "/graphql?x=1"])));
    let value = |sim: &Sim, text: &str| {
        if sim.chance(100) { http::HeaderValue::from_bytes(b"caf\xe9").unwrap() } else { http::HeaderValue::from_str(text).unwrap() }
    };
    let clean = |v: &Option<http::HeaderValue>| v.as_ref().and_then(|v| v.to_str().ok().map(str::to_string));
    let mut header = |name: &str, text: String| {
        let v = sim.chance(500).then(|| value(&sim, &text));
        if let Some(v) = &v {
            req.headers_mut().unwrap().insert(http::HeaderName::from_bytes(name.as_bytes()).unwrap(), v.clone());
        }
        v
    };
    let host = header("host", format!("host-{tag}"));
    let agent = header("user-agent", format!("agent-{tag}"));
    let forwarded = header("x-forwarded-for", format!("10.1.2.{}", sim.choose(200)));
    let client = header("x-grafbase-client-name", format!("client-{tag}"));
    let version = header("x-grafbase-client-version", format!("v-{tag}"));
    let remote = match sim.choose(4) {
        0 | 1 => None,
        2 => {
            let n = 0x7000 + sim.choose(1000) as u64;
            let flags = if sim.chance(700) { TraceFlags::SAMPLED } else { TraceFlags::default() };
            let trace = trace_of(n, sim.choose(3));
            let state = if sim.chance(300) { TraceState::from_key_value([("vendor", "x")]).unwrap() } else { TraceState::default() };
            let cx = SpanContext::new(trace, SpanId::from(0x7000_0000_0000_0000u64 + n), flags, true, state);
            let text = format!("00-{}-{}-{:02x}", cx.trace_id(), cx.span_id(), cx.trace_flags());
            req.headers_mut().unwrap().insert("traceparent", text.parse().unwrap());
            if cx.trace_state() != &TraceState::default() {
                req.headers_mut().unwrap().insert("tracestate", "vendor=x".parse().unwrap());
            }
            Some(cx)
        }
        _ => {
            sim.fault("malformed traceparent");
            let bad = *sim.pick(&["", "00", "00-0000-1-01", "00-00000000000000000000000000000000-1111111111111111-01", "zz"]);
            req.headers_mut().unwrap().insert("traceparent", bad.parse().unwrap());
            None
        }
    };
    let size = sim.chance(700).then(|| sim.choose(5000) as u64);
    let req = req.body(Body(size)).unwrap();
    let ray = sim.chance(500).then(|| http::HeaderValue::from_str(&format!("ray-{tag}")).unwrap());

    let span = HttpRequestSpanBuilder::from_http(&req).with_ray_id(ray.clone().map(std::borrow::Cow::Owned)).build();
    span.set_parent(TraceContextPropagator::new().extract(&Headers(req.headers())));
    let node = w.node(Node { parent: None, name: format!("{} {}", req.method(), req.uri().path()), kind: "Server", status: "Unset", ..Default::default() });
    w.with(|l| l.roots.push(Root { node, remote: remote.clone() }));
    w.set(node, "grafbase.kind", "http-request");
    w.opt(node, "server.address", clean(&host));
    w.set(node, "url.path", req.uri().path());
    w.opt(node, "url.scheme", req.uri().scheme_str());
    w.opt(node, "http.request.body.size", size);
    w.set(node, "http.request.method", req.method());
    w.opt(node, "user_agent.original", clean(&agent));
    w.opt(node, "http.request.header.x-forwarded-for", clean(&forwarded));
    if let Some(name) = clean(&client) {
        w.set(node, "http.request.header.x-grafbase-client-name", name);
        w.opt(node, "http.request.header.x-grafbase-client-version", clean(&version));
    }
    w.opt(node, "http.response.header.ray_id", clean(&ray));
    for i in 0..sim.choose(20).saturating_sub(16) {
        let cx = SpanContext::new(trace_of(0x9000 + i as u64, 0), SpanId::from(0x9000 + i as u64), TraceFlags::SAMPLED, true, TraceState::default());
        let n = sim.choose(4) as usize;
        span.add_link_with_attributes(cx.clone(), (0..n).map(|k| KeyValue::new(format!("k{k}"), k as i64)).collect());
        w.with(|l| l.nodes[node].links.push((cx, n)));
    }
    sim.event_with(node as u64, || format!("{tag}: request, traced by the caller: {remote:?}"));

    let inner = span.span.clone();
    async {
        pause(&w).await;
        event(&w, node);
        let n = *sim.pick(&[1, 1, 1, 2, 3]);
        let mut done = Vec::new();
        if sim.chance(500) {
            done = futures::future::join_all((0..n).map(|i| operation(w.clone(), node, format!("{tag}-{i}")))).await;
        } else {
            for i in 0..n {
                done.push(operation(w.clone(), node, format!("{tag}-{i}")).await);
            }
        }
        pause(&w).await;
        if sim.chance(100) {
            sim.fault("request fails inside");
            span.record_internal_server_error();
            w.status(node, ERROR);
            w.set(node, "error.type", 500);
            w.set(node, "http.response.status_code", 500);
            return;
        }
        let s = status_of(&sim);
        let size = sim.chance(600).then(|| sim.choose(90000) as u64);
        let response = http::Response::builder().status(s).body(Body(size)).unwrap();
        w.set(node, "http.response.status_code", s.as_str());
        w.opt(node, "http.response.body.size", size);
        if s.is_server_error() {
            w.status(node, ERROR);
            w.set(node, "error.type", s.as_str());
        } else {
            w.status(node, "Ok");
        }
        span.record_response(&response);
        if sim.chance(500) {
            execution(&w, &span, node, &done);
        } else {
            // Streamed: known once the stream has ended, in a task of its own.
            let (w2, span2) = (w.clone(), span.clone());
            let task = async move {
                pause(&w2).await;
                event(&w2, node);
                execution(&w2, &span2, node, &done);
            };
            let task = task.instrument(span.span.clone()).boxed();
            w.with(|l| l.late.push(task));
        }
    }
    .instrument(inner)
    .await
}

#[derive(Debug, Default, Clone)]
struct Got {
    name: String,
    trace: String,
    id: String,
    parent: String,
    kind: String,
    status: String,
    scope: String,
    start: String,
    end: String,
    attrs: Vec<(String, String)>,
    events: Vec<(String, Vec<(String, String)>)>,
    links: Vec<(String, usize)>,
}

/// The debug form of an exported value without its type.
fn plain(value: &str) -> String {
    if let Some(v) = value.strip_prefix("String(") {
        match (v.find('"'), v.rfind('"')) {
            (Some(a), Some(b)) if a < b => v[a..=b].to_string(),
            _ => value.to_string(),
        }
    } else {
        match (value.find('('), value.rfind(')')) {
            (Some(a), Some(b)) => format!("{:?}", &value[a + 1..b]),
            _ => value.to_string(),
        }
    }
}

/// Reads what the stdout exporter prints.
fn parse(out: &str) -> Result<(Vec<Got>, Vec<String>), String> {
    #[derive(PartialEq)]
    enum At {
        Resource,
        Span,
        Event,
        Link,
    }
    let (mut spans, mut resource, mut at) = (Vec::<Got>::new(), Vec::new(), At::Resource);
    for line in out.lines() {
        let t = line.trim();
        if t.is_empty() || t == "Spans" || t == "Resource" || t == "Instrumentation Scope" || t == "Attributes:" || t == "Events:" || t == "Links:" {
            continue;
        }
        if t.starts_with("Span #") {
            spans.push(Got::default());
            at = At::Span;
        } else if let Some(r) = t.strip_prefix("->") {
            if at == At::Resource {
                resource.push(r.trim().to_string());
                continue;
            }
            let (k, v) = r.trim().split_once(": ").ok_or_else(|| format!("attribute {line:?}"))?;
            let pair = (k.to_string(), plain(v));
            let s = spans.last_mut().ok_or("attribute outside a span")?;
            match at {
                At::Event => s.events.last_mut().unwrap().1.push(pair),
                At::Link => s.links.last_mut().unwrap().1 += 1,
                _ => s.attrs.push(pair),
            }
        } else if t.starts_with("Event #") {
            spans.last_mut().unwrap().events.push(Default::default());
            at = At::Event;
        } else if t.starts_with("Link #") {
            spans.last_mut().unwrap().links.push(Default::default());
            at = At::Link;
        } else if let Some((k, v)) = t.split_once(':') {
            let Some(s) = spans.last_mut() else { continue };
            let (k, v) = (k.trim(), v.trim().to_string());
            match (k, &at) {
                ("Name", At::Event) => s.events.last_mut().unwrap().0 = v,
                ("Timestamp", At::Event) => {}
                ("TraceId", At::Link) => s.links.last_mut().unwrap().0 = v,
                ("SpanId", At::Link) => s.links.last_mut().unwrap().0 += &format!("/{v}"),
                ("Name", _) if line.starts_with("\t\t") => s.scope = v,
                ("Version", _) => s.scope += &format!(" {v}"),
                ("Name", _) => s.name = v,
                ("TraceId", _) => s.trace = v,
                ("SpanId", _) => s.id = v,
                ("ParentSpanId", _) => s.parent = v,
                ("Kind", _) => s.kind = v,
                ("Status", _) => s.status = v,
                ("Start time", _) => s.start = v,
                ("End time", _) => s.end = v,
                ("TraceFlags", _) => {}
                _ => return Err(format!("line {line:?}")),
            }
        } else {
            return Err(format!("line {line:?}"));
        }
    }
    Ok((spans, resource))
}

const AMBIENT: &[&str] = &["code.", "thread.", "busy_ns", "idle_ns", "target", "level"];

fn own(attrs: &[(String, String)]) -> Vec<(String, String)> {
    attrs.iter().filter(|(k, _)| !AMBIENT.iter().any(|a| k.starts_with(a))).cloned().collect()
}

struct Judge<'a> {
    nodes: &'a [Node],
    children: Vec<Vec<usize>>,
    got: &'a [Got],
    below: BTreeMap<&'a str, Vec<usize>>,
    limits: TracingCollectConfig,
    /// Ledger node -> exported span.
    found: BTreeMap<usize, usize>,
}

impl Judge<'_> {
    /// What of `got` differs from what the ledger has for `node`, itself only.
    fn differs(&self, node: usize, got: usize) -> Option<String> {
        let (n, g) = (&self.nodes[node], &self.got[got]);
        if n.name != g.name || n.kind != g.kind || n.status != g.status {
            return Some(format!("{} kind {} status {} is exported as {} kind {} status {}", n.name, n.kind, n.status, g.name, g.kind, g.status));
        }
        let all: Vec<(String, String)> = n.attrs.iter().map(|(k, v)| (k.to_string(), format!("{v:?}"))).collect();
        let max = self.limits.max_attributes_per_span;
        let ours = own(&g.attrs);
        if g.attrs.len() > max {
            return Some(format!("{}: {} attributes, {max} allowed", n.name, g.attrs.len()));
        }
        if max >= 100 {
            // A key recorded again replaces what was there.
            let want: BTreeMap<_, _> = all.into_iter().collect();
            let have: BTreeMap<_, _> = ours.into_iter().collect();
            if want != have {
                let missing: Vec<_> = want.iter().filter(|(k, v)| have.get(*k) != Some(v)).collect();
                let extra: Vec<_> = have.iter().filter(|(k, v)| want.get(*k) != Some(v)).collect();
                return Some(format!("{}: recorded {missing:?}, exported {extra:?}", n.name));
            }
        } else {
            if let Some(x) = ours.iter().find(|x| !all.contains(x)) {
                return Some(format!("{}: {x:?} was never recorded", n.name));
            }
            if all.len() >= max && g.attrs.len() != max {
                return Some(format!("{}: {} attributes of {}, {max} allowed", n.name, g.attrs.len(), all.len()));
            }
        }
        let kept = n.events.len().min(self.limits.max_events_per_span);
        if g.events.len() != kept {
            return Some(format!("{}: {} events exported of {}, {} allowed", n.name, g.events.len(), n.events.len(), self.limits.max_events_per_span));
        }
        let max = self.limits.max_attributes_per_event;
        for ((name, fields), (gname, gfields)) in n.events.iter().zip(&g.events) {
            let ours = own(gfields);
            if gfields.len() > max {
                return Some(format!("{}: event with {} attributes, {max} allowed", n.name, gfields.len()));
            }
            let fields: Vec<(String, String)> = fields.iter().map(|(k, v)| (k.to_string(), format!("{v:?}"))).collect();
            let fine = if max >= 100 { ours == fields } else { ours.iter().all(|f| fields.contains(f)) && (fields.len() < max || gfields.len() == max) };
            if name != gname || !fine {
                return Some(format!("{}: event {name} {fields:?} exported as {gname} {ours:?}", n.name));
            }
        }
        let links: Vec<(String, usize)> = n
            .links
            .iter()
            .take(self.limits.max_links_per_span)
            .map(|(c, k)| (format!("{}/{}", c.trace_id(), c.span_id()), (*k).min(self.limits.max_attributes_per_link)))
            .collect();
        if links != g.links {
            return Some(format!("{}: links {links:?} exported as {:?}", n.name, g.links));
        }
        if g.start > g.end {
            return Some(format!("{} ends before it starts", n.name));
        }
        if g.scope != "\"grafbase\" \"1.0\"" {
            return Some(format!("{}: scope {}", n.name, g.scope));
        }
        None
    }

    /// `None` if the exported tree under `got` is the recorded tree under `node`.
    fn tree(&self, node: usize, got: usize, found: &mut BTreeMap<usize, usize>) -> Option<String> {
        if let Some(d) = self.differs(node, got) {
            return Some(d);
        }
        found.insert(node, got);
        let want = &self.children[node];
        let have = self.below.get(self.got[got].id.as_str()).cloned().unwrap_or_default();
        if want.len() != have.len() {
            return Some(format!(
                "{} has {} spans below it, {} are exported: {:?} for {:?}",
                self.nodes[node].name,
                want.len(),
                have.len(),
                have.iter().map(|g| &self.got[*g].name).collect::<Vec<_>>(),
                want.iter().map(|n| &self.nodes[*n].name).collect::<Vec<_>>()
            ));
        }
        // Siblings may have the same name: any assignment will do (they are few).
        let mut why = Vec::new();
        let mut fits: Vec<Vec<(usize, BTreeMap<usize, usize>)>> = Vec::new();
        for w in want {
            let mut ok = Vec::new();
            for h in &have {
                if self.got[*h].trace != self.got[got].trace {
                    return Some(format!("{} is in another trace than {}", self.got[*h].name, self.got[got].name));
                }
                let mut f = BTreeMap::new();
                match self.tree(*w, *h, &mut f) {
                    None => ok.push((*h, f)),
                    Some(d) if self.nodes[*w].name == self.got[*h].name => why.push(d),
                    Some(_) => {}
                }
            }
            if ok.is_empty() {
                return Some(why.last().cloned().unwrap_or_else(|| format!("{} isn't exported below {}", self.nodes[*w].name, self.nodes[node].name)));
            }
            fits.push(ok);
        }
        fn assign(fits: &[Vec<(usize, BTreeMap<usize, usize>)>], i: usize, used: &mut Vec<usize>, found: &mut BTreeMap<usize, usize>) -> bool {
            if i == fits.len() {
                return true;
            }
            for (h, f) in &fits[i] {
                if !used.contains(h) {
                    used.push(*h);
                    if assign(fits, i + 1, used, found) {
                        found.extend(f.iter().map(|(a, b)| (*a, *b)));
                        return true;
                    }
                    used.pop();
                }
            }
            false
        }
        if !assign(&fits, 0, &mut Vec::new(), found) {
            return Some(format!("the spans below {} aren't those recorded", self.nodes[node].name));
        }
        None
    }
}

/// Whether the trace must (not) be exported; `None` where the ratio decides.
fn sampled(config: &TelemetryConfig, trace: Option<TraceId>, remote: Option<&SpanContext>) -> Option<bool> {
    let p = config.tracing.sampling;
    if let (true, Some(r)) = (config.tracing.parent_based_sampler, remote) {
        return Some(r.is_sampled());
    }
    if p <= 0.0 {
        return Some(false);
    }
    if p >= 1.0 {
        return Some(true);
    }
    let low = u64::from_be_bytes(trace?.to_bytes()[8..].try_into().unwrap());
    match low {
        l if l < 1 << 32 => Some(true),
        l if l > u64::MAX - (1 << 32) => Some(false),
        _ => None,
    }
}

fn judge(sim: &Sim, l: &Ledger, config: &TelemetryConfig, out: &str) {
    let (got, resource) = match parse(out) {
        Ok(x) => x,
        Err(e) => return sim.violate("HARNESS", format!("exporter output: {e}")),
    };
    sim.count_n("spans exported", got.len() as u64);
    let mut children = vec![Vec::new(); l.nodes.len()];
    for (i, n) in l.nodes.iter().enumerate() {
        if let Some(p) = n.parent {
            children[p].push(i);
        }
    }
    let mut below: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for (i, g) in got.iter().enumerate() {
        below.entry(g.parent.as_str()).or_default().push(i);
    }
    let mut j = Judge { nodes: &l.nodes, children, got: &got, below, limits: config.tracing.collect.clone(), found: BTreeMap::new() };
    let mut unsampled = Vec::new();
    for r in &l.roots {
        let name = &l.nodes[r.node].name;
        let mine: Vec<usize> = (0..got.len()).filter(|g| got[*g].name == *name).collect();
        let trace = r.remote.as_ref().map(|c| c.trace_id()).or_else(|| mine.first().and_then(|g| TraceId::from_hex(&got[*g].trace).ok()));
        let must = sampled(config, trace, r.remote.as_ref());
        match (mine.len(), must) {
            (0, Some(true)) => return sim.violate("request without its trace", format!("{name} was sampled and isn't exported")),
            (0, _) => {
                unsampled.push(r.node);
                sim.count("requests not sampled");
                continue;
            }
            (_, Some(false)) => return sim.violate("unsampled request exported", format!("{name} of trace {trace:?}")),
            (1, _) => {}
            (n, _) => return sim.violate("span exported twice", format!("{name}: {n} times")),
        }
        let g = &got[mine[0]];
        let (t, p) = match &r.remote {
            Some(c) => (c.trace_id().to_string(), c.span_id().to_string()),
            None => (g.trace.clone(), "0000000000000000".into()),
        };
        if g.trace != t || g.parent != p {
            return sim.violate("request outside its caller's trace", format!("{name}: trace {} parent {}, expected trace {t} parent {p}", g.trace, g.parent));
        }
        let mut found = BTreeMap::new();
        if let Some(d) = j.tree(r.node, mine[0], &mut found) {
            return sim.violate("span differs from what was recorded", format!("{d} (request {name})"));
        }
        j.found.append(&mut found);
    }
    if j.found.len() != got.len() {
        let known: std::collections::BTreeSet<usize> = j.found.values().copied().collect();
        let stray = (0..got.len()).find(|g| !known.contains(g)).map(|g| got[g].name.clone());
        return sim.violate("span of no request", format!("{stray:?} is exported and belongs to no request"));
    }
    let root_of = |mut n: usize| {
        while let Some(p) = l.nodes[n].parent {
            n = p;
        }
        n
    };
    for s in &l.sent {
        let name = &l.nodes[s.node].name;
        let values: Vec<_> = s.headers.get_all("traceparent").iter().filter_map(|v| v.to_str().ok()).collect();
        let root = l.roots.iter().find(|r| r.node == root_of(s.node)).unwrap();
        let fine = match j.found.get(&s.node) {
            Some(g) => values == [format!("00-{}-{}-01", got[*g].trace, got[*g].id)],
            None => {
                values.len() == 1
                    && values[0].ends_with("-00")
                    && root.remote.as_ref().is_none_or(|r| values[0].starts_with(&format!("00-{}-", r.trace_id())))
            }
        };
        if !fine {
            return sim.violate("subgraph told another trace", format!("{name} was sent with {values:?}, its span is {:?}", j.found.get(&s.node).map(|g| (&got[*g].trace, &got[*g].id))));
        }
        if !j.found.contains_key(&s.node) {
            // tracing-opentelemetry keeps no state for spans that aren't recorded.
            continue;
        }
        let state = s.headers.get("tracestate").map(|v| v.to_str().unwrap_or("?").to_string()).unwrap_or_default();
        let want = if root.remote.as_ref().is_some_and(|r| r.trace_state() != &TraceState::default()) { "vendor=x" } else { "" };
        sim.check(state == want, "subgraph told another trace", || format!("{name} was sent with state {state:?}, the caller's is {want:?}"));
    }
    if !got.is_empty() {
        let mut want = vec![format!("service.name=String(Owned({:?}))", config.service_name)];
        want.extend(config.resource_attributes.iter().map(|(k, v)| format!("{k}=String(Owned({:?}))", v.as_str())));
        for w in want {
            sim.check(resource.contains(&w), "resource", || format!("{w} isn't among {resource:?}"));
        }
    }
}

fn run(sim: &Sim) {
    let mut config = TelemetryConfig { service_name: format!("service-{}", sim.choose(9)), ..Default::default() };
    if sim.chance(300) {
        config.resource_attributes.insert(ascii::AsciiString::from_ascii("zone").unwrap(), ascii::AsciiString::from_ascii(format!("z{}", sim.choose(9))).unwrap());
    }
    let stdout = StdoutExporterConfig {
        enabled: true,
        batch_export: Some(BatchExportConfig { scheduled_delay: std::time::Duration::from_secs(3600), max_queue_size: 4096, max_export_batch_size: 4096, max_concurrent_exports: 1 }),
        timeout: std::time::Duration::from_secs(60),
    };
    if sim.chance(500) {
        config.exporters.stdout = Some(stdout);
    } else {
        config.tracing.exporters.stdout = Some(stdout);
        if sim.chance(300) {
            config.exporters.stdout = Some(StdoutExporterConfig { enabled: false, ..Default::default() });
        }
    }
    config.tracing.sampling = *sim.pick(&[1.0, 1.0, 1.0, 0.5, 0.15, 0.0]);
    config.tracing.parent_based_sampler = sim.chance(500);
    if sim.chance(250) {
        let c = &mut config.tracing.collect;
        let some = |v: &mut usize, max: u64| {
            if sim.chance(400) {
                *v = sim.range(1, max) as usize;
            }
        };
        some(&mut c.max_events_per_span, 3);
        some(&mut c.max_attributes_per_span, 20);
        some(&mut c.max_links_per_span, 3);
        some(&mut c.max_attributes_per_event, 8);
        some(&mut c.max_attributes_per_link, 3);
    }
    sim.event_with(0, || format!("sampling {} parent based {} collect {:?}", config.tracing.sampling, config.tracing.parent_based_sampler, config.tracing.collect));
    hooks::capture_stdout();
    let built: Result<OtelTelemetry<tracing_subscriber::Registry>, _> = guard(|| build(&config, Ids(sim.clone(), Mutex::new(0))));
    let tracer = match built.map(|o| o.tracer) {
        Ok(Some(t)) => t,
        other => {
            hooks::captured();
            return sim.violate("tracing not set up", format!("an exporter is configured: {:?}", other.err().map(|e| e.to_string())));
        }
    };
    let provider = tracer.provider.clone();
    let dispatch = tracing::Dispatch::new(tracing_subscriber::registry().with(tracer.layer));
    let w = Arc::new(World { sim: sim.clone(), ledger: Default::default(), dispatch: dispatch.clone() });
    let n_threads = sim.range(1, 3) as usize;
    let mut bodies: Vec<threads::Body> = Vec::new();
    let mut total = 0;
    for t in 0..n_threads {
        let tasks: Vec<Task> = (0..sim.range(1, 3)).map(|k| cancellable(w.clone(), request(w.clone(), format!("r{t}{k}")).boxed()).boxed()).collect();
        total += tasks.len();
        let w = w.clone();
        bodies.push(Box::new(move || {
            tracing::dispatcher::with_default(&w.dispatch, || {
                execute(&w.sim, tasks);
                loop {
                    let late = w.with(|l| std::mem::take(&mut l.late));
                    if late.is_empty() {
                        break;
                    }
                    execute(&w.sim, late);
                }
            })
        }));
    }
    if total > 1 {
        sim.nontrivial();
    }
    threads::run_threads(sim, bodies);
    tracing::dispatcher::with_default(&dispatch, || w.with(|l| l.late.clear()));
    drop(dispatch);
    let out = guard(|| {
        let _ = provider.force_flush();
        let _ = provider.shutdown();
        hooks::captured()
    });
    if !sim.violated() {
        judge(sim, &w.ledger.lock().unwrap(), &config, &out);
    }
}

/// The client may go away: its request is dropped at an await point.
async fn cancellable(w: Arc<World>, mut task: Task) {
    let mut left = if w.sim.chance(150) { w.sim.range(1, 12) } else { u64::MAX };
    std::future::poll_fn(move |cx| {
        if left == 0 {
            w.sim.fault("client gone");
            return std::task::Poll::Ready(());
        }
        left -= 1;
        task.as_mut().poll(cx)
    })
    .await
}

pub fn stories() -> Prop {
    Prop {
        id: "T03",
        scenarios: vec![Scenario { name: "interleaved requests", weight: 1, run }],
        rule: "one run = a telemetry configuration and 1-3 threads, each polling 1-3 requests in an order the tape chooses; a request has 1-3 operations with 0-3 concurrent subgraph requests of 1-3 attempts, resolvers, cache lookups and log lines, and may be cancelled; non-trivial with two requests; distinct by hash of the history",
        real: &["span builders and recorders, trace provider, sampler, limits and resource of grafbase-telemetry", "telemetry configuration of gateway-config", "tracing, tracing-opentelemetry, opentelemetry_sdk with its batch processor, the stdout exporter"],
        stub: &["standard output: captured", "OTLP exporters: not used", "task executor and OS thread scheduling: the tape", "clock, entropy, id generator: seeded", "the engine: its calls of the span API are made by the simulated requests"],
        assumptions: &["fewer spans than the export queue holds"],
        quick: (30, 150_000),
        thorough: (240, 10_000_000),
    }
}
