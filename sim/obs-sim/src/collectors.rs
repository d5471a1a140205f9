//! Where spans, log records and measurements go: the configured collectors, behind a simulated network.
use gateway_config::telemetry::TelemetryConfig;
use grafbase_telemetry::otel::layer::{OtelTelemetry, build};
use opentelemetry::KeyValue;
use opentelemetry::metrics::MeterProvider;
use opentelemetry_proto::tonic::collector::logs::v1::ExportLogsServiceRequest;
use opentelemetry_proto::tonic::collector::metrics::v1::ExportMetricsServiceRequest;
use opentelemetry_proto::tonic::collector::trace::v1::ExportTraceServiceRequest;
use opentelemetry_proto::tonic::common::v1::{KeyValue as Kv, any_value::Value};
use opentelemetry_proto::tonic::metrics::v1::{metric::Data, number_data_point};
use opentelemetry_sdk::trace::RandomIdGenerator;
use prost::Message;
use reqwest012::hook::{Answer, Outgoing};
use simkit::hooks::{self, guard};
use simkit::runner::{Prop, Scenario};
use simkit::{Sim, threads};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tracing_subscriber::layer::SubscriberExt;

const S: u64 = 1_000_000_000;
/// Longest answer time of a healthy collector.
const LATENCY: u64 = S / 5;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum Signal {
    Traces,
    Metrics,
    Logs,
}

#[derive(Debug, Clone, Default)]
struct Batch {
    delay_ms: Option<u64>,
    queue: Option<usize>,
    size: Option<usize>,
    concurrent: Option<usize>,
}

/// One `otlp` section, as the operator wrote it.
#[derive(Debug, Clone, Default)]
struct Section {
    enabled: Option<bool>,
    endpoint: Option<String>,
    protocol: Option<&'static str>,
    http: Option<Vec<(String, String)>>,
    grpc: bool,
    timeout_s: Option<u64>,
    batch: Option<Batch>,
}

fn section(sim: &Sim, name: &str) -> Section {
    let endpoint = sim.chance(600).then(|| {
        let scheme = *sim.pick(&["http", "https"]);
        let port = *sim.pick(&["", ":4318", ":9000"]);
        let path = *sim.pick(&["", "/", "/ingest", "/v1/traces", "/v1/logs/", "/a/b?x=1", "/?token=t"]);
        format!("{scheme}://{name}.test{port}{path}")
    });
    let http = sim.chance(450).then(|| {
        let mut headers = Vec::new();
        if sim.chance(700) {
            headers.push((sim.pick(&["x-tenant", "X-Tenant"]).to_string(), format!("tenant-{name}")));
        }
        if sim.chance(400) {
            headers.push(("authorization".to_string(), format!("Bearer {name}=;,")));
        }
        if sim.chance(200) {
            headers.push((format!("x-{name}"), String::new()));
        }
        headers
    });
    let batch = sim.chance(700).then(|| Batch {
        delay_ms: sim.chance(700).then(|| *sim.pick(&[1000, 200, 20_000, 3_000])),
        queue: sim.chance(600).then(|| *sim.pick(&[16, 1, 4, 64])),
        size: sim.chance(600).then(|| *sim.pick(&[5, 1, 2, 100])),
        concurrent: sim.chance(200).then(|| *sim.pick(&[1, 3])),
    });
    Section {
        enabled: *sim.pick(&[Some(true), None, Some(false), Some(true)]),
        endpoint,
        protocol: *sim.pick(&[Some("http"), None, Some("grpc")]),
        http,
        grpc: sim.chance(150),
        timeout_s: sim.chance(500).then(|| *sim.pick(&[10, 1, 90])),
        batch,
    }
}

impl Section {
    fn write(&self, at: &str, out: &mut String) {
        let _ = writeln!(out, "[{at}]");
        if let Some(e) = self.enabled {
            let _ = writeln!(out, "enabled = {e}");
        }
        if let Some(e) = &self.endpoint {
            let _ = writeln!(out, "endpoint = \"{e}\"");
        }
        if let Some(p) = self.protocol {
            let _ = writeln!(out, "protocol = \"{p}\"");
        }
        if let Some(t) = self.timeout_s {
            let _ = writeln!(out, "timeout = \"{t}s\"");
        }
        if let Some(b) = &self.batch {
            let _ = writeln!(out, "[{at}.batch_export]");
            if let Some(d) = b.delay_ms {
                let _ = writeln!(out, "scheduled_delay = \"{d}ms\"");
            }
            for (k, v) in [("max_queue_size", b.queue), ("max_export_batch_size", b.size), ("max_concurrent_exports", b.concurrent)] {
                if let Some(v) = v {
                    let _ = writeln!(out, "{k} = {v}");
                }
            }
        }
        if self.grpc {
            let _ = writeln!(out, "[{at}.grpc.headers]\nx-grpc = \"yes\"");
        }
        if let Some(h) = &self.http {
            let _ = writeln!(out, "[{at}.http.headers]");
            for (k, v) in h {
                let _ = writeln!(out, "{k} = \"{v}\"");
            }
        }
    }
}

/// `Some(enabled)` when the operator wrote a `stdout` section; its `enabled` may be left out.
fn stdout(sim: &Sim, at: &str, toml: &mut String) -> Option<bool> {
    if !sim.chance(250) {
        return None;
    }
    let _ = writeln!(toml, "[{at}.exporters.stdout]");
    let enabled = *sim.pick(&[Some(true), None, Some(false)]);
    if let Some(e) = enabled {
        let _ = writeln!(toml, "enabled = {e}");
    }
    if sim.chance(500) {
        let _ = writeln!(toml, "[{at}.exporters.stdout.batch_export]\nscheduled_delay = \"{}s\"", sim.pick(&[1, 30]));
    }
    Some(enabled.unwrap_or(true))
}

/// Where one signal has to go, worked out from what the operator wrote.
#[derive(Debug, Clone)]
struct Dest {
    signal: Signal,
    url: String,
    headers: BTreeMap<String, String>,
    timeout: u64,
    delay: u64,
    queue: usize,
    size: usize,
    /// Permille of requests that fail.
    flaky: u32,
    /// Emitted and not attempted yet: id -> (when its emission began, had ended, items ahead, must arrive).
    pending: BTreeMap<u64, Pending>,
    attempted: BTreeSet<u64>,
    /// (instrument, lane) -> sum of what was attempted.
    sums: BTreeMap<(String, String), i64>,
    requests: u64,
    emissions: u64,
}

#[derive(Debug, Clone)]
struct Pending {
    begun: u64,
    /// Number of emissions that had begun by the time this one was complete.
    ended: Option<u64>,
    started_as: u64,
    /// Emissions to this destination that had begun, this one included.
    place: u64,
    ahead: usize,
    must: bool,
}

fn with_path(url: &str, path: &str) -> String {
    let mut u = url::Url::parse(url).unwrap();
    if u.path() == "/" {
        u.set_path(path);
    }
    u.to_string()
}

fn destination(signal: Signal, local: Option<&Section>, global: Option<&Section>, default_on: bool) -> Option<Dest> {
    let empty = Section::default();
    let (l, g) = (local.unwrap_or(&empty), global.unwrap_or(&empty));
    if !l.enabled.or(g.enabled).unwrap_or(default_on) {
        return None;
    }
    let path = match signal {
        Signal::Traces => "/v1/traces",
        Signal::Metrics => "/v1/metrics",
        Signal::Logs => "/v1/logs",
    };
    let url = match (&l.endpoint, &g.endpoint) {
        (Some(l), _) => url::Url::parse(l).unwrap().to_string(),
        (None, Some(g)) => with_path(g, path),
        (None, None) => format!("http://127.0.0.1:4318{path}"),
    };
    let batch = l.batch.clone().or(g.batch.clone()).unwrap_or_default();
    let queue = batch.queue.unwrap_or(2048);
    Some(Dest {
        signal,
        url,
        headers: l.http.clone().or(g.http.clone()).unwrap_or_default().into_iter().map(|(k, v)| (k.to_lowercase(), v)).collect(),
        timeout: l.timeout_s.or(g.timeout_s).unwrap_or(60) * S,
        delay: batch.delay_ms.unwrap_or(5000) * 1_000_000,
        queue,
        size: batch.size.unwrap_or(512).min(queue),
        flaky: 0,
        pending: BTreeMap::new(),
        attempted: BTreeSet::new(),
        sums: BTreeMap::new(),
        requests: 0,
        emissions: 0,
    })
}

struct World {
    sim: Sim,
    dests: Mutex<Vec<Dest>>,
    resource: BTreeMap<String, String>,
    totals: Mutex<BTreeMap<(String, String), i64>>,
    begun: Mutex<u64>,
    spans: Mutex<Vec<u64>>,
}

static WORLD: Mutex<Option<Arc<World>>> = Mutex::new(None);

fn text(v: &Kv) -> String {
    match v.value.as_ref().and_then(|v| v.value.as_ref()) {
        Some(Value::StringValue(s)) => s.clone(),
        Some(Value::IntValue(i)) => i.to_string(),
        other => format!("{other:?}"),
    }
}

fn attribute(attrs: &[Kv], name: &str) -> Option<String> {
    attrs.iter().find(|a| a.key == name).map(text)
}

#[derive(Default)]
struct Decoded {
    items: Vec<u64>,
    sums: Vec<((String, String), i64)>,
    resources: Vec<BTreeMap<String, String>>,
    scopes: BTreeSet<(String, String)>,
    wrong: Option<String>,
}

fn decode(signal: Signal, body: &[u8]) -> Result<Decoded, String> {
    let mut out = Decoded::default();
    let resource = |r: &Option<opentelemetry_proto::tonic::resource::v1::Resource>| {
        r.as_ref().map(|r| r.attributes.iter().map(|a| (a.key.clone(), text(a))).collect()).unwrap_or_default()
    };
    let id = |attrs: &[Kv]| attribute(attrs, "n").and_then(|n| n.parse().ok());
    match signal {
        Signal::Traces => {
            for r in ExportTraceServiceRequest::decode(body).map_err(|e| e.to_string())?.resource_spans {
                out.resources.push(resource(&r.resource));
                for s in r.scope_spans {
                    let scope = s.scope.unwrap_or_default();
                    out.scopes.insert((scope.name, scope.version));
                    for span in s.spans {
                        match id(&span.attributes) {
                            Some(n) if span.name == "work" => out.items.push(n),
                            _ => out.wrong = Some(format!("{span:?}")),
                        }
                    }
                }
            }
        }
        Signal::Logs => {
            for r in ExportLogsServiceRequest::decode(body).map_err(|e| e.to_string())?.resource_logs {
                out.resources.push(resource(&r.resource));
                for s in r.scope_logs {
                    for log in s.log_records {
                        match id(&log.attributes) {
                            Some(n) => out.items.push(n),
                            _ => out.wrong = Some(format!("{log:?}")),
                        }
                    }
                }
            }
        }
        Signal::Metrics => {
            for r in ExportMetricsServiceRequest::decode(body).map_err(|e| e.to_string())?.resource_metrics {
                out.resources.push(resource(&r.resource));
                for s in r.scope_metrics {
                    for m in s.metrics {
                        let lane = |a: &[Kv]| attribute(a, "lane").unwrap_or_default();
                        match &m.data {
                            Some(Data::Sum(sum)) => {
                                if sum.aggregation_temporality != 1 {
                                    out.wrong = Some(format!("{}: temporality {}", m.name, sum.aggregation_temporality));
                                }
                                for p in &sum.data_points {
                                    if let Some(number_data_point::Value::AsInt(v)) = p.value {
                                        out.sums.push(((m.name.clone(), lane(&p.attributes)), v));
                                    }
                                }
                            }
                            Some(Data::ExponentialHistogram(h)) => {
                                if h.aggregation_temporality != 1 {
                                    out.wrong = Some(format!("{}: temporality {}", m.name, h.aggregation_temporality));
                                }
                                for p in &h.data_points {
                                    out.sums.push(((format!("{} count", m.name), lane(&p.attributes)), p.count as i64));
                                    out.sums.push(((format!("{} sum", m.name), lane(&p.attributes)), p.sum.unwrap_or(0.0) as i64));
                                }
                            }
                            other => out.wrong = Some(format!("{}: {other:?}", m.name)),
                        }
                    }
                }
            }
        }
    }
    Ok(out)
}

/// The network: called by the exporters' threads.
pub fn network(o: Outgoing) -> Answer {
    let Some(world) = guard(|| WORLD.lock().unwrap().clone()) else { return Err("connection refused".into()) };
    let sim = world.sim.clone();
    let now = sim.now_ns();
    let (flaky, who) = guard(|| {
        let thread = std::thread::current();
        let signal = match thread.name().unwrap_or("") {
            n if n.contains("Traces") => Signal::Traces,
            n if n.contains("Logs") => Signal::Logs,
            n if n.contains("Metrics") => Signal::Metrics,
            n => panic!("exported from thread {n:?}"),
        };
        let mut dests = world.dests.lock().unwrap();
        let Some(d) = dests.iter_mut().find(|d| d.signal == signal && d.url == o.url) else {
            sim.violate("unexpected destination", format!("{signal:?} sent to {}", o.url));
            return (0, "nowhere".into());
        };
        d.requests += 1;
        let who = format!("{signal:?} -> {}", d.url);
        sim.check(o.method == "POST", "method", || format!("{who}: {}", o.method));
        for (k, v) in &d.headers {
            let got = o.headers.get(k).and_then(|v| v.to_str().ok());
            sim.check(got == Some(v.as_str()), "collector header", || format!("{who}: {k} is {got:?}, configured {v:?}"));
        }
        for k in o.headers.keys() {
            let known = ["content-type", "user-agent", "content-length", "accept", "host"].contains(&k.as_str());
            sim.check(known || d.headers.contains_key(k.as_str()), "foreign collector header", || format!("{who}: {k}"));
        }
        sim.check(o.timeout == Some(Duration::from_nanos(d.timeout)), "export timeout", || {
            format!("{who}: {:?} instead of {} s", o.timeout, d.timeout / S)
        });
        let decoded = match decode(signal, &o.body) {
            Ok(d) => d,
            Err(e) => {
                sim.violate("undecodable export", format!("{who}: {e}"));
                return (0, who);
            }
        };
        if let Some(w) = decoded.wrong {
            sim.violate("unexpected item", format!("{who}: {w}"));
        }
        for r in decoded.resources {
            let mine: BTreeMap<_, _> = r.iter().filter(|(k, _)| !k.starts_with("telemetry.sdk.")).map(|(k, v)| (k.clone(), v.clone())).collect();
            sim.check(mine == world.resource, "resource", || format!("{who}: {mine:?} instead of {:?}", world.resource));
        }
        if signal == Signal::Traces {
            sim.check(decoded.scopes.iter().all(|(n, v)| n == "grafbase" && v == "1.0"), "scope", || format!("{who}: {:?}", decoded.scopes));
        }
        sim.check(decoded.items.len() <= d.size, "batch size", || format!("{who}: {} items at once, configured {}", decoded.items.len(), d.size));
        sim.event(format!("{who}: {:?} {:?}", decoded.items, decoded.sums));
        for n in &decoded.items {
            if !sim.check(d.attempted.insert(*n), "exported twice", || format!("{who}: item {n}")) {
                continue;
            }
            let Some(p) = d.pending.get(n).cloned() else {
                sim.violate("unknown item", format!("{who}: item {n}"));
                continue;
            };
            if d.flaky == 0 {
                let overtook = if p.ended.is_some() { 0 } else { d.emissions - p.place } as usize;
                let allowed = (((p.ahead + overtook) / d.size) as u64 + 2) * (d.delay + 2 * LATENCY) + S / 10;
                sim.check(now - p.begun <= allowed, "late export", || {
                    format!("{who}: item {n} after {} ms, {} ahead of it, allowed {} ms", (now - p.begun) / 1_000_000, p.ahead, allowed / 1_000_000)
                });
            }
        }
        // What was handed over before one of these and did not come along was dropped.
        let latest = decoded.items.iter().filter_map(|n| d.pending.get(n)).map(|p| p.started_as).max();
        for n in &decoded.items {
            d.pending.remove(n);
        }
        if let Some(latest) = latest {
            let dropped: Vec<u64> = d.pending.iter().filter(|(_, p)| p.ended.is_some_and(|e| e < latest)).map(|(n, _)| *n).collect();
            for n in dropped {
                let p = d.pending.remove(&n).unwrap();
                sim.check(!p.must, "lost item", || format!("{who}: item {n} with {} ahead of it in a queue of {}", p.ahead, d.queue));
                sim.count("items dropped by full queues");
            }
        }
        for (k, v) in decoded.sums {
            *d.sums.entry(k).or_default() += v;
        }
        (d.flaky, who)
    });
    let timeout = o.timeout.map(|t| t.as_nanos() as u64).unwrap_or(u64::MAX / 4);
    let fate = if sim.chance(flaky) { 1 + sim.choose(5) } else { 0 };
    match fate {
        0 => {
            threads::sleep(sim.range(0, LATENCY));
            Ok((200, Default::default()))
        }
        1 => {
            sim.fault("collector refuses the connection");
            Err("connection refused".into())
        }
        2 => {
            sim.fault("collector answers with an error");
            threads::sleep(sim.range(0, LATENCY));
            Ok((*guard(|| sim.pick(&[503, 429, 400, 500, 404])), Default::default()))
        }
        3 => {
            sim.fault("collector never answers");
            threads::sleep(timeout);
            Err("operation timed out".into())
        }
        4 => {
            sim.fault("collector answers slowly");
            threads::sleep(sim.range(0, timeout));
            Ok((200, Default::default()))
        }
        _ => {
            sim.fault("connection lost before the answer");
            threads::sleep(sim.range(0, LATENCY));
            Err(format!("{who}: connection reset"))
        }
    }
}

#[derive(Clone)]
struct Emitter {
    world: Arc<World>,
    dispatch: tracing::Dispatch,
    counter: opentelemetry::metrics::Counter<u64>,
    histogram: opentelemetry::metrics::Histogram<u64>,
}

impl Emitter {
    fn item(&self, signal: Signal, sampled: bool) {
        let w = &self.world;
        let n = guard(|| {
            let mut begun = w.begun.lock().unwrap();
            *begun += 1;
            let n = *begun;
            if signal == Signal::Traces {
                w.spans.lock().unwrap().push(n);
            }
            if signal != Signal::Traces || sampled {
                for d in w.dests.lock().unwrap().iter_mut().filter(|d| d.signal == signal) {
                    d.emissions += 1;
                    let ahead = d.pending.len();
                    d.pending.insert(n, Pending { begun: w.sim.now_ns(), ended: None, started_as: n, place: d.emissions, ahead, must: false });
                }
            }
            n
        });
        let before = w.sim.now_ns();
        tracing::dispatcher::with_default(&self.dispatch, || match signal {
            Signal::Traces => drop(tracing::info_span!(target: "sim", "work", n = n as i64).entered()),
            _ => tracing::info!(target: "sim", n = n as i64, "line"),
        });
        self.prompt(before, "span or log record");
        guard(|| {
            let begun = *w.begun.lock().unwrap();
            for d in w.dests.lock().unwrap().iter_mut() {
                if let Some(p) = d.pending.get_mut(&n) {
                    p.ended = Some(begun);
                    // Others may have overtaken it meanwhile.
                    p.ahead += (d.emissions - p.place) as usize;
                    p.must = p.ahead < d.queue;
                }
            }
        });
    }

    /// Nothing an exporter does may hold up a request.
    fn prompt(&self, before: u64, what: &str) {
        let took = self.world.sim.now_ns() - before;
        self.world.sim.check(took < S / 10, "emitting blocks", || format!("a {what} took {} ms", took / 1_000_000));
    }

    fn measure(&self, lane: u64) {
        let w = &self.world;
        let v = w.sim.range(1, 9);
        let before = w.sim.now_ns();
        let lane = lane.to_string();
        let put = |name: &str, v: u64| {
            guard(|| *w.totals.lock().unwrap().entry((name.to_string(), lane.clone())).or_default() += v as i64);
        };
        if w.sim.chance(600) {
            put("hits", v);
            self.counter.add(v, &[KeyValue::new("lane", lane.clone())]);
        } else {
            put("took count", 1);
            put("took sum", v);
            self.histogram.record(v, &[KeyValue::new("lane", lane.clone())]);
        }
        self.prompt(before, "measurement");
    }

    fn some(&self, client: u64, sampled: bool, ops: u64, pauses: bool) {
        let sim = &self.world.sim;
        for _ in 0..ops {
            let op = if pauses { sim.choose(6) } else { sim.choose(3) };
            match op {
                0 => self.item(Signal::Traces, sampled),
                1 => self.item(Signal::Logs, sampled),
                2 => self.measure(client),
                3 => {
                    let s = *sim.pick(&[Signal::Traces, Signal::Logs]);
                    for _ in 0..sim.range(1, 8) {
                        self.item(s, sampled);
                    }
                }
                _ => threads::sleep(sim.log_range(1_000_000, 30 * S)),
            }
        }
    }
}

/// What still has not been attempted although it must be.
fn owed(w: &World) -> Option<String> {
    let totals = w.totals.lock().unwrap();
    for d in w.dests.lock().unwrap().iter() {
        if let Some((n, p)) = d.pending.iter().find(|(_, p)| p.must) {
            return Some(format!("{:?} -> {}: item {n} ({} ahead of it in a queue of {})", d.signal, d.url, p.ahead, d.queue));
        }
        if d.signal == Signal::Metrics && d.sums != *totals {
            return Some(format!("{:?} -> {}: {:?} of {:?}", d.signal, d.url, d.sums, totals));
        }
    }
    None
}

fn scenario(sim: &Sim) {
    // The configuration.
    let global = sim.chance(700).then(|| section(sim, "global"));
    let mut local: Vec<Option<Section>> = ["traces", "metrics", "logs"].iter().map(|n| sim.chance(400).then(|| section(sim, n))).collect();
    for l in &mut local {
        let protocol = l.as_ref().and_then(|l| l.protocol).or(global.as_ref().and_then(|g| g.protocol));
        let enabled = l.as_ref().and_then(|l| l.enabled).or(global.as_ref().and_then(|g| g.enabled)) == Some(true);
        if protocol != Some("http") && enabled {
            l.get_or_insert_default().protocol = Some("http");
        }
    }
    let grafbase = sim.chance(400).then(|| {
        let mut s = section(sim, "grafbase");
        s.protocol = Some("http");
        s.endpoint.get_or_insert("https://otel.grafbase.test".into());
        s
    });
    let sampled = !sim.chance(100);
    let mut resource = BTreeMap::new();
    let mut toml = String::new();
    let name = *sim.pick(&["grafbase-gateway", "shop", "a b"]);
    if name != "grafbase-gateway" {
        let _ = writeln!(toml, "service_name = \"{name}\"");
    }
    let _ = writeln!(toml, "[tracing]\nsampling = {}", if sampled { "1.0" } else { "0.0" });
    if sim.chance(500) {
        let _ = writeln!(toml, "[resource_attributes]");
        for k in ["deployment.environment", "region", "host.name"] {
            if sim.chance(500) {
                let v = *sim.pick(&["prod", "eu-1", ""]);
                let _ = writeln!(toml, "\"{k}\" = \"{v}\"");
                resource.insert(k.to_string(), v.to_string());
            }
        }
    }
    resource.insert("service.name".to_string(), name.to_string());
    if let Some(g) = &global {
        g.write("exporters.otlp", &mut toml);
    }
    for (l, n) in local.iter().zip(["tracing", "metrics", "logs"]) {
        if let Some(l) = l {
            l.write(&format!("{n}.exporters.otlp"), &mut toml);
        }
    }
    if let Some(g) = &grafbase {
        g.write("grafbase", &mut toml);
    }
    let mut section_of = |at: &str| {
        let mut t = String::new();
        let enabled = stdout(sim, at, &mut t);
        toml.push_str(&t.replace("[.", "["));
        enabled
    };
    let everywhere = section_of("");
    let printed: Vec<bool> = ["tracing", "metrics"].iter().map(|n| section_of(n).or(everywhere).unwrap_or(false)).collect();
    let mut dests: Vec<Dest> = [Signal::Traces, Signal::Metrics, Signal::Logs]
        .into_iter()
        .zip(&local)
        .filter_map(|(s, l)| destination(s, l.as_ref(), global.as_ref(), false))
        .collect();
    for s in [Signal::Traces, Signal::Metrics] {
        dests.extend(grafbase.as_ref().and_then(|g| destination(s, None, Some(g), true)));
    }
    for d in &mut dests {
        d.flaky = *sim.pick(&[0, 0, 300, 1000]);
        sim.event(format!("{:?} -> {} delay {} ms, batches of {}, queue of {}, timeout {} s, {} ‰ fail", d.signal, d.url, d.delay / 1_000_000, d.size, d.queue, d.timeout / S, d.flaky));
    }
    if dests.len() > 1 {
        sim.nontrivial();
    }
    sim.count_n("destinations", dests.len() as u64);
    let config: TelemetryConfig = match guard(|| toml::from_str(&toml)) {
        Ok(c) => c,
        Err(e) => return sim.violate("configuration refused", format!("{e}\n{toml}")),
    };
    let world = Arc::new(World {
        sim: sim.clone(),
        dests: Mutex::new(dests),
        resource,
        totals: Mutex::new(BTreeMap::new()),
        begun: Mutex::new(0),
        spans: Mutex::new(Vec::new()),
    });
    guard(|| *WORLD.lock().unwrap() = Some(world.clone()));
    let clients = sim.range(1, 3);
    let plan: Vec<u64> = (0..clients).map(|_| sim.range(2, 12)).collect();
    let tail = if sim.chance(500) { sim.range(0, 6) } else { 0 };
    let w = world.clone();
    hooks::capture_stdout();
    threads::run_threads(sim, vec![Box::new(move || main_thread(w, config, plan, tail, sampled))]);
    let text = hooks::captured();
    if !sim.violated() {
        guard(|| on_stdout(sim, &world, &text, &printed, sampled));
    }
    guard(|| *WORLD.lock().unwrap() = None);
}

fn on_stdout(sim: &Sim, w: &World, text: &str, printed: &[bool], sampled: bool) {
    let mut spans: Vec<u64> = text.lines().filter_map(|l| l.strip_prefix("\t\t ->  n: I64(")?.strip_suffix(')')?.parse().ok()).collect();
    spans.sort();
    let all = if printed[0] && sampled { w.spans.lock().unwrap().clone() } else { Vec::new() };
    sim.check(spans == all, "spans on standard output", || format!("{spans:?} instead of {all:?}"));
    let hits: i64 = text.lines().filter_map(|l| l.strip_prefix("\t\t\tValue        : ")?.parse::<i64>().ok()).sum();
    let total: i64 = w.totals.lock().unwrap().iter().filter(|((n, _), _)| n == "hits").map(|(_, v)| *v).sum();
    let want = if printed[1] { total } else { 0 };
    sim.check(hits == want, "measurements on standard output", || format!("{hits} hits instead of {want}"));
    sim.count_n("spans printed", spans.len() as u64);
}

fn main_thread(w: Arc<World>, config: TelemetryConfig, plan: Vec<u64>, tail: u64, sampled: bool) {
    let sim = w.sim.clone();
    let telemetry: OtelTelemetry<tracing_subscriber::Registry> = match build(&config, RandomIdGenerator::default()) {
        Ok(t) => t,
        Err(e) => return sim.violate("telemetry refused", format!("{e}")),
    };
    let OtelTelemetry { tracer, meter_provider, logger } = telemetry;
    let meters = meter_provider.expect("a meter provider");
    let tracers = tracer.as_ref().map(|t| t.provider.clone());
    let loggers = logger.as_ref().map(|l| l.provider.clone());
    let (layer, logs) = (tracer.map(|t| t.layer), logger.map(|l| l.layer));
    // What the exporters log about themselves is not part of this.
    let ours = tracing_subscriber::filter::Targets::new().with_target("sim", tracing::Level::TRACE);
    let dispatch = tracing::Dispatch::new(tracing_subscriber::registry().with(layer).with(logs).with(ours));
    let meter = meters.meter("sim");
    let emitter = Emitter {
        world: w.clone(),
        dispatch,
        counter: meter.u64_counter("hits").build(),
        histogram: meter.u64_histogram("took").build(),
    };
    drop(meter);
    let clients: Vec<_> = plan
        .into_iter()
        .enumerate()
        .map(|(i, ops)| {
            let e = emitter.clone();
            std::thread::spawn(move || e.some(i as u64, sampled, ops, true))
        })
        .collect();
    for c in clients {
        if let Err(p) = c.join() {
            std::panic::resume_unwind(p);
        }
    }
    // Everything reaches its collectors, one way or another, without being asked to.
    let (step, bound) = guard(|| {
        let dests = w.dests.lock().unwrap();
        let bound = dests.iter().map(|d| (d.pending.len() / d.size + 3) as u64 * (d.delay + d.timeout + S)).max().unwrap_or(0);
        (dests.iter().map(|d| d.delay).max().unwrap_or(0).max(S), bound)
    });
    let from = sim.now_ns();
    while guard(|| owed(&w)).is_some() && sim.now_ns() - from < bound {
        threads::sleep(step);
    }
    if let Some(o) = guard(|| owed(&w)) {
        return sim.violate("never exported", format!("{o}, {} s after the last request", (sim.now_ns() - from) / S));
    }
    // What is queued when the gateway stops goes out before it is gone.
    emitter.some(9, sampled, tail, false);
    let expected: Vec<(String, Vec<u64>)> = guard(|| {
        w.dests
            .lock()
            .unwrap()
            .iter()
            .map(|d| {
                let all: Vec<u64> = d.pending.iter().filter(|(_, p)| p.must).map(|(n, _)| *n).collect();
                (d.url.clone(), if d.pending.len() <= d.size { all } else { Vec::new() })
            })
            .collect()
    });
    let m = meters.clone();
    let stops = [
        tracers.clone().map(|p| std::thread::spawn(move || drop(p.shutdown()))),
        Some(std::thread::spawn(move || drop(m.shutdown()))),
        loggers.clone().map(|p| std::thread::spawn(move || drop(p.shutdown()))),
    ];
    for s in stops.into_iter().flatten() {
        let _ = s.join();
    }
    guard(|| {
        let totals = w.totals.lock().unwrap();
        for (d, (url, expected)) in w.dests.lock().unwrap().iter().zip(expected) {
            if d.flaky > 0 {
                continue;
            }
            for n in expected {
                sim.check(d.attempted.contains(&n), "lost at shutdown", || format!("{:?} -> {url}: item {n}", d.signal));
            }
            if d.signal == Signal::Metrics {
                sim.check(d.sums == *totals, "measurements lost at shutdown", || format!("{url}: {:?} of {:?}", d.sums, totals));
            }
            sim.count_n("export requests", d.requests);
        }
    });
    drop(emitter);
    drop((meters, tracers, loggers));
}

fn run(sim: &Sim) {
    scenario(sim)
}

pub fn destinations() -> Prop {
    Prop {
        id: "T04",
        scenarios: vec![Scenario { name: "collectors", weight: 1, run }],
        rule: "one run = a telemetry configuration (global, per-signal and Grafbase collectors over HTTP) and 1-3 client threads that emit spans, log records and measurements with pauses, then a quiet period, a few more items, and shutdown; each collector is healthy or fails some or all requests (refused, error status, no answer, slow, connection lost); non-trivial with two collectors; distinct by hash of the history",
        real: &["exporters, layers, providers and resource of grafbase-telemetry", "telemetry configuration of gateway-config, from TOML", "batch processors, periodic readers and their threads of opentelemetry_sdk", "opentelemetry-otlp: encoding and HTTP export", "tracing, tracing-opentelemetry"],
        stub: &["reqwest 0.12: the simulated collectors' network", "OTLP over gRPC: not used", "OS thread scheduling, including the exporters' own threads: the tape", "clock, entropy: seeded"],
        assumptions: &["a collector that answers 200 has taken the batch"],
        quick: (30, 150_000),
        thorough: (240, 10_000_000),
    }
}
