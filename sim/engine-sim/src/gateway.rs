//! A real engine in a simulated world.
use crate::gql::J;
use crate::runtime::{OpCacheMode, SimRuntime, World};
use bytes::Bytes;
use engine::{Body, ContractAwareEngine, RequestExtensions, Schema};
use simkit::Sim;
use std::cell::Cell;
use std::sync::Arc;
use std::time::Duration;

thread_local! {
    static ORIGIN: Cell<Option<tokio::time::Instant>> = const { Cell::new(None) };
}

fn tokio_clock() -> Option<u64> {
    let origin = ORIGIN.try_with(|o| o.get()).ok().flatten()?;
    tokio::runtime::Handle::try_current().ok()?;
    Some((tokio::time::Instant::now() - origin).as_nanos() as u64 + 1_000_000_000)
}

/// Runs a future on a deterministic single-threaded executor whose timers are virtual. A future that
/// isn't done after `limit` of simulated time is stuck.
pub fn run<T>(sim: &Sim, limit: Duration, f: impl Future<Output = T>) -> Option<T> {
    // Tokio's timer wheel corrupts memory with timers of more than two years.
    assert!(limit < Duration::from_secs(50_000_000));
    let seed = sim.entropy();
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()))
        .build()
        .unwrap();
    let r = rt.block_on(async {
        ORIGIN.with(|o| o.set(Some(tokio::time::Instant::now())));
        simkit::hooks::set_clock_source(Some(tokio_clock));
        let r = tokio::time::timeout(limit, f).await;
        simkit::hooks::set_clock_source(None);
        ORIGIN.with(|o| o.set(None));
        r
    });
    match r {
        Ok(r) => Some(r),
        Err(_) => {
            sim.violate("stuck", format!("no progress within {limit:?} of simulated time"));
            None
        }
    }
}

pub struct Gateway {
    pub world: World,
    pub engine: Arc<ContractAwareEngine<SimRuntime>>,
}

#[derive(Clone, Debug)]
pub struct Reply {
    pub status: u16,
    pub text: String,
    pub json: J,
}

impl Reply {
    pub fn data(&self) -> Option<&J> {
        self.json.get("data")
    }
    pub fn errors(&self) -> &[J] {
        self.json.get("errors").map_or(&[], J::arr)
    }
}

/// The composed graph of a model; a model composes by construction.
pub fn compose(world: &World) -> Option<String> {
    let m = &world.m;
    compose_sdl(world, m.subs.iter().enumerate().map(|(s, name)| (name.as_str(), m.sdl(s))))
}

pub fn compose_sdl<'a>(world: &World, subs: impl Iterator<Item = (&'a str, String)>) -> Option<String> {
    let mut subgraphs = graphql_composition::Subgraphs::default();
    for (s, (name, sdl)) in subs.enumerate() {
        world.sim.event_with(s as u64, || format!("subgraph {name}:\n{sdl}"));
        if let Err(e) = subgraphs.ingest_str(&sdl, name, Some(&format!("http://{name}.test/"))) {
            world.sim.violate("composition failed", format!("subgraph {name} is refused: {e}"));
            return None;
        }
    }
    match graphql_composition::compose(&mut subgraphs).into_result() {
        Ok(g) => Some(graphql_composition::render_federated_sdl(&g).expect("render_federated_sdl")),
        Err(d) => {
            let msgs: Vec<_> = d.iter_messages().collect();
            world.sim.violate("composition failed", format!("valid subgraphs do not compose: {msgs:?}"));
            None
        }
    }
}

pub async fn build(world: &World, sdl: &str, toml: &str, mode: OpCacheMode, tweak: impl FnOnce(&mut SimRuntime)) -> Option<Gateway> {
    world.sim.event_with(0xc0, || format!("config:\n{toml}"));
    let config: gateway_config::Config = toml::from_str(toml).expect("config");
    let schema = match Schema::builder(sdl).config(&config).build().await {
        Ok(s) => s,
        Err(e) => {
            world.sim.violate("schema refused", format!("the composed graph does not load: {}", e.join("; ")));
            return None;
        }
    };
    let mut rt = SimRuntime::new(world, mode);
    tweak(&mut rt);
    let engine = Arc::new(ContractAwareEngine::new(Arc::new(schema), rt));
    Some(Gateway { world: world.clone(), engine })
}

pub fn request_body(query: &str, vars: &J, name: Option<&str>) -> J {
    let mut o = vec![("query".to_string(), J::s(query)), ("variables".to_string(), vars.clone())];
    if let Some(n) = name {
        o.push(("operationName".into(), J::s(n)));
    }
    J::Obj(o)
}

impl Gateway {
    pub async fn send(&self, req: http::Request<Bytes>) -> http::Response<Body> {
        let (mut parts, body) = req.into_parts();
        if parts.extensions.get::<RequestExtensions>().is_none() {
            parts.extensions.insert(RequestExtensions::default());
        }
        let req = http::Request::from_parts(parts, async move { Ok(body) });
        self.engine.execute(req).await
    }

    pub async fn post(&self, body: &J, headers: &[(&str, String)]) -> Reply {
        let mut b = http::Request::builder()
            .method("POST")
            .uri("http://gateway.test/graphql")
            .header("content-type", "application/json")
            .header("accept", "application/json");
        for (k, v) in headers {
            b = b.header(*k, v);
        }
        let resp = self.send(b.body(Bytes::from(body.text())).unwrap()).await;
        self.reply(resp).await
    }

    pub async fn reply(&self, resp: http::Response<Body>) -> Reply {
        use futures_util::StreamExt;
        let (parts, body) = resp.into_parts();
        let mut bytes = Vec::new();
        match body {
            Body::Bytes(b) => bytes.extend_from_slice(&b),
            Body::Stream(mut s) => {
                while let Some(Ok(b)) = s.next().await {
                    bytes.extend_from_slice(&b);
                }
            }
        }
        let text = String::from_utf8_lossy(&bytes).into_owned();
        let json = match J::parse(&bytes) {
            Ok(j) => j,
            Err(e) => {
                self.world.sim.violate("malformed response", format!("{e}: {text}"));
                J::Null
            }
        };
        self.world.sim.event_with(0x4e9, || format!("response {} {text}", parts.status));
        Reply { status: parts.status.as_u16(), text, json }
    }
}
