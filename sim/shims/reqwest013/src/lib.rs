//! A client whose network is whatever `hook::install` provides; without one every connection is refused.
//! Neither redirects nor compression: what the network answers is what the caller sees.
use bytes::Bytes;
pub use http::{header, HeaderMap, Method, StatusCode, Version};
use http::{HeaderName, HeaderValue};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::future::Future;
use std::time::Duration;
pub use url::Url;

pub mod hook {
    use super::*;
    use std::pin::Pin;
    use std::result::Result;
    use std::sync::OnceLock;

    #[derive(Debug, Clone)]
    pub struct Outgoing {
        pub method: Method,
        pub url: String,
        pub headers: HeaderMap,
        pub body: Bytes,
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Failure {
        Refused,
        Lost,
    }

    pub type Boxed<T> = Pin<Box<dyn Future<Output = T> + Send>>;

    pub struct Incoming {
        pub status: u16,
        pub headers: HeaderMap,
        /// Resolves once the body is there, or fails where the connection breaks.
        pub body: Boxed<Result<Bytes, Failure>>,
    }

    /// The second argument is the timeout, which the network has to honour with `None`.
    pub type Network = fn(Outgoing, Option<Duration>) -> Boxed<Option<Result<Incoming, Failure>>>;

    static NETWORK: OnceLock<Network> = OnceLock::new();

    pub fn install(f: Network) {
        let _ = NETWORK.set(f);
    }

    pub(crate) fn send(o: Outgoing, t: Option<Duration>) -> Boxed<Option<Result<Incoming, Failure>>> {
        match NETWORK.get() {
            Some(f) => f(o, t),
            None => Box::pin(std::future::ready(Some(Err(Failure::Refused)))),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Kind {
    Builder,
    Connect,
    Request,
    Timeout,
    Status(StatusCode),
    Body,
    Decode,
}

#[derive(Debug)]
pub struct Error {
    kind: Kind,
    url: Option<Url>,
    source: Option<Source>,
}

#[derive(Debug)]
struct Source(String);
impl std::fmt::Display for Source {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Source {}

impl Error {
    fn new(kind: Kind, url: Option<Url>, source: impl ToString) -> Self {
        Error { kind, url, source: Some(Source(source.to_string())) }
    }
    pub fn url(&self) -> Option<&Url> {
        self.url.as_ref()
    }
    pub fn with_url(mut self, url: Url) -> Self {
        self.url = Some(url);
        self
    }
    pub fn without_url(mut self) -> Self {
        self.url = None;
        self
    }
    pub fn is_builder(&self) -> bool {
        self.kind == Kind::Builder
    }
    pub fn is_redirect(&self) -> bool {
        false
    }
    pub fn is_status(&self) -> bool {
        matches!(self.kind, Kind::Status(_))
    }
    pub fn is_timeout(&self) -> bool {
        self.kind == Kind::Timeout
    }
    pub fn is_request(&self) -> bool {
        matches!(self.kind, Kind::Request | Kind::Connect | Kind::Timeout)
    }
    pub fn is_connect(&self) -> bool {
        self.kind == Kind::Connect
    }
    pub fn is_body(&self) -> bool {
        self.kind == Kind::Body
    }
    pub fn is_decode(&self) -> bool {
        self.kind == Kind::Decode
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self.kind {
            Kind::Status(s) => Some(s),
            _ => None,
        }
    }
}

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.kind {
            Kind::Builder => f.write_str("builder error")?,
            Kind::Connect | Kind::Request | Kind::Timeout => f.write_str("error sending request")?,
            Kind::Body => f.write_str("request or response body error")?,
            Kind::Decode => f.write_str("error decoding response body")?,
            Kind::Status(s) => {
                let who = if s.is_client_error() { "client" } else { "server" };
                write!(f, "HTTP status {who} error ({s})")?
            }
        }
        if let Some(u) = &self.url {
            write!(f, " for url ({u})")?;
        }
        Ok(())
    }
}

impl std::error::Error for Error {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.source.as_ref().map(|s| s as _)
    }
}
pub type Result<T> = std::result::Result<T, Error>;

pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        if self.has_host() {
            Ok(self)
        } else {
            Err(Error::new(Kind::Builder, Some(self), "URL scheme is not allowed"))
        }
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> Result<Url> {
        Url::parse(self).map_err(|e| Error::new(Kind::Builder, None, e))?.into_url()
    }
}
impl IntoUrl for &String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}

#[derive(Debug, Clone, Default)]
pub struct Body(Bytes);
impl Body {
    pub fn as_bytes(&self) -> Option<&[u8]> {
        Some(&self.0)
    }
}
impl<T: Into<Bytes>> From<T> for Body {
    fn from(b: T) -> Body {
        Body(b.into())
    }
}

#[derive(Debug)]
pub struct Request {
    method: Method,
    url: Url,
    headers: HeaderMap,
    body: Option<Body>,
    timeout: Option<Duration>,
}

impl Request {
    pub fn new(method: Method, url: Url) -> Self {
        Request { method, url, headers: HeaderMap::new(), body: None, timeout: None }
    }
    pub fn method(&self) -> &Method {
        &self.method
    }
    pub fn method_mut(&mut self) -> &mut Method {
        &mut self.method
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn url_mut(&mut self) -> &mut Url {
        &mut self.url
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub fn headers_mut(&mut self) -> &mut HeaderMap {
        &mut self.headers
    }
    pub fn body(&self) -> Option<&Body> {
        self.body.as_ref()
    }
    pub fn body_mut(&mut self) -> &mut Option<Body> {
        &mut self.body
    }
    pub fn timeout(&self) -> Option<&Duration> {
        self.timeout.as_ref()
    }
    pub fn timeout_mut(&mut self) -> &mut Option<Duration> {
        &mut self.timeout
    }
}

pub struct Response {
    status: StatusCode,
    headers: HeaderMap,
    url: Url,
    body: hook::Boxed<std::result::Result<Bytes, hook::Failure>>,
}

impl std::fmt::Debug for Response {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("Response").field("url", &self.url.as_str()).field("status", &self.status).finish()
    }
}

impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn version(&self) -> Version {
        Version::HTTP_11
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub fn headers_mut(&mut self) -> &mut HeaderMap {
        &mut self.headers
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn content_length(&self) -> Option<u64> {
        None
    }
    fn failed(&self) -> bool {
        self.status.is_client_error() || self.status.is_server_error()
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.failed() {
            return Err(Error { kind: Kind::Status(self.status), url: Some(self.url), source: None });
        }
        Ok(self)
    }
    pub fn error_for_status_ref(&self) -> Result<&Self> {
        if self.failed() {
            return Err(Error { kind: Kind::Status(self.status), url: Some(self.url.clone()), source: None });
        }
        Ok(self)
    }
    pub async fn bytes(self) -> Result<Bytes> {
        let url = self.url;
        self.body.await.map_err(|e| Error::new(Kind::Body, Some(url), format!("{e:?}")))
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.bytes().await?).into_owned())
    }
    pub async fn json<T: DeserializeOwned>(self) -> Result<T> {
        let url = self.url.clone();
        let full = self.bytes().await?;
        serde_json::from_slice(&full).map_err(|e| Error::new(Kind::Decode, Some(url), e))
    }
}

#[derive(Debug, Clone, Default)]
pub struct Client {
    headers: HeaderMap,
    timeout: Option<Duration>,
}

#[derive(Debug, Default)]
pub struct ClientBuilder {
    headers: HeaderMap,
    timeout: Option<Duration>,
    error: Option<Error>,
}

impl Client {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder::default()
    }
    pub fn request(&self, method: Method, url: impl IntoUrl) -> RequestBuilder {
        RequestBuilder { client: self.clone(), request: url.into_url().map(|u| Request::new(method, u)) }
    }
    pub fn get(&self, url: impl IntoUrl) -> RequestBuilder {
        self.request(Method::GET, url)
    }
    pub fn post(&self, url: impl IntoUrl) -> RequestBuilder {
        self.request(Method::POST, url)
    }
    pub fn put(&self, url: impl IntoUrl) -> RequestBuilder {
        self.request(Method::PUT, url)
    }
    pub fn patch(&self, url: impl IntoUrl) -> RequestBuilder {
        self.request(Method::PATCH, url)
    }
    pub fn delete(&self, url: impl IntoUrl) -> RequestBuilder {
        self.request(Method::DELETE, url)
    }
    pub fn head(&self, url: impl IntoUrl) -> RequestBuilder {
        self.request(Method::HEAD, url)
    }
    pub fn execute(&self, r: Request) -> impl Future<Output = Result<Response>> + Send {
        let client = self.clone();
        async move { client.run(r).await }
    }
    async fn run(self, r: Request) -> Result<Response> {
        let mut headers = r.headers;
        for (k, v) in &self.headers {
            if !headers.contains_key(k) {
                headers.append(k, v.clone());
            }
        }
        if !headers.contains_key(header::ACCEPT) {
            headers.insert(header::ACCEPT, HeaderValue::from_static("*/*"));
        }
        let body = r.body.unwrap_or_default().0;
        let out = hook::Outgoing { method: r.method, url: r.url.to_string(), headers, body };
        match hook::send(out, r.timeout.or(self.timeout)).await {
            None => Err(Error::new(Kind::Timeout, Some(r.url), "operation timed out")),
            Some(Err(f)) => {
                let kind = if f == hook::Failure::Refused { Kind::Connect } else { Kind::Request };
                Err(Error::new(kind, Some(r.url), format!("{f:?}")))
            }
            Some(Ok(a)) => {
                let status = StatusCode::from_u16(a.status).map_err(|e| Error::new(Kind::Request, Some(r.url.clone()), e))?;
                Ok(Response { status, headers: a.headers, url: r.url, body: a.body })
            }
        }
    }
}

impl ClientBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn timeout(mut self, d: Duration) -> Self {
        self.timeout = Some(d);
        self
    }
    pub fn read_timeout(self, _: Duration) -> Self {
        self
    }
    pub fn connect_timeout(self, _: Duration) -> Self {
        self
    }
    pub fn pool_idle_timeout(self, _: impl Into<Option<Duration>>) -> Self {
        self
    }
    pub fn pool_max_idle_per_host(self, _: usize) -> Self {
        self
    }
    pub fn tcp_nodelay(self, _: bool) -> Self {
        self
    }
    pub fn no_proxy(self) -> Self {
        self
    }
    pub fn default_headers(mut self, h: HeaderMap) -> Self {
        for (k, v) in &h {
            self.headers.insert(k.clone(), v.clone());
        }
        self
    }
    pub fn user_agent<V>(mut self, v: V) -> Self
    where
        V: TryInto<HeaderValue>,
        V::Error: Into<http::Error>,
    {
        match v.try_into() {
            Ok(v) => {
                self.headers.insert(header::USER_AGENT, v);
            }
            Err(e) => self.error = Some(Error::new(Kind::Builder, None, e.into())),
        }
        self
    }
    pub fn build(self) -> Result<Client> {
        match self.error {
            Some(e) => Err(e),
            None => Ok(Client { headers: self.headers, timeout: self.timeout }),
        }
    }
}

#[derive(Debug)]
#[must_use]
pub struct RequestBuilder {
    client: Client,
    request: Result<Request>,
}

impl RequestBuilder {
    fn with(mut self, f: impl FnOnce(&mut Request) -> std::result::Result<(), String>) -> Self {
        let failed = match &mut self.request {
            Ok(r) => f(r).err(),
            Err(_) => None,
        };
        if let Some(e) = failed {
            self.request = Err(Error::new(Kind::Builder, None, e));
        }
        self
    }
    pub fn header<K, V>(self, key: K, value: V) -> Self
    where
        HeaderName: TryFrom<K>,
        <HeaderName as TryFrom<K>>::Error: Into<http::Error>,
        HeaderValue: TryFrom<V>,
        <HeaderValue as TryFrom<V>>::Error: Into<http::Error>,
    {
        self.with(|r| {
            let k = HeaderName::try_from(key).map_err(|e| e.into().to_string())?;
            let v = HeaderValue::try_from(value).map_err(|e| e.into().to_string())?;
            r.headers.append(k, v);
            Ok(())
        })
    }
    pub fn headers(self, h: HeaderMap) -> Self {
        self.with(|r| {
            let mut last: Option<HeaderName> = None;
            for (k, v) in h {
                match k {
                    Some(k) => {
                        r.headers.insert(k.clone(), v);
                        last = Some(k);
                    }
                    None => {
                        r.headers.append(last.clone().unwrap(), v);
                    }
                }
            }
            Ok(())
        })
    }
    pub fn bearer_auth(self, token: impl std::fmt::Display) -> Self {
        let v = format!("Bearer {token}");
        self.header(header::AUTHORIZATION, v)
    }
    pub fn version(self, _: Version) -> Self {
        self
    }
    pub fn timeout(self, d: Duration) -> Self {
        self.with(|r| {
            r.timeout = Some(d);
            Ok(())
        })
    }
    pub fn body(self, b: impl Into<Body>) -> Self {
        self.with(|r| {
            r.body = Some(b.into());
            Ok(())
        })
    }
    pub fn json<T: Serialize + ?Sized>(self, json: &T) -> Self {
        self.with(|r| {
            let b = serde_json::to_vec(json).map_err(|e| e.to_string())?;
            if !r.headers.contains_key(header::CONTENT_TYPE) {
                r.headers.insert(header::CONTENT_TYPE, HeaderValue::from_static("application/json"));
            }
            r.body = Some(b.into());
            Ok(())
        })
    }
    pub fn query<T: Serialize + ?Sized>(self, q: &T) -> Self {
        self.with(|r| {
            let mut pairs = r.url.query_pairs_mut();
            q.serialize(serde_urlencoded::Serializer::new(&mut pairs)).map_err(|e| e.to_string())?;
            drop(pairs);
            if r.url.query() == Some("") {
                r.url.set_query(None);
            }
            Ok(())
        })
    }
    pub fn build(self) -> Result<Request> {
        self.request
    }
    pub fn build_split(self) -> (Client, Result<Request>) {
        (self.client, self.request)
    }
    pub fn try_clone(&self) -> Option<Self> {
        let r = self.request.as_ref().ok()?;
        let request = Request {
            method: r.method.clone(),
            url: r.url.clone(),
            headers: r.headers.clone(),
            body: r.body.clone(),
            timeout: r.timeout,
        };
        Some(RequestBuilder { client: self.client.clone(), request: Ok(request) })
    }
    pub fn send(self) -> impl Future<Output = Result<Response>> + Send {
        async move {
            let r = self.request?;
            self.client.run(r).await
        }
    }
}

pub async fn get(url: impl IntoUrl) -> Result<Response> {
    Client::new().get(url).send().await
}
