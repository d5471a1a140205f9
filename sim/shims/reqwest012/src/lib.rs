//! A client whose network is whatever `hook::install` provides; without one every connection is refused.
use bytes::Bytes;
use http::{HeaderMap, StatusCode};
use std::time::Duration;

pub mod hook {
    use super::*;
    use std::sync::OnceLock;

    #[derive(Debug, Clone)]
    pub struct Outgoing {
        pub method: http::Method,
        pub url: String,
        pub headers: HeaderMap,
        pub body: Bytes,
        pub timeout: Option<Duration>,
    }
    pub type Answer = std::result::Result<(u16, Bytes), String>;

    static NETWORK: OnceLock<fn(Outgoing) -> Answer> = OnceLock::new();

    pub fn install(f: fn(Outgoing) -> Answer) {
        let _ = NETWORK.set(f);
    }

    pub(crate) fn send(o: Outgoing) -> Answer {
        match NETWORK.get() {
            Some(f) => f(o),
            None => Err("connection refused".into()),
        }
    }
}

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug)]
pub struct Request {
    method: http::Method,
    url: url::Url,
    headers: HeaderMap,
    body: Bytes,
}

impl<T: Into<Bytes>> TryFrom<http::Request<T>> for Request {
    type Error = Error;
    fn try_from(r: http::Request<T>) -> Result<Request> {
        let (parts, body) = r.into_parts();
        let url = url::Url::parse(&parts.uri.to_string()).map_err(|e| Error(e.to_string()))?;
        Ok(Request { method: parts.method, url, headers: parts.headers, body: body.into() })
    }
}

#[derive(Debug)]
pub struct Response {
    status: StatusCode,
    headers: HeaderMap,
    body: Bytes,
}

impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn headers_mut(&mut self) -> &mut HeaderMap {
        &mut self.headers
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error(format!("HTTP status {}", self.status)));
        }
        Ok(self)
    }
    pub async fn bytes(self) -> Result<Bytes> {
        Ok(self.body)
    }
}

fn execute(r: Request, timeout: Option<Duration>) -> Result<Response> {
    let (status, body) =
        hook::send(hook::Outgoing { method: r.method, url: r.url.to_string(), headers: r.headers, body: r.body, timeout }).map_err(Error)?;
    let status = StatusCode::from_u16(status).map_err(|e| Error(e.to_string()))?;
    Ok(Response { status, headers: HeaderMap::new(), body })
}

#[derive(Debug, Clone, Default)]
pub struct Client {
    timeout: Option<Duration>,
}

impl Client {
    pub fn new() -> Self {
        Self::default()
    }
    pub async fn execute(&self, r: Request) -> Result<Response> {
        execute(r, self.timeout)
    }
}

pub mod blocking {
    use super::*;

    #[derive(Debug)]
    pub struct Response(super::Response);
    impl Response {
        pub fn status(&self) -> StatusCode {
            self.0.status
        }
        pub fn headers_mut(&mut self) -> &mut HeaderMap {
            &mut self.0.headers
        }
        pub fn error_for_status(self) -> Result<Self> {
            self.0.error_for_status().map(Response)
        }
        pub fn bytes(self) -> Result<Bytes> {
            Ok(self.0.body)
        }
    }

    pub type Request = super::Request;

    #[derive(Debug, Clone)]
    pub struct Client {
        timeout: Option<Duration>,
    }

    #[derive(Debug)]
    pub struct ClientBuilder(Option<Duration>);

    impl Client {
        /// Like the original: 30 seconds unless configured.
        pub fn builder() -> ClientBuilder {
            ClientBuilder(Some(Duration::from_secs(30)))
        }
        pub fn new() -> Self {
            Client { timeout: Some(Duration::from_secs(30)) }
        }
        pub fn execute(&self, r: Request) -> Result<Response> {
            super::execute(r, self.timeout).map(Response)
        }
    }

    impl ClientBuilder {
        pub fn timeout(mut self, d: impl Into<Option<Duration>>) -> Self {
            self.0 = d.into();
            self
        }
        pub fn build(self) -> Result<Client> {
            Ok(Client { timeout: self.0 })
        }
    }
}
