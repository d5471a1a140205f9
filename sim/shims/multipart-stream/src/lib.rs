//! multipart/mixed serialization of a stream of parts.
use bytes::{Bytes, BytesMut};
use futures::{stream, Stream, StreamExt};

pub struct Part {
    pub headers: http::HeaderMap,
    pub body: Bytes,
}

pub fn serialize<S, E>(parts: S, boundary: &str) -> impl Stream<Item = Result<Bytes, E>> + use<S, E>
where
    S: Stream<Item = Result<Part, E>>,
{
    let boundary = boundary.to_owned();
    let b2 = boundary.clone();
    let mut first = true;
    parts
        .map(move |part| {
            part.map(|part| {
                let mut out = BytesMut::new();
                if !std::mem::take(&mut first) {
                    out.extend_from_slice(b"\r\n");
                }
                out.extend_from_slice(format!("--{boundary}\r\n").as_bytes());
                for (k, v) in &part.headers {
                    out.extend_from_slice(k.as_str().as_bytes());
                    out.extend_from_slice(b": ");
                    out.extend_from_slice(v.as_bytes());
                    out.extend_from_slice(b"\r\n");
                }
                out.extend_from_slice(b"\r\n");
                out.extend_from_slice(&part.body);
                out.freeze()
            })
        })
        .chain(stream::once(async move { Ok(Bytes::from(format!("\r\n--{b2}--\r\n"))) }))
}
