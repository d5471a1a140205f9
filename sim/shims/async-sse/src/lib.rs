//! Server-sent-event encoding: a sender half and an `AsyncBufRead` half.
use futures::{io::AsyncBufRead, io::AsyncRead, ready, Stream};
use std::{
    io,
    pin::Pin,
    task::{Context, Poll},
    time::Duration,
};

pub fn encode() -> (Sender, Encoder) {
    let (tx, rx) = async_channel::bounded(1);
    (Sender(tx), Encoder { rx: Box::pin(rx), buf: Vec::new(), pos: 0 })
}

#[derive(Debug, Clone)]
pub struct Sender(async_channel::Sender<Vec<u8>>);

impl Sender {
    pub async fn send(&self, name: &str, data: &str, id: Option<&str>) -> io::Result<()> {
        let mut out = String::new();
        if !name.is_empty() {
            out.push_str(&format!("event:{name}\n"));
        }
        if let Some(id) = id {
            out.push_str(&format!("id:{id}\n"));
        }
        for line in data.lines() {
            out.push_str(&format!("data:{line}\n"));
        }
        out.push('\n');
        self.raw(out).await
    }
    pub async fn send_retry(&self, dur: Duration, _id: Option<&str>) -> io::Result<()> {
        self.raw(format!("retry:{}\n\n", dur.as_millis())).await
    }
    async fn raw(&self, s: String) -> io::Result<()> {
        self.0.send(s.into_bytes()).await.map_err(|_| io::Error::from(io::ErrorKind::ConnectionAborted))
    }
}

pub struct Encoder {
    rx: Pin<Box<async_channel::Receiver<Vec<u8>>>>,
    buf: Vec<u8>,
    pos: usize,
}

impl AsyncBufRead for Encoder {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        if this.pos >= this.buf.len() {
            if let Some(next) = ready!(this.rx.as_mut().poll_next(cx)) {
                this.buf = next;
                this.pos = 0;
            }
        }
        Poll::Ready(Ok(&this.buf[this.pos..]))
    }
    fn consume(self: Pin<&mut Self>, amt: usize) {
        self.get_mut().pos += amt
    }
}
impl AsyncRead for Encoder {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut [u8]) -> Poll<io::Result<usize>> {
        let avail = ready!(self.as_mut().poll_fill_buf(cx))?;
        let n = avail.len().min(out.len());
        out[..n].copy_from_slice(&avail[..n]);
        self.consume(n);
        Poll::Ready(Ok(n))
    }
}
