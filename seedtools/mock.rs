#![allow(dead_code)]
//! Scripted in-memory server.
use mysql_connector::*;
use std::{collections::VecDeque, future::Future, io, pin::Pin, sync::{Arc, Mutex}, task::*, time::Duration};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub type Reply = Box<dyn FnMut(&mut Net, usize, u8, &[u8]) + Send>;
#[derive(Default)]
pub struct Net {
    pub inbuf: Vec<u8>,
    pub unflushed: Vec<u8>,
    pub out: VecDeque<u8>,
    pub log: Vec<(u8, Vec<u8>)>,
    pub reply: Option<Reply>,
    pub chunk: usize,
    pub sleeps: Vec<Duration>,
    pub stall_write: bool,
    pub shutdown: bool,
    pub seq: u8,
}
impl Net {
    /// queue one packet for the client
    pub fn send(&mut self, seq: u8, p: &[u8]) {
        let mut rest = p;
        let mut seq = seq;
        loop {
            let n = rest.len().min(0xFF_FFFF);
            self.out.extend((n as u32).to_le_bytes()[..3].iter());
            self.out.push_back(seq);
            self.out.extend(rest[..n].iter());
            rest = &rest[n..];
            seq = seq.wrapping_add(1);
            if n < 0xFF_FFFF { break; }
        }
        self.seq = seq;
    }
    /// queue packets numbered after `seq`
    pub fn sends(&mut self, seq: u8, ps: &[Vec<u8>]) {
        self.seq = seq;
        for p in ps { let s = self.seq; self.send(s, p); }
    }
    fn pump(&mut self) {
        let u = std::mem::take(&mut self.unflushed);
        self.inbuf.extend(u);
        loop {
            let mut at = 0; let mut body = Vec::new(); let seq;
            loop {
                if self.inbuf.len() < at + 4 { return; }
                let n = u32::from_le_bytes([self.inbuf[at], self.inbuf[at + 1], self.inbuf[at + 2], 0]) as usize;
                if self.inbuf.len() < at + 4 + n { return; }
                let s = self.inbuf[at + 3];
                body.extend_from_slice(&self.inbuf[at + 4..at + 4 + n]);
                at += 4 + n;
                if n < 0xFF_FFFF { seq = s; break; }
            }
            self.inbuf.drain(..at);
            let k = self.log.len();
            self.log.push((seq, body.clone()));
            if let Some(mut r) = self.reply.take() { r(self, k, seq, &body); self.reply = Some(r); }
        }
    }
}
#[derive(Clone, Default)]
pub struct Shared(pub Arc<Mutex<Net>>);
impl std::fmt::Debug for Shared { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Shared") } }

macro_rules! stream { ($n:ident, $o:ident, $s:literal) => {
    #[derive(Debug)] pub struct $n(pub Shared);
    #[derive(Debug, Default)] pub struct $o(pub Shared);
    impl AsyncRead for $n {
        fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let mut n = self.0 .0.lock().unwrap();
            if n.out.is_empty() { return Poll::Pending; }
            let mut k = b.remaining().min(n.out.len());
            if n.chunk > 0 { k = k.min(n.chunk); }
            for _ in 0..k { let x = n.out.pop_front().unwrap(); b.put_slice(&[x]); }
            Poll::Ready(Ok(()))
        }
    }
    impl AsyncWrite for $n {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            let mut n = self.0 .0.lock().unwrap();
            if n.stall_write { return Poll::Pending; }
            let k = if n.chunk > 0 { b.len().min(n.chunk) } else { b.len() };
            n.unflushed.extend_from_slice(&b[..k]);
            Poll::Ready(Ok(k))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.0 .0.lock().unwrap().pump(); Poll::Ready(Ok(())) }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.0 .0.lock().unwrap().shutdown = true; Poll::Ready(Ok(())) }
    }
    impl Stream for $n {
        const SECURE: bool = $s;
        type Options = $o;
        async fn connect(o: &$o) -> io::Result<Self> { Ok($n(o.0.clone())) }
    }
}; }
stream!(Plain, PlainOptions, false);
stream!(Secure, SecureOptions, true);

/// Polls until ready or until nothing moves any more (None).
pub fn run<F: Future>(f: F) -> Option<F::Output> {
    struct W; impl Wake for W { fn wake(self: Arc<Self>) {} }
    let w = Waker::from(Arc::new(W));
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    for _ in 0..50 { if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return Some(x); } }
    None
}
/// a timer that never fires
pub fn never(_: Duration) -> TimeoutFuture { Box::pin(std::future::pending()) }
/// a timer that fires when first polled
pub fn at_once(_: Duration) -> TimeoutFuture { Box::pin(std::future::ready(())) }

pub const DEPRECATE_EOF: u32 = 0x0100_0000;
pub const CAPS: u32 = 0x0000_0200 | 0x0000_8000 | 0x0000_2000 | 0x0004_0000 | 0x0008_0000 | 0x0000_0008;
pub fn handshake(caps: u32, plugin: &[u8]) -> Vec<u8> {
    let mut p = vec![10];
    p.extend(b"8.0.30\0"); p.extend(7u32.to_le_bytes()); p.extend(b"abcdefgh"); p.push(0);
    p.extend(&caps.to_le_bytes()[..2]); p.push(33); p.extend([2, 0]); p.extend(&caps.to_le_bytes()[2..]);
    p.push(21); p.extend([0; 10]); p.extend(b"ijklmnopqrst\0"); p.extend(plugin); p.push(0);
    p
}
pub fn ok() -> Vec<u8> { vec![0, 0, 0, 2, 0, 0, 0] }
pub fn eof() -> Vec<u8> { vec![0xFE, 0, 0, 2, 0] }
pub fn eof_ok() -> Vec<u8> { vec![0xFE, 0, 0, 2, 0, 0, 0] }
pub fn err(code: u16, msg: &str) -> Vec<u8> { let mut p = vec![0xFF]; p.extend(code.to_le_bytes()); p.extend(b"#42000"); p.extend(msg.as_bytes()); p }
pub fn lstr(s: &[u8]) -> Vec<u8> {
    let mut v = match s.len() { 0..=250 => vec![s.len() as u8], 251..=0xFFFF => { let mut v = vec![0xFC]; v.extend((s.len() as u16).to_le_bytes()); v } _ => { let mut v = vec![0xFD]; v.extend(&(s.len() as u32).to_le_bytes()[..3]); v } };
    v.extend_from_slice(s); v
}
pub fn coldef(name: &str, ty: u8, flags: u16) -> Vec<u8> {
    let mut p = lstr(b"def"); p.extend(lstr(b"db")); p.extend(lstr(b"t")); p.extend(lstr(b"ot")); p.extend(lstr(name.as_bytes())); p.extend(lstr(b"on"));
    p.push(12); p.extend([45, 0]); p.extend(255u32.to_le_bytes()); p.push(ty); p.extend(flags.to_le_bytes()); p.push(0); p.extend([0, 0]); p
}
pub fn options(n: &Shared) -> ConnectionOptions<Plain> {
    ConnectionOptions { user: "u".into(), password: "secretpw".into(), connection: PlainOptions(n.clone()), max_allowed_packet: Some(1 << 22),
        auth_plugin: Some(types::AuthPlugin::Native), sleep: Some(&never), ..Default::default() }
}
/// connection after a successful native login; `reply` answers the commands (index counted from 0)
pub fn login(caps: u32, mut reply: impl FnMut(&mut Net, usize, u8, &[u8]) + Send + 'static) -> (Shared, Connection) {
    login_with(caps, |_| (), move |n, k, s, p| reply(n, k, s, p))
}
pub fn login_with(caps: u32, f: impl FnOnce(&mut ConnectionOptions<Plain>), mut reply: impl FnMut(&mut Net, usize, u8, &[u8]) + Send + 'static) -> (Shared, Connection) {
    let n = Shared::default();
    n.0.lock().unwrap().send(0, &handshake(caps, b"mysql_native_password"));
    n.0.lock().unwrap().reply = Some(Box::new(move |n, k, s, p| if k == 0 { n.send(s + 1, &ok()) } else { reply(n, k - 1, s, p) }));
    let mut o = options(&n);
    f(&mut o);
    let c = run(Connection::connect(Arc::new(o))).expect("connect hangs").expect("connect fails");
    (n, c)
}
