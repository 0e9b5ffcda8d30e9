//! Fake metadata server and fake signBlob service, recording every request and reply in one sequenced log.
//!
//! Metadata: one listener on 0.0.0.0, each key gets its own loopback address 127.a.b.c, so that the local address of
//! a connection names the key. signBlob: an HTTP CONNECT proxy on 127.0.0.1 (HTTPS_PROXY) that terminates the
//! library's own TLS with a certificate for iamcredentials.googleapis.com. Plain-HTTP requests to the proxy are logged
//! as such.
use crate::model::*;
use crate::rng::Rng;
use crate::{clock, keys};
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ep {
    Email,
    Token,
    Blob,
}

/// How the service behaves for one request.
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// this status, with the body a good reply would have had, or an error text
    Status(u16, bool),
    /// this status and body
    StatusBody(u16, String),
    /// drop the connection without answering (true: with a reset)
    Drop(bool),
    /// announce the whole body and send this many permille of it
    Truncate(u32),
    /// 200 with this body
    Body(String),
    /// a good token reply but for the token type
    TokenType(String),
    /// a good signBlob reply but for the signedBlob member
    Blob64(String),
    /// bytes that are no HTTP
    Garbage(Vec<u8>),
}

#[derive(Clone, Debug)]
pub enum Ev {
    /// a request arrived
    Recv { ep: Ep, key: Option<u32>, method: String, path: String, head: String, body: Vec<u8>, proto: &'static str, conn: u64 },
    /// the reply to request `req` is about to be sent
    Reply { req: u64, ep: Ep, key: Option<u32>, proper: bool, token: Option<Token>, email: Option<String>, sig: Option<Vec<u8>> },
    /// something else arrived (plain HTTP to the proxy, a CONNECT, an unknown path)
    Other { what: String, raw: Vec<u8> },
}

#[derive(Clone, Debug)]
pub struct Token {
    pub text: String,
    pub ttl: u64,
    pub at: i128,
    pub late: i128, // by when the client had read it, if the clock was moved meanwhile
    /// sent in a good reply
    pub proper: bool,
    /// sent in a well-formed JSON reply with a 2xx status
    pub canary: bool,
}

#[derive(Clone)]
pub struct KeyState {
    pub email: String,
    pub fix: usize,
    pub ttl: u64,
    pub faults: HashMap<Ep, VecDeque<Fault>>,
    pub tokens: Vec<Token>,
    pub accounts: Vec<String>,
    /// replies of this endpoint wait while set
    pub hold: Option<Ep>,
    pub held: usize,
    /// each email request moves on to the next of these accounts
    pub flip: VecDeque<String>,
    pub slow: u64,
    /// percentage of signBlob replies that carry arbitrary bytes as the signature
    pub odd: u64,
}

pub struct Inner {
    pub keys: HashMap<u32, KeyState>,
    pub log: Vec<(u64, i128, Ev)>,
    pub rng: Rng,
    pub outstanding: i64,
    /// callers of the scenario that just ended were cancelled: their requests may still arrive
    pub retire: bool,
    /// the key made without GCE_METADATA_HOST: its metadata requests come through the proxy
    pub default_key: Option<u32>,
    /// requests answered with arbitrary bytes as the signature
    pub odd: std::collections::HashSet<u64>,
    /// tokens of that scenario
    retired: std::collections::HashSet<String>,
}

pub struct Hub {
    pub inner: Mutex<Inner>,
    pub seq: AtomicU64,
    pub conns: AtomicU64,
    pub meta_port: u16,
    pub proxy_port: u16,
    pub pairs: Vec<ring::signature::RsaKeyPair>,
    pub release: tokio::sync::Notify,
    tls: tokio_rustls::TlsAcceptor,
}

/// Where the metadata server is when GCE_METADATA_HOST is not set.
const DEFAULT_METADATA: &str = "http://metadata.google.internal";

pub fn ip_of(key: u32) -> String {
    format!("127.{}.{}.{}", 1 + (key >> 16) % 250, (key >> 8) & 255, key & 255)
}

fn key_of(ip: std::net::Ipv4Addr) -> u32 {
    let o = ip.octets();
    ((u32::from(o[1]).wrapping_sub(1)) << 16) | (u32::from(o[2]) << 8) | u32::from(o[3])
}

struct Head {
    method: String,
    path: String,
    raw: String,
    headers: Vec<(String, String)>,
}

impl Head {
    fn get(&self, n: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|x| x.1.as_str())
    }
}

pub fn header<'a>(head: &'a str, n: &str) -> Option<&'a str> {
    head.lines().skip(1).filter_map(|l| l.split_once(':')).find(|(k, _)| k.trim().eq_ignore_ascii_case(n)).map(|x| x.1.trim())
}

async fn read_head<S: AsyncRead + Unpin>(s: &mut S, buf: &mut Vec<u8>) -> Option<Head> {
    loop {
        if let Some(k) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            let raw = String::from_utf8_lossy(&buf[..k + 4]).into_owned();
            buf.drain(..k + 4);
            let mut lines = raw.split("\r\n");
            let first = lines.next()?.to_string();
            let mut it = first.split(' ');
            let (method, path) = (it.next()?.to_string(), it.next()?.to_string());
            let headers = lines.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.trim().to_string(), v.trim().to_string())).collect();
            return Some(Head { method, path, raw, headers });
        }
        if buf.len() > 1 << 20 {
            return None;
        }
        let mut b = [0u8; 4096];
        match s.read(&mut b).await {
            Ok(0) | Err(_) => return None,
            Ok(n) => buf.extend_from_slice(&b[..n]),
        }
    }
}

async fn read_body<S: AsyncRead + Unpin>(s: &mut S, buf: &mut Vec<u8>, h: &Head) -> Option<Vec<u8>> {
    let more = |buf: &mut Vec<u8>, b: &[u8]| buf.extend_from_slice(b);
    let mut tmp = [0u8; 8192];
    if h.get("transfer-encoding").is_some_and(|v| v.eq_ignore_ascii_case("chunked")) {
        let mut out = vec![];
        loop {
            while !buf.windows(2).any(|w| w == b"\r\n") {
                let n = s.read(&mut tmp).await.ok().filter(|n| *n > 0)?;
                more(buf, &tmp[..n]);
            }
            let k = buf.windows(2).position(|w| w == b"\r\n")?;
            let len = usize::from_str_radix(std::str::from_utf8(&buf[..k]).ok()?.split(';').next()?.trim(), 16).ok()?;
            while buf.len() < k + 2 + len + 2 {
                let n = s.read(&mut tmp).await.ok().filter(|n| *n > 0)?;
                more(buf, &tmp[..n]);
            }
            out.extend_from_slice(&buf[k + 2..k + 2 + len]);
            buf.drain(..k + 2 + len + 2);
            if len == 0 {
                return Some(out);
            }
        }
    }
    let len: usize = h.get("content-length").and_then(|v| v.parse().ok()).unwrap_or(0);
    while buf.len() < len {
        let n = s.read(&mut tmp).await.ok().filter(|n| *n > 0)?;
        more(buf, &tmp[..n]);
    }
    Some(buf.drain(..len).collect())
}

enum Next {
    Keep,
    Close,
    Reset,
}

impl Hub {
    /// Starts the services on their own thread and runtime.
    pub fn start(seed: u64) -> Arc<Hub> {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
            rt.block_on(async move {
                let meta = tokio::net::TcpListener::bind("0.0.0.0:0").await.expect("bind");
                let proxy = tokio::net::TcpListener::bind("127.0.0.1:0").await.expect("bind");
                let cert = rustls::pki_types::CertificateDer::from(include_bytes!("../fixtures/server.crt.der").to_vec());
                let key = rustls::pki_types::PrivateKeyDer::try_from(include_bytes!("../fixtures/server.key.der").to_vec()).expect("key");
                let cfg = rustls::ServerConfig::builder_with_provider(Arc::new(rustls::crypto::ring::default_provider()))
                    .with_safe_default_protocol_versions()
                    .expect("versions")
                    .with_no_client_auth()
                    .with_single_cert(vec![cert], key)
                    .expect("server certificate");
                let hub = Arc::new(Hub {
                    inner: Mutex::new(Inner { keys: HashMap::new(), log: vec![], rng: Rng::new(seed), outstanding: 0, retire: false, default_key: None, retired: Default::default(), odd: Default::default() }),
                    seq: AtomicU64::new(1),
                    conns: AtomicU64::new(1),
                    meta_port: meta.local_addr().unwrap().port(),
                    proxy_port: proxy.local_addr().unwrap().port(),
                    pairs: (0..2).map(keys::pair).collect(),
                    release: tokio::sync::Notify::new(),
                    tls: tokio_rustls::TlsAcceptor::from(Arc::new(cfg)),
                });
                tx.send(hub.clone()).unwrap();
                loop {
                    tokio::select! {
                        r = meta.accept() => if let Ok((s, _)) = r {
                            let h = hub.clone();
                            tokio::spawn(async move { h.meta_conn(s).await });
                        },
                        r = proxy.accept() => if let Ok((s, _)) = r {
                            let h = hub.clone();
                            tokio::spawn(async move { h.proxy_conn(s).await });
                        },
                    }
                }
            });
        });
        rx.recv().expect("server start")
    }

    pub fn next_seq(&self) -> u64 {
        self.seq.fetch_add(1, SeqCst)
    }

    fn push(&self, g: &mut Inner, e: Ev) -> u64 {
        let q = self.next_seq();
        g.log.push((q, clock::now_ns(), e));
        q
    }

    async fn meta_conn(self: Arc<Self>, s: tokio::net::TcpStream) {
        let _ = s.set_nodelay(true);
        let key = match s.local_addr() {
            Ok(std::net::SocketAddr::V4(a)) => key_of(*a.ip()),
            _ => return,
        };
        self.meta_loop(s, key, None, vec![]).await;
    }

    async fn meta_loop(self: Arc<Self>, mut s: tokio::net::TcpStream, key: u32, mut first: Option<Head>, mut buf: Vec<u8>) {
        let conn = self.conns.fetch_add(1, SeqCst);
        let proxied = first.is_some();
        loop {
            let mut h = match first.take() {
                Some(h) => h,
                None => {
                    let Some(h) = read_head(&mut s, &mut buf).await else { return };
                    h
                }
            };
            if proxied {
                // <http://metadata.google.internal/...>, and from no key of an earlier scenario
                match (h.path.strip_prefix(DEFAULT_METADATA), self.inner.lock().unwrap().default_key == Some(key)) {
                    (Some(p), true) => h.path = p.to_string(),
                    _ => return,
                }
            }
            let Some(body) = read_body(&mut s, &mut buf, &h).await else { return };
            let ep = if h.path == "/computeMetadata/v1/instance/service-accounts/default/email" {
                Ep::Email
            } else if h.path == "/computeMetadata/v1/instance/service-accounts/default/token" {
                Ep::Token
            } else {
                {
                    let mut g = self.inner.lock().unwrap();
                    self.push(&mut g, Ev::Other { what: format!("metadata request {} {} for key {key}", h.method, h.path), raw: h.raw.into_bytes() });
                }
                let _ = s.write_all(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n").await;
                continue;
            };
            match self.serve(&mut s, ep, Some(key), h, body, "http", conn).await {
                Next::Keep => {}
                Next::Close => return,
                Next::Reset => {
                    let _ = socket_linger0(&s);
                    return;
                }
            }
        }
    }

    async fn proxy_conn(self: Arc<Self>, mut s: tokio::net::TcpStream) {
        let _ = s.set_nodelay(true);
        let mut buf = vec![];
        let Some(h) = read_head(&mut s, &mut buf).await else { return };
        let default = self.inner.lock().unwrap().default_key;
        if let (Some(k), true) = (default, h.path.starts_with(DEFAULT_METADATA)) {
            return self.meta_loop(s, k, Some(h), buf).await;
        }
        {
            let mut g = self.inner.lock().unwrap();
            self.push(&mut g, Ev::Other { what: format!("proxy {} {}", h.method, h.path), raw: h.raw.clone().into_bytes() });
        }
        if h.method != "CONNECT" || h.path != "iamcredentials.googleapis.com:443" {
            let _ = s.write_all(b"HTTP/1.1 502 Bad Gateway\r\nContent-Length: 0\r\nConnection: close\r\n\r\n").await;
            return;
        }
        if s.write_all(b"HTTP/1.1 200 OK\r\n\r\n").await.is_err() {
            return;
        }
        let conn = self.conns.fetch_add(1, SeqCst);
        let Ok(mut t) = self.tls.accept(s).await else { return };
        let mut buf = vec![];
        loop {
            let Some(h) = read_head(&mut t, &mut buf).await else { return };
            let Some(body) = read_body(&mut t, &mut buf, &h).await else { return };
            let key = {
                let g = self.inner.lock().unwrap();
                let bearer = h.get("authorization").and_then(|a| a.strip_prefix("Bearer ")).unwrap_or("");
                let path = String::from_utf8_lossy(&pct_decode(&h.path).unwrap_or_default()).into_owned();
                g.keys
                    .iter()
                    .find(|(_, k)| k.tokens.iter().any(|t| t.text == bearer))
                    .or_else(|| g.keys.iter().find(|(_, k)| k.accounts.iter().any(|a| path.contains(a.as_str()))))
                    .map(|x| *x.0)
            };
            let late = key.is_none() && {
                let g = self.inner.lock().unwrap();
                h.get("authorization").and_then(|a| a.strip_prefix("Bearer ")).is_some_and(|b| g.retired.contains(b))
            };
            if late {
                let _ = t.write_all(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n").await;
                continue;
            }
            match self.serve(&mut t, Ep::Blob, key, h, body, "https", conn).await {
                Next::Keep => {}
                Next::Close => return,
                Next::Reset => {
                    let _ = socket_linger0(t.get_ref().0);
                    return;
                }
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    async fn serve<S: AsyncRead + AsyncWrite + Unpin>(&self, s: &mut S, ep: Ep, key: Option<u32>, h: Head, body: Vec<u8>, proto: &'static str, conn: u64) -> Next {
        let (req, delay, yields) = {
            let mut g = self.inner.lock().unwrap();
            g.outstanding += 1;
            let slow = key.and_then(|k| g.keys.get(&k)).map_or(0, |k| k.slow);
            let d = if slow > 0 { g.rng.below(slow + 1) } else { 0 };
            let y = g.rng.below(4);
            let q = self.push(
                &mut g,
                Ev::Recv { ep, key, method: h.method.clone(), path: h.path.clone(), head: h.raw.clone(), body: body.clone(), proto, conn },
            );
            (q, d, y)
        };
        for _ in 0..yields {
            tokio::task::yield_now().await;
        }
        if delay > 0 {
            tokio::time::sleep(std::time::Duration::from_micros(delay)).await;
        }
        let mut counted = false;
        loop {
            let wait = self.release.notified();
            tokio::pin!(wait);
            wait.as_mut().enable();
            {
                let mut g = self.inner.lock().unwrap();
                match key.and_then(|k| g.keys.get_mut(&k)) {
                    Some(k) if k.hold == Some(ep) => {
                        if !counted {
                            k.held += 1;
                            counted = true;
                        }
                    }
                    _ => break,
                }
            }
            wait.await;
        }
        let (bytes, next, style) = self.reply(req, ep, key, &h, &body);
        let r = if style == 2 && bytes.len() < 3000 {
            let mut ok = Ok(());
            let mut at = 0;
            while at < bytes.len() && ok.is_ok() {
                let n = (1 + at % 97).min(bytes.len() - at);
                ok = s.write_all(&bytes[at..at + n]).await;
                let _ = s.flush().await;
                at += n;
                tokio::task::yield_now().await;
            }
            ok
        } else {
            s.write_all(&bytes).await
        };
        let _ = s.flush().await;
        if matches!(next, Next::Close) {
            let _ = s.shutdown().await;
        }
        self.inner.lock().unwrap().outstanding -= 1;
        if r.is_err() {
            return Next::Close;
        }
        next
    }

    /// Decides and logs the reply. Returns the bytes to send, what to do next, and the writing style.
    fn reply(&self, req: u64, ep: Ep, key: Option<u32>, h: &Head, body: &[u8]) -> (Vec<u8>, Next, u64) {
        let mut guard = self.inner.lock().unwrap();
        let g = &mut *guard;
        let style = g.rng.below(4);
        let Some((id, k)) = key.and_then(|id| g.keys.get_mut(&id).map(|k| (id, k))) else {
            self.push(g, Ev::Reply { req, ep, key, proper: false, token: None, email: None, sig: None });
            return (b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n".to_vec(), Next::Keep, 0);
        };
        let fault = k.faults.get_mut(&ep).and_then(|q| q.pop_front());
        let (mut email, mut token, mut sig) = (None, None, None);
        let r = &mut g.rng;
        let pad = |r: &mut Rng| -> String { (0..r.usize(3)).map(|_| *r.pick(&[' ', '\n', '\t'])).collect() };
        let good: String = match ep {
            Ep::Email => {
                if let Some(e) = k.flip.pop_front() {
                    k.accounts.push(e.clone());
                    k.email = e;
                }
                email = Some(k.email.clone());
                k.email.clone()
            }
            Ep::Token => {
                let secret: String = (0..40).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_") as char).collect();
                let body = match r.below(4) {
                    0 => "c.b0Aaekm1".repeat(r.usize(100)),
                    1 => "c.b0Aaekm1".repeat(3),
                    _ => String::new(),
                };
                let t = format!("ya29.{body}{id}-{}.{secret}", k.tokens.len());
                let typ = match &fault {
                    Some(Fault::TokenType(t)) => t.clone(),
                    _ => "Bearer".into(),
                };
                let canary = match &fault {
                    None | Some(Fault::TokenType(_)) => true,
                    _ => false,
                };
                let at = clock::now_ns();
                let tok = Token { text: t.clone(), ttl: k.ttl, at, late: at, proper: fault.is_none(), canary };
                k.tokens.push(tok.clone());
                token = Some(tok);
                let spelled = match r.below(12) {
                    0 => t.replace('.', "\\u002e"),
                    1 => t.replace('y', "\\u0079").replace('a', "\\u0061"),
                    _ => t.clone(),
                };
                let typ = if r.pct(8) && !typ.is_empty() && typ.is_ascii() { escape_one(r, &typ) } else { typ };
                let mut name = |n: &str| if r.pct(4) { escape_one(r, n) } else { n.to_string() };
                let (n1, n2, n3) = (name("access_token"), name("expires_in"), name("token_type"));
                let mut m = vec![
                    format!("\"{n1}\":{}\"{spelled}\"", pad(r)),
                    format!("\"{n2}\":{}{}", pad(r), k.ttl),
                    format!("\"{n3}\":{}\"{typ}\"", pad(r)),
                ];
                if r.pct(30) {
                    m.push("\"scope\":\"https://www.googleapis.com/auth/cloud-platform\"".into());
                }
                if r.pct(20) {
                    m.push(r.pick(&["\"id\":[1,{\"expires_in\":5}]", "\"id_token\":null", "\"\":\"\"", "\"note\":\"\\\"token_type\\\":\\\"MAC\\\",\"", "\"Access_Token\":7", "\"ext_expires_in\":-1.5e3", "\"refresh\":{\"access_token\":\"x\",\"token_type\":\"MAC\"}", "\"\\u00e9\":\"\\ud83d\\ude00\""]).to_string());
                }
                r.shuffle(&mut m);
                format!("{{{}{}{}}}{}", pad(r), m.join(","), pad(r), pad(r))
            }
            Ep::Blob => {
                let payload = std::str::from_utf8(body)
                    .ok()
                    .and_then(|t| JsonParser::parse(t).ok())
                    .and_then(|j| match j {
                        J::Obj(m) => m.into_iter().find(|x| x.0 == "payload").map(|x| x.1),
                        _ => None,
                    })
                    .and_then(|p| match p {
                        J::Str(s) => unb64(&s).ok(),
                        _ => None,
                    })
                    .unwrap_or_default();
                let s = if fault.is_none() && r.pct(k.odd) {
                    g.odd.insert(req);
                    let n = match r.below(4) {
                        0 => 1 + r.usize(8),
                        1 => 250 + r.usize(12),
                        _ => 1 + r.usize(700),
                    };
                    (0..n).map(|_| if r.pct(20) { 0 } else { r.below(256) as u8 }).collect()
                } else {
                    keys::rsa_sign(&self.pairs[k.fix], &payload)
                };
                let text = match &fault {
                    Some(Fault::Blob64(x)) => spoil64(x, &b64(&s)),
                    // some encoders escape what they need not
                    _ => match r.below(12) {
                        0 => b64(&s).replace('/', "\\/"),
                        1 => b64(&s).replace('+', "\\u002B").replace('=', "\\u003d"),
                        _ => b64(&s),
                    },
                };
                sig = Some(s);
                let name = if r.pct(6) { escape_one(r, "signedBlob") } else { "signedBlob".to_string() };
                let mut m = vec![format!("\"keyId\":{}\"abc{}\"", pad(r), r.below(1000)), format!("\"{name}\":{}\"{text}\"", pad(r))];
                if r.pct(20) {
                    m.push(r.pick(&["\"extra\":null", "\"signature\":\"AAAA\"", "\"blob\":{\"signedBlob\":\"AAAA\"}", "\"signedblob\":[]", "\"note\":\"\\\"signedBlob\\\":\\\"AAAA\\\"\""]).to_string());
                }
                r.shuffle(&mut m);
                format!("{{{}}}{}", m.join(", "), pad(r))
            }
        };
        let proper = fault.is_none();
        // any 2xx is a good answer
        let mut status = if proper && g.rng.pct(4) { *g.rng.pick(&[201, 202, 203, 206, 299]) } else { 200 };
        let mut text = good;
        let mut cut = None;
        let mut direct: Option<(Vec<u8>, Next)> = None;
        match fault {
            None | Some(Fault::TokenType(_)) | Some(Fault::Blob64(_)) => {}
            Some(Fault::Status(c, keep)) => {
                status = c;
                if !keep {
                    text = "{\"error\": {\"code\": 1, \"message\": \"no\"}}".into();
                }
            }
            Some(Fault::StatusBody(c, b)) => {
                status = c;
                text = b;
            }
            Some(Fault::Drop(rst)) => direct = Some((vec![], if rst { Next::Reset } else { Next::Close })),
            Some(Fault::Truncate(pm)) => cut = Some(pm),
            Some(Fault::Body(b)) => text = b,
            Some(Fault::Garbage(b)) => direct = Some((b, Next::Close)),
        }
        let reply = Ev::Reply { req, ep, key: Some(id), proper, token, email, sig };
        let close = style == 3;
        self.push(g, reply);
        let _ = h;
        if let Some((b, n)) = direct {
            return (b, n, 0);
        }
        let reason = if (200..300).contains(&status) { "OK" } else { "Error" };
        let ctype = if ep == Ep::Email { "application/text" } else { "application/json; charset=UTF-8" };
        let mut out = format!("HTTP/1.1 {status} {reason}\r\nMetadata-Flavor: Google\r\nContent-Type: {ctype}\r\nServer: fake\r\n").into_bytes();
        if close {
            out.extend_from_slice(b"Connection: close\r\n");
        }
        if status == 204 || status == 304 {
            out.extend_from_slice(b"\r\n");
            return (out, if close { Next::Close } else { Next::Keep }, style);
        }
        if style == 1 {
            out.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            let mut b = vec![];
            for c in text.as_bytes().chunks(17) {
                b.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                b.extend_from_slice(c);
                b.extend_from_slice(b"\r\n");
            }
            b.extend_from_slice(b"0\r\n\r\n");
            if let Some(pm) = cut {
                // never the whole body: the last chunk and its end are missing
                let k = (b.len() as u64 * u64::from(pm) / 1000) as usize;
                b.truncate(k.min(b.len().saturating_sub(7)));
            }
            out.extend_from_slice(&b);
        } else {
            out.extend_from_slice(format!("Content-Length: {}\r\n\r\n", text.len()).as_bytes());
            let mut b = text.into_bytes();
            if let Some(pm) = cut {
                let k = (b.len() as u64 * u64::from(pm) / 1000) as usize;
                b.truncate(k.min(b.len().saturating_sub(1)));
            }
            out.extend_from_slice(&b);
        }
        let next = if close || cut.is_some() { Next::Close } else { Next::Keep };
        (out, next, style)
    }

    /// Registers a key; its metadata host is `ip:port`.
    pub fn add_key(&self, id: u32, email: &str, fix: usize, ttl: u64) -> String {
        let mut g = self.inner.lock().unwrap();
        g.keys.insert(
            id,
            KeyState {
                email: email.to_string(),
                fix,
                ttl,
                faults: HashMap::new(),
                tokens: vec![],
                accounts: vec![email.to_string()],
                hold: None,
                held: 0,
                flip: VecDeque::new(),
                odd: 0,
                slow: 0,
            },
        );
        format!("{}:{}", ip_of(id), self.meta_port)
    }
    pub fn with<T>(&self, id: u32, f: impl FnOnce(&mut KeyState) -> T) -> T {
        f(self.inner.lock().unwrap().keys.get_mut(&id).expect("key"))
    }
    pub fn log(&self) -> Vec<(u64, i128, Ev)> {
        self.inner.lock().unwrap().log.clone()
    }
    /// Forgets everything of earlier scenarios.
    pub fn reset(&self) {
        let mut g = self.inner.lock().unwrap();
        let g = &mut *g;
        g.retired.clear();
        if std::mem::take(&mut g.retire) {
            g.retired.extend(g.keys.values().flat_map(|k| k.tokens.iter().map(|t| t.text.clone())));
        }
        g.default_key = None;
        g.keys.clear();
        g.log.clear();
        g.odd.clear();
    }
}

/// What a faulty signBlob reply holds for a signature: the text given, or the good base64 text made unfit.
fn spoil64(how: &str, good: &str) -> String {
    let bad = match how {
        "@twice" | "@bits" if !good.ends_with('=') => good.to_string(),
        "@unpadded" => good.trim_end_matches('=').to_string(),
        "@url-safe" => good.replace('+', "-").replace('/', "_"),
        "@newline" => format!("{good}\\n"),
        "@lines" => format!("{}\\r\\n{}", &good[..64.min(good.len())], &good[64.min(good.len())..]),
        "@blank" => format!(" {good}"),
        "@overpadded" => format!("{good}="),
        "@twice" => format!("{good}{good}"),
        "@cut" => good.trim_end_matches('=')[..good.len() / 4 * 4 - 5].to_string(),
        "@bits" => {
            // bits beyond the last byte, which must be zero
            let n = good.trim_end_matches('=').len();
            let c = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            let at = c.iter().position(|x| *x == good.as_bytes()[n - 1]).unwrap_or(0);
            format!("{}{}{}", &good[..n - 1], c[at | 1] as char, &good[n..])
        }
        x => x.to_string(),
    };
    if bad == good {
        "!!!!".into()
    } else {
        bad
    }
}

fn socket_linger0(s: &tokio::net::TcpStream) -> std::io::Result<()> {
    #[allow(deprecated)]
    s.set_linger(Some(std::time::Duration::ZERO))
}

/// The text with one of its characters written as a JSON escape.
fn escape_one(r: &mut Rng, s: &str) -> String {
    let k = r.usize(s.len());
    let c = s.as_bytes()[k];
    let e = if r.pct(50) { format!("\\u{c:04x}") } else { format!("\\u{c:04X}") };
    format!("{}{e}{}", &s[..k], &s[k + 1..])
}
