//! Bound-token scenarios against the fake services, and the trace checkers for C15-C19 (and the bound-token parts of
//! C05, C08, C12, C13 and C09).
use crate::forms::{self, Form};
use crate::gen::Gen;
use crate::keys::FIX;
use crate::model::*;
use crate::obs::Obs;
use crate::rng::{hash_bytes, mix};
use crate::server::{header, Ep, Ev, Fault, Hub, Token};
use crate::urls::{self, Req, NS};
use crate::{clock, Env};
use cloud_storage_signature::{build_signed_url, SigningKey};
use std::collections::HashMap;
use std::sync::Arc;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

/// Drops the inner future at its n-th poll; counts polls.
pub struct CancelAt<F> {
    pub fut: Option<Pin<Box<F>>>,
    pub left: u32,
}

impl<F: Future> Future for CancelAt<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.left == 0 {
            self.fut = None;
            return Poll::Ready(None);
        }
        self.left -= 1;
        let r = match self.fut.as_mut() {
            Some(f) => f.as_mut().poll(cx),
            None => return Poll::Ready(None),
        };
        match r {
            Poll::Ready(x) => Poll::Ready(Some(x)),
            Poll::Pending => {
                if self.left == 0 {
                    cx.waker().wake_by_ref();
                }
                Poll::Pending
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Job {
    Url(Req),
    Form(Form),
}

#[derive(Clone, Debug)]
pub enum Res {
    Url(String),
    Form(forms::Fields),
    Err(String, String),
    Cancelled,
    Panic(String),
    Hang,
}

pub struct Call {
    pub key: u32,
    pub job: Job,
    pub blob: bool,
    pub cancel: Option<u32>,
    pub q0: u64,
    pub q1: u64,
    pub t0: i128,
    pub t1: i128,
    pub res: Res,
    pub batch: usize,
}

pub struct Batch {
    pub q0: u64,
    pub q1: u64,
    pub t0: i128,
    pub cancels: bool,
    pub advanced: bool,
    /// the clock when the batch ended
    pub t1: i128,
    pub calls: std::ops::Range<usize>,
    pub faults: HashMap<u32, usize>,
    pub flips: bool,
}

/// Debug, alternate debug, display and the source chain of an error.
pub fn err_texts(e: &(dyn std::error::Error + 'static)) -> (String, String) {
    let mut all = format!("{e}\n{e:?}\n{e:#?}");
    let mut s = e.source();
    while let Some(x) = s {
        all.push_str(&format!("\n{x}\n{x:?}"));
        s = x.source();
    }
    (e.to_string(), all)
}

pub fn start_job(job: &Job, key: SigningKey, blob: bool) -> Pin<Box<dyn Future<Output = Res> + Send>> {
    match job {
        Job::Url(r) => {
            let f = build_signed_url(r.options(key, blob));
            Box::pin(async move {
                match f.await {
                    Ok(u) => {
                        crate::obs::check_str(&u);
                        Res::Url(u)
                    }
                    Err(e) => {
                        let (a, b) = err_texts(&e);
                        Res::Err(a, b)
                    }
                }
            })
        }
        Job::Form(f) => {
            let b = f.builder(&key, blob).build();
            Box::pin(async move {
                match b.await {
                    Ok(v) => {
                        let v = v.into_vec();
                        for (k, x) in &v {
                            crate::obs::check_str(k);
                            crate::obs::check_str(x);
                        }
                        Res::Form(v)
                    }
                    Err(e) => {
                        let (a, b) = err_texts(&e);
                        Res::Err(a, b)
                    }
                }
            })
        }
    }
}

fn job(g: &mut Gen, email: &str, fix: usize, n: u64, now: i128) -> Job {
    let email = email.to_string();
    if g.r.pct(60) {
        let mut r = urls::valid(g);
        r.tick = 0;
        r.email = email;
        r.fix = fix;
        if r.dot_segments() {
            r.bucket = "b".into();
            r.object = g.word();
        }
        r.object.push_str(&format!("-{n}"));
        if r.start.is_none() || g.r.pct(30) {
            r.start = None;
            r.end = now + i128::from(g.r.range(1, 600_000)) * NS;
        }
        if r.est_len() > 60_000 {
            r.query.truncate(1);
            r.headers.truncate(1);
        }
        if r.est_len() > 60_000 {
            r.query.clear();
            r.object = format!("o-{n}");
            r.bucket = "b".into();
        }
        r.clock = now;
        Job::Url(r)
    } else {
        let mut f = forms::gen(g, 100);
        f.tick = 0;
        f.email = email;
        f.fix = fix;
        f.ops.push(forms::Op::Key(format!("k-{n}")));
        f.clock = now;
        let o = &mut f.signing.as_mut().unwrap().1;
        match o.start {
            None => o.expiration = now + i128::from(g.r.range(1, 600_000)) * NS,
            Some(s) if o.expiration / NS <= s / NS => {
                o.expiration = s.max(20 * NS);
                o.start = Some(o.expiration - 10 * NS);
            }
            _ => {}
        }
        Job::Form(f)
    }
}

/// Makes the request start now and end soon.
fn soon(g: &mut Gen, j: &mut Job, now: i128) {
    let end = now + g.magnitude(8) * NS + i128::from(g.nanos());
    match j {
        Job::Url(r) => {
            r.start = None;
            r.end = end;
        }
        Job::Form(f) => {
            if let Some((_, o)) = &mut f.signing {
                o.start = None;
                o.expiration = end;
            }
        }
    }
}

fn ends(j: &Job) -> i128 {
    match j {
        Job::Url(r) => r.end,
        Job::Form(f) => f.signing.as_ref().map_or(i128::MAX, |x| x.1.expiration),
    }
}

pub fn fault(g: &mut Gen, ep: Ep) -> Fault {
    let code = *g.r.pick(&[400u16, 401, 403, 404, 408, 409, 412, 429, 500, 501, 502, 503, 504, 599, 300, 305, 418, 301, 302, 303, 307, 308, 402, 405, 410, 422, 451, 505, 511, 520, 600, 999]);
    match g.r.below(10) {
        0 | 1 => Fault::Status(code, g.r.pct(60)),
        2 => {
            let t = if g.r.pct(50) { g.wide() } else { g.text() };
            Fault::StatusBody(code, t)
        }
        3 => Fault::Drop(false),
        4 => Fault::Drop(true),
        5 => Fault::Truncate(g.r.below(1001) as u32),
        6 => Fault::Garbage(match g.r.below(5) {
            0 => b"hello\r\n\r\n".to_vec(),
            1 => b"HTTP/1.1 abc OK\r\n\r\n".to_vec(),
            2 => b"HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n{}".to_vec(),
            3 => vec![0, 159, 146, 150],
            _ => b"HTTP/1.1 200 OK\r\nContent-Len".to_vec(),
        }),
        _ => match ep {
            Ep::Email => Fault::Status(code, true),
            Ep::Token => match g.r.below(3) {
                0 => Fault::TokenType(g.r.pick(&["MAC", "", "Basic", "N_A", "urn:x", "Bearer2", "Token", "Digest", "bearer", "BEARER", "Bearer ", " Bearer", "Bear", "Bearer,Bearer"]).to_string()),
                _ => Fault::Body(bad_token_body(g)),
            },
            Ep::Blob => match g.r.below(3) {
                0 => Fault::Blob64(g.r.pick(&["@unpadded", "@url-safe", "@newline", "@lines", "@blank", "@overpadded", "@cut", "@bits", "@twice", "@unpadded", "@bits", "!!!!", "a", "abcde", "????", "AAAA\\u00e9", "AA*A", "====", "A===", "=AAA", "AA=A", "\\u0000\\u0000"]).to_string()),
                _ => Fault::Body(
                    g.r.pick(&[
                        "",
                        "{",
                        "{}",
                        "null",
                        "\"\"",
                        "1",
                        "{\"keyId\":\"a\"}",
                        "{\"keyId\":\"a\",\"signedBlob\":null}",
                        "{\"keyId\":\"a\",\"signedBlob\":5}",
                        "{\"keyId\":\"a\",\"signedBlob\":[\"AAAA\"]}",
                        "{\"keyId\":\"a\",\"signedBlob\":\"AAAA\"",
                        "{\"keyId\":\"a\",\"signedBlob\":\"AAAA",
                        "{\"keyId\":\"a\",\"signedblob\":\"AAAA\"}",
                        "{\"error\":{\"code\":500}}",
                        "<html>login</html>",
                        "AAAA",
                        "{\"keyId\":\"a\",\"signedBlob\":\"AAAA\"} trailing",
                    ])
                    .to_string(),
                ),
            },
        },
    }
}

fn bad_token_body(g: &mut Gen) -> String {
    let t = format!("ya29.bad.{}", g.word());
    let m = [
        String::new(),
        "{".into(),
        "{}".into(),
        "null".into(),
        "[]".into(),
        "\"x\"".into(),
        format!("{{\"access_token\":\"{t}\",\"expires_in\":3600}}"),
        format!("{{\"access_token\":\"{t}\",\"token_type\":\"Bearer\"}}"),
        "{\"expires_in\":3600,\"token_type\":\"Bearer\"}".into(),
        "{\"access_token\":null,\"expires_in\":3600,\"token_type\":\"Bearer\"}".into(),
        "{\"access_token\":7,\"expires_in\":3600,\"token_type\":\"Bearer\"}".into(),
        format!("{{\"access_token\":\"{t}\",\"expires_in\":null,\"token_type\":\"Bearer\"}}"),
        format!("{{\"access_token\":\"{t}\",\"expires_in\":-1,\"token_type\":\"Bearer\"}}"),
        format!("{{\"access_token\":\"{t}\",\"expires_in\":[1],\"token_type\":\"Bearer\"}}"),
        format!("{{\"access_token\":\"{t}\",\"expires_in\":\"3600\",\"token_type\":\"Bearer\"}}"),
        format!("{{\"access_token\":\"{t}\",\"expires_in\":3599.9,\"token_type\":\"Bearer\"}}"),
        format!("{{\"access_token\":\"{t}\",\"expires_in\":true,\"token_type\":\"Bearer\"}}"),
        format!("{{\"access_token\":\"{t}\",\"expires_in\":18446744073709551616,\"token_type\":\"Bearer\"}}"),
        format!("{{\"access_token\":[\"{t}\"],\"expires_in\":3600,\"token_type\":\"Bearer\"}}"),
        format!("[{{\"access_token\":\"{t}\",\"expires_in\":3600,\"token_type\":\"Bearer\"}}]"),
        format!("{{\"token\":{{\"access_token\":\"{t}\",\"expires_in\":3600,\"token_type\":\"Bearer\"}}}}"),
        format!("{{\"access_token\":\"{t}\",\"expires_in\":\"soon\",\"token_type\":\"Bearer\"}}"),
        format!("{{\"access_token\":\"{t}\",\"expires_in\":3600,\"token_type\":null}}"),
        format!("{{\"access_token\":\"{t}\",\"expires_in\":3600,\"token_type\":\"Bearer\""),
        format!("{{\"access_token\":\"{t}\",\"expires_in\":3600,\"token_type\":\"Bearer\"}} x"),
        "<html>sign in to the captive portal</html>".into(),
        "{\"error\":\"internal_failure\"}".into(),
        format!("access_token={t}&expires_in=3600&token_type=Bearer"),
    ];
    g.r.pick(&m).clone()
}

pub struct Trace {
    pub calls: Vec<Call>,
    pub batches: Vec<Batch>,
    pub log: Vec<(u64, i128, Ev)>,
    pub tokens: HashMap<u32, Vec<Token>>,
    pub keys: Vec<u32>,
    pub aborted: bool,
    /// signBlob requests answered with arbitrary bytes as the signature
    pub odd: std::collections::HashSet<u64>,
    /// debug texts of the keys, where they have any, after every batch
    pub debug: Vec<String>,
}

/// Runs one random scenario.
pub fn scenario(env: &Env, hub: &Arc<Hub>, g: &mut Gen, obs: &mut Obs) -> Trace {
    hub.reset();
    hub.release.notify_waiters();
    clock::set_tick(0);
    let p = obs.prop.clone();
    let nkeys = if g.r.pct(70) { 1 } else { 2 + g.r.usize(2) };
    // somewhere between 1990 and 2200
    clock::freeze(g.r.range(631_152_000, 7_258_118_400), if g.r.pct(50) { 0 } else { g.nanos() });
    let mut tr = Trace { calls: vec![], batches: vec![], log: vec![], tokens: HashMap::new(), keys: vec![], aborted: false, odd: Default::default(), debug: vec![] };
    let mut handles: HashMap<u32, SigningKey> = HashMap::new();
    let short = |g: &mut Gen| match g.r.below(8) {
        0 => *g.r.pick(&[0u64, 1, 5, 29, 30]),
        1 => *g.r.pick(&[31u64, 32, 33, 45, 60, 61, 90]),
        2 => 3599,
        3 => *g.r.pick(&[300u64, 600, 1800, 7200, 43_200, 86_400, 604_800, 31_536_000, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 20, 10_000_000_000, 1 << 40]),
        _ => 3600,
    };
    for i in 0..nkeys {
        let id = env.fresh_key_id();
        let email = if matches!(p.as_str(), "C05" | "C18" | "C12") && g.r.pct(8) {
            obs.count("keys_with_odd_account_names");
            odd_email(g, id)
        } else {
            format!("sa{}-{id}@proj-{}.iam.gserviceaccount.com", i, g.r.below(1000))
        };
        let fix = g.r.usize(2);
        let ttl = short(g);
        let host = hub.add_key(id, &email, fix, ttl);
        let default = i == 0 && g.r.pct(if p == "C18" { 10 } else { 3 });
        if default {
            obs.count("keys_with_the_default_metadata_host");
            hub.inner.lock().unwrap().default_key = Some(id);
        }
        handles.insert(id, if default { env.default_key() } else { env.bound_key(&host) });
        tr.keys.push(id);
    }
    let faulty = match p.as_str() {
        "C17" => 60,
        "C15" | "C19" => 30,
        "C16" => 15,
        _ => 10,
    };
    let steps = 3 + g.r.usize(6);
    let mut n = 0u64;
    for bi in 0..steps {
        // let time pass, often to where some token is about to lapse
        if bi > 0 && g.r.pct(75) {
            let now = clock::now_ns();
            let k = *g.r.pick(&tr.keys);
            let last = hub.with(k, |s| s.tokens.last().cloned());
            let mut d: i128 = match g.r.below(4) {
                0 => i128::from(g.r.range(0, 4000)) * NS,
                1 => i128::from(g.r.range(0, 40)) * NS + i128::from(g.nanos()),
                _ => match &last {
                    Some(t) => {
                        let left = t.at + i128::from(t.ttl.min(1 << 40)) * NS - now;
                        let target = *g.r.pick(&[0i128, 1, NS, -NS, 29 * NS, 30 * NS, 30 * NS - 1, 15 * NS, 31 * NS + NS / 2, 32 * NS, 33 * NS, 45 * NS, 60 * NS, -3600 * NS, 300 * NS, 10 * NS, 20 * NS, 35 * NS]);
                        left - target
                    }
                    None => 0,
                },
            };
            d = d.clamp(0, 200_000 * NS);
            if d > 0 {
                clock::advance(Duration::new((d / NS) as u64, (d % NS) as u32));
            }
        }
        for k in tr.keys.clone() {
            let ttl = if g.r.pct(50) { Some(short(g)) } else { None };
            let slow = *g.r.pick(&[0u64, 0, 200, 2000]);
            let flip = g.r.pct(12);
            let odd = if p == "C18" && g.r.pct(15) { 60 } else { 0 };
            hub.with(k, |s| {
                if let Some(t) = ttl {
                    s.ttl = t;
                }
                s.slow = slow;
                s.odd = odd;
                s.flip.clear();
            });
            if flip {
                // the instance's account changes, at once or in the middle of a build
                let e = format!("moved{bi}-{k}@proj.iam.gserviceaccount.com");
                hub.with(k, |s| {
                    if g.r.pct(50) {
                        let old = s.email.clone();
                        s.flip.push_back(old);
                    }
                    s.flip.push_back(e);
                });
            }
        }
        let mut faults: HashMap<u32, usize> = HashMap::new();
        if g.r.pct(faulty) {
            let k = *g.r.pick(&tr.keys);
            if matches!(p.as_str(), "C15" | "C17") && g.r.pct(50) {
                // when a refresh is due
                let last = hub.with(k, |s| s.tokens.last().cloned());
                let left = last.map_or(0, |t| t.at + i128::from(t.ttl.min(1 << 40)) * NS - clock::now_ns());
                let d = (left - *g.r.pick(&[30i128, 29, 20, 10, 1, 0, -1, -100]) * NS).clamp(0, 200_000 * NS);
                clock::advance(Duration::new((d / NS) as u64, (d % NS) as u32));
            }
            let m = 1 + g.r.usize(3);
            for _ in 0..m {
                let ep = *g.r.pick(&[Ep::Email, Ep::Token, Ep::Token, Ep::Blob, Ep::Blob]);
                let f = fault(g, ep);
                hub.with(k, |s| s.faults.entry(ep).or_default().push_back(f));
                *faults.entry(k).or_default() += 1;
            }
        }
        let ncalls = match g.r.below(10) {
            0..=4 => 1,
            5..=7 => 2 + g.r.usize(3),
            8 => 2 + g.r.usize(8),
            _ => 1 + g.r.usize(2),
        };
        let cancel_pct = match p.as_str() {
            "C17" | "C16" => {
                if g.r.pct(35) {
                    40
                } else {
                    0
                }
            }
            _ => {
                if g.r.pct(15) {
                    30
                } else {
                    0
                }
            }
        };
        // now and then a crowd of callers gives up while a service sits on its replies
        let storm = faults.is_empty() && matches!(p.as_str(), "C15" | "C16" | "C17") && g.r.pct(if p == "C17" { 5 } else { 2 });
        let (ncalls, cancel_pct) = if storm { (18 + g.r.usize(30), 0) } else { (ncalls, cancel_pct) };
        // or all of a large crowd stay
        let mass = !storm && faults.is_empty() && matches!(p.as_str(), "C15" | "C16" | "C17" | "C18") && g.r.below(1000) < if bi == 0 { 8 } else { 2 };
        let (ncalls, cancel_pct) = if mass { (60 + g.r.usize(if cfg!(feature = "real_clock") { 60 } else { 340 }), 0) } else { (ncalls, cancel_pct) };
        if mass {
            obs.count("large_crowds");
        }
        let hold = if ncalls == 1 && faults.is_empty() && g.r.pct(if matches!(p.as_str(), "C04" | "C05" | "C13") { 40 } else { 12 }) {
            Some(*g.r.pick(&[Ep::Email, Ep::Token, Ep::Blob]))
        } else {
            None
        };
        let t0 = clock::now_ns();
        let q0 = hub.next_seq();
        let first = tr.calls.len();
        let mut futs = vec![];
        for _ in 0..ncalls {
            let k = *g.r.pick(&tr.keys);
            let (email, fix) = hub.with(k, |s| (s.email.clone(), s.fix));
            n += 1;
            let mut j = job(g, &email, fix, n, t0);
            if hold.is_some() && g.r.pct(60) {
                soon(g, &mut j, t0);
            }
            if matches!(p.as_str(), "C04" | "C08" | "C13") && g.r.pct(15) {
                match &mut j {
                    Job::Url(r) => urls::spoil(g, r),
                    Job::Form(f) => forms::spoil(g, f),
                }
                match &mut j {
                    Job::Url(r) => r.clock = t0,
                    Job::Form(f) => f.clock = t0,
                }
            }
            let blob = !g.r.pct(if matches!(p.as_str(), "C08" | "C13") { 25 } else { 4 });
            let cancel = if g.r.pct(cancel_pct) && hold.is_none() { Some(g.r.below(14) as u32) } else { None };
            let h = if g.r.pct(50) { handles[&k].clone() } else { handles[&k].clone().clone() };
            futs.push((start_job(&j, h, blob), cancel, g.r.below(3)));
            tr.calls.push(Call { key: k, job: j, blob, cancel, q0, q1: 0, t0, t1: 0, res: Res::Hang, batch: bi });
        }
        let hold_key = tr.calls[first].key;
        if hold.is_some() {
            hub.with(hold_key, |s| {
                s.hold = hold;
                s.held = 0;
            });
        }
        let storm_at = storm.then(|| *g.r.pick(&[Ep::Email, Ep::Token, Ep::Blob, Ep::Blob, Ep::Blob]));
        let stay = g.r.pct(30);
        let wait_ms = 5 + g.r.below(20);
        if storm {
            obs.count("crowds_that_gave_up");
            for k in &tr.keys {
                hub.with(*k, |s| s.hold = storm_at);
            }
        }
        let mut advanced = false;
        let adv = {
            let left = match &tr.calls[first].job {
                Job::Url(r) => r.end - t0,
                Job::Form(f) => f.signing.as_ref().map_or(0, |x| x.1.expiration) - t0,
            };
            // some while, or just up to or past the requested end
            if g.r.pct(50) && left > 0 && left < 1_000_000 * NS {
                let d = (left + *g.r.pick(&[-NS, -1, 0, 1, NS, 5 * NS, -NS / 2, 100 * NS])).max(1);
                Duration::new((d / NS) as u64, (d % NS) as u32)
            } else {
                Duration::new(*g.r.pick(&[0u64, 1, 20, 40, 4000, 86_400]), if g.r.pct(50) { 0 } else { g.nanos() })
            }
        };
        let (done, hang) = env.rt.block_on(async {
            let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<(usize, Res, u64, i128)>();
            let local = tokio::task::LocalSet::new();
            let total = futs.len();
            let (gone, _) = tokio::sync::watch::channel(false);
            for (i, (f, cancel, lag)) in futs.into_iter().enumerate() {
                let tx = tx.clone();
                // in a crowd, all give up, or all but a few
                let mut leave = (storm && !(stay && i % 7 == 3)).then(|| gone.subscribe());
                let hub2 = hub.clone();
                local.spawn_local(async move {
                    for _ in 0..lag {
                        tokio::task::yield_now().await;
                    }
                    let mut h = tokio::task::spawn_local(CancelAt { fut: Some(Box::pin(f)), left: cancel.unwrap_or(u32::MAX) });
                    let done = match &mut leave {
                        None => h.await,
                        Some(l) => {
                            let left = async {
                                let _ = l.wait_for(|x| *x).await;
                            };
                            tokio::select! {
                                r = &mut h => r,
                                () = left => {
                                    h.abort();
                                    h.await
                                }
                            }
                        }
                    };
                    let r = match done {
                        Ok(Some(r)) => r,
                        Ok(None) => Res::Cancelled,
                        Err(e) if e.is_panic() => Res::Panic(crate::last_panic()),
                        Err(_) => Res::Cancelled,
                    };
                    let _ = tx.send((i, r, hub2.next_seq(), clock::now_ns()));
                });
            }
            drop(tx);
            let mut done = vec![];
            let mut hang = false;
            local
                .run_until(async {
                    if hold.is_some() {
                        // let the clock move while the signature is being made
                        let lim = clock::real_mono() + 3.0;
                        loop {
                            if hub.with(hold_key, |s| s.held > 0) {
                                clock::advance(adv);
                                advanced = true;
                                break;
                            }
                            if let Ok(m) = rx.try_recv() {
                                done.push(m);
                                break;
                            }
                            if clock::real_mono() > lim {
                                break;
                            }
                            tokio::time::sleep(Duration::from_micros(300)).await;
                        }
                        hub.with(hold_key, |s| s.hold = None);
                        hub.release.notify_waiters();
                    }
                    if storm {
                        tokio::time::sleep(Duration::from_millis(wait_ms)).await;
                        let _ = gone.send(true);
                        tokio::time::sleep(Duration::from_millis(1)).await;
                        for k in &tr.keys {
                            hub.with(*k, |s| s.hold = None);
                        }
                        hub.release.notify_waiters();
                    }
                    let mut idle_since = clock::real_mono();
                    while done.len() < total {
                        match tokio::time::timeout(Duration::from_millis(500), rx.recv()).await {
                            Ok(Some(m)) => {
                                done.push(m);
                                idle_since = clock::real_mono();
                            }
                            Ok(None) => break,
                            Err(_) => {
                                if clock::real_mono() - idle_since > env.hang_s {
                                    hang = true;
                                    break;
                                }
                            }
                        }
                    }
                })
                .await;
            (done, hang)
        });
        for (i, r, q, t) in done {
            let c = &mut tr.calls[first + i];
            c.res = r;
            c.q1 = q;
            c.t1 = t;
        }
        let q1 = hub.next_seq();
        for c in &mut tr.calls[first..] {
            if matches!(c.res, Res::Hang) {
                c.q1 = q1;
                c.t1 = clock::now_ns();
            }
        }
        for k in &tr.keys {
            hub.with(*k, |s| {
                s.faults.clear();
                s.flip.clear();
            });
        }
        let cancels = tr.calls[first..].iter().any(|c| matches!(c.res, Res::Cancelled));
        if cancels || !faults.is_empty() {
            // let requests that were given up (by cancelled callers, or when another reply was faulty) reach the services and be answered before going on
            let lim = clock::real_mono() + 2.0;
            env.rt.block_on(async {
                tokio::time::sleep(Duration::from_micros(500)).await;
                let (mut seen, mut quiet) = (0, clock::real_mono());
                while clock::real_mono() < lim {
                    let (open, len) = {
                        let g = hub.inner.lock().unwrap();
                        (g.outstanding, g.log.len())
                    };
                    if open > 0 || len != seen {
                        seen = len;
                        quiet = clock::real_mono();
                    }
                    if open == 0 && (!storm || clock::real_mono() - quiet > 0.008) {
                        break;
                    }
                    tokio::time::sleep(Duration::from_micros(200)).await;
                }
            });
        }
        tr.batches.push(Batch { q0, q1, t0, cancels, advanced, t1: clock::now_ns(), calls: first..tr.calls.len(), faults, flips: false });
        if p == "C19" {
            for k in handles.values() {
                tr.debug.extend(crate::secrets::debug_texts(k, g));
            }
        }
        if hang {
            tr.aborted = true;
            break;
        }
    }
    // faults and cancellations are over: the very next call succeeds
    if !tr.aborted {
        obs.count("scenarios");
    }
    hub.inner.lock().unwrap().retire = tr.batches.last().is_some_and(|b| b.cancels);
    tr.log = hub.log();
    let g = hub.inner.lock().unwrap();
    tr.odd = g.odd.clone();
    for k in &tr.keys {
        tr.tokens.insert(*k, g.keys[k].tokens.clone());
    }
    drop(g);
    // a token sent before the clock was moved may have been read after: by its first use, or by the end of the batch
    let mut late: HashMap<String, i128> = HashMap::new();
    for b in tr.batches.iter().filter(|b| b.advanced) {
        let within = |q: u64| q > b.q0 && q < b.q1;
        for (q, _, e) in &tr.log {
            if let Ev::Reply { token: Some(x), .. } = e {
                if within(*q) {
                    let used = tr.log.iter().find_map(|(r, t, e)| match e {
                        Ev::Recv { ep: Ep::Blob, head, .. } if within(*r) && r > q && bearer(head) == Some(x.text.as_str()) => Some(*t),
                        _ => None,
                    });
                    late.insert(x.text.clone(), used.unwrap_or(b.t1));
                }
            }
        }
    }
    for t in tr.tokens.values_mut().flatten() {
        if let Some(l) = late.get(&t.text) {
            t.late = t.late.max(*l);
        }
    }
    tr
}

fn bearer(head: &str) -> Option<&str> {
    header(head, "authorization").and_then(|a| a.strip_prefix("Bearer "))
}

pub fn payload_of(body: &[u8]) -> Result<Vec<u8>, String> {
    let t = std::str::from_utf8(body).map_err(|_| "signBlob body is not UTF-8")?;
    let J::Obj(m) = JsonParser::parse(t).map_err(|e| format!("signBlob body: {e}"))? else { return Err("signBlob body is no object".into()) };
    let mut p = m.iter().filter(|x| x.0 == "payload");
    match (p.next(), p.next()) {
        (Some((_, J::Str(s))), None) => unb64(s).map_err(|e| format!("payload: {e}")),
        _ => Err(format!("signBlob body {t}")),
    }
}

/// What the output says was signed, the signature, and the account in the credential.
fn signed_part(c: &Call) -> Result<Option<(Vec<u8>, Vec<u8>, String)>, String> {
    match (&c.job, &c.res) {
        (Job::Url(r), Res::Url(u)) => {
            let (sts, sig) = server_string_to_sign(u, &r.method, &r.headers)?;
            let cred = parse_url(u)?.get("X-Goog-Credential")?;
            Ok(Some((sts.into_bytes(), sig, account(&cred))))
        }
        (Job::Form(_), Res::Form(v)) => {
            let sig = unhex_lower(forms::get(v, "x-goog-signature")?)?;
            Ok(Some((forms::get(v, "policy")?.as_bytes().to_vec(), sig, account(forms::get(v, "x-goog-credential")?))))
        }
        _ => Ok(None),
    }
}

/// The account of a credential: what comes before its day.
fn account(cred: &str) -> String {
    let b = cred.as_bytes();
    for i in 0..b.len() {
        if b[i] == b'/' && b.get(i + 9) == Some(&b'/') && b[i + 1..i + 9].iter().all(u8::is_ascii_digit) {
            return cred[..i].to_string();
        }
    }
    cred.split('/').next().unwrap_or("").to_string()
}

/// The account whose signBlob method a request path names.
fn path_account(path: &str) -> Option<String> {
    let seg: Vec<&str> = path.split('/').collect();
    let ["", "v1", "projects", p, "serviceAccounts", last] = seg[..] else { return None };
    if p != "-" && p != "%2D" && p != "%2d" {
        return None;
    }
    let l = String::from_utf8(pct_decode(last).ok()?).ok()?;
    l.strip_suffix(":signBlob").map(String::from)
}

/// An account name that needs care in a URL path.
fn odd_email(g: &mut Gen, id: u32) -> String {
    let t = *g.r.pick(&[
        "UPPER.Case@Example.com", "a b@x.com", "sa%41@x.com", "a?b@x.com", "a#b@x.com", "a/b@x.com", "\u{fc}ser@x.com", "a+b@x.com", "sa@example.com:proj.iam.gserviceaccount.com", "%2e%2e@x.com",
        "a;b@x.com", "a&b=c@x.com", "\"q\"@x.com", "x@[1]", "a\\b@x.com", "a%@x.com", "a%2Fb@x.com", "a'b@x.com", "a|b@x.com", "a@x.com ", "{a}@x.com", "a:signBlob@x.com", "../x@y.com", "a:b",
        "a@x.com\n", "\ta@x.com", "a\r\nb@x.com",
    ]);
    if g.r.pct(80) { format!("{id}{t}") } else { format!("{id}{}x", g.text_short().replace('/', "%")) }
}

fn brief(c: &Call) -> String {
    let j = match &c.job {
        Job::Url(r) => r.describe(),
        Job::Form(f) => f.describe(),
    };
    format!("call on key {} in batch {} (signBlob {}, cancel {:?}) {:?} <- {j}", c.key, c.batch, c.blob, c.cancel, c.res)
}

fn show_log(tr: &Trace, key: Option<u32>) -> String {
    let mut s = String::new();
    let mut last_batch = usize::MAX;
    for (q, t, e) in &tr.log {
        if let Some(b) = tr.batches.iter().position(|b| *q > b.q0 && *q < b.q1) {
            if b != last_batch {
                s.push_str(&format!("-- batch {b}: {} calls, cancels {}, faults {:?}\n", tr.batches[b].calls.len(), tr.batches[b].cancels, tr.batches[b].faults));
                last_batch = b;
            }
        }
        let line = match e {
            Ev::Recv { ep, key: k, head, .. } => {
                if key.is_some() && *k != key {
                    continue;
                }
                format!("{q} t={t} recv {ep:?} key={k:?} {}", bearer(head).map(|b| b.chars().rev().take(50).collect::<Vec<_>>().into_iter().rev().collect::<String>()).unwrap_or_default())
            }
            Ev::Reply { req, ep, key: k, proper, token, email, .. } => {
                if key.is_some() && *k != key {
                    continue;
                }
                format!("{q} t={t} reply to {req} {ep:?} key={k:?} proper={proper} token={:?} email={email:?}", token.as_ref().map(|t| (t.text.chars().rev().take(50).collect::<Vec<_>>().into_iter().rev().collect::<String>(), t.ttl)))
            }
            Ev::Other { what, .. } => format!("{q} t={t} {what}"),
        };
        s.push_str(&line);
        s.push('\n');
    }
    s
}

/// C16: separately created keys on one metadata server, each with clones, without faults: exact request counts and
/// token ownership.
fn twins(env: &Env, hub: &Arc<Hub>, g: &mut Gen, obs: &mut Obs) {
    hub.reset();
    hub.release.notify_waiters();
    clock::set_tick(0);
    clock::freeze(g.r.range(631_152_000, 7_258_118_400), g.nanos());
    let id = env.fresh_key_id();
    let email = format!("twin-{id}@proj.iam.gserviceaccount.com");
    let fix = g.r.usize(2);
    let host = hub.add_key(id, &email, fix, 3600);
    struct H {
        clones: Vec<SigningKey>,
        live: Option<(String, i128)>,
    }
    let mut hs: Vec<H> = vec![];
    let mut n = 0;
    let steps = 2 + g.r.usize(6);
    let mut said = String::new();
    for step in 0..steps {
        while hs.is_empty() || (hs.len() < 5 && g.r.pct(if step == 0 { 60 } else { 20 })) {
            let k = env.bound_key(&host);
            hs.push(H { clones: vec![k], live: None });
        }
        if hs.len() > 1 && g.r.pct(10) {
            // the key and its clones go away
            let i = g.r.usize(hs.len());
            hs.remove(i);
        }
        let now = clock::now_ns();
        let mut d = match g.r.below(4) {
            0 => 0,
            1 => i128::from(g.r.range(0, 5000)) * NS,
            _ => hs.iter().filter_map(|h| h.live.as_ref()).map(|l| l.1 - now - *g.r.pick(&[30i128, 32, 40, 0, 300, 29]) * NS).filter(|d| *d < 200_000 * NS).max().unwrap_or(0).max(0),
        };
        while hs.iter().filter_map(|h| h.live.as_ref()).any(|l| (30 * NS + 1..=31 * NS).contains(&(l.1 - now - d))) {
            d += 2 * NS;
        }
        clock::advance(Duration::new((d / NS) as u64, (d % NS) as u32));
        let now = clock::now_ns();
        let ttl = *g.r.pick(&[3600u64, 60, 61, 90, 300, 3599, 86_400, 1 << 32]);
        let slow = *g.r.pick(&[0u64, 0, 300, 1500]);
        hub.with(id, |s| {
            s.ttl = ttl;
            s.slow = slow;
        });
        let m = if g.r.pct(40) { 1 } else { 1 + g.r.usize(8) };
        let q0 = hub.next_seq();
        let mut futs = vec![];
        let mut calls = vec![];
        for _ in 0..m {
            let h = g.r.usize(hs.len());
            let c = g.r.usize(hs[h].clones.len());
            let k = hs[h].clones[c].clone();
            if g.r.pct(30) {
                hs[h].clones.push(k.clone());
            }
            n += 1;
            let j = job(g, &email, fix, n, now);
            futs.push(start_job(&j, k, true));
            calls.push((h, j));
        }
        let lim = Duration::from_secs_f64(env.hang_s);
        let res: Vec<Res> = env.rt.block_on(async {
            let local = tokio::task::LocalSet::new();
            let hds: Vec<_> = futs.into_iter().map(|f| local.spawn_local(tokio::time::timeout(lim, f))).collect();
            local
                .run_until(async {
                    let mut v = vec![];
                    for h in hds {
                        v.push(match h.await {
                            Ok(Ok(r)) => r,
                            Ok(Err(_)) => Res::Hang,
                            Err(_) => Res::Panic(crate::last_panic()),
                        });
                    }
                    v
                })
                .await
        });
        let q1 = hub.next_seq();
        let log: Vec<(u64, i128, Ev)> = hub.log().into_iter().filter(|(q, ..)| *q > q0 && *q < q1).collect();
        let count = |x: Ep| log.iter().filter(|(_, _, e)| matches!(e, Ev::Recv { ep, .. } if *ep == x)).count();
        let mut used: Vec<usize> = calls.iter().map(|c| c.0).collect();
        used.sort_unstable();
        used.dedup();
        let due: Vec<usize> = used.iter().copied().filter(|h| hs[*h].live.as_ref().is_none_or(|l| l.1 - now <= 30 * NS)).collect();
        said.push_str(&format!("+{d} ns: {m} calls on keys {used:?} of {}, due {due:?}: {} account and {} token requests, lifetime {ttl}\n", hs.len(), count(Ep::Email), count(Ep::Token)));
        obs.eval("C16", mix(hash_bytes(format!("twins {} {used:?} {due:?} {m} {ttl}", hs.len()).as_bytes())), || said.lines().last().unwrap_or("").to_string());
        obs.count("twin_waves");
        if calls.iter().zip(&res).any(|(_, r)| matches!(r, Res::Hang | Res::Panic(_) | Res::Err(..))) {
            obs.count("twin_waves_given_up");
            return;
        }
        if count(Ep::Email) != due.len() || count(Ep::Token) != due.len() {
            obs.viol("C16", format!("separately created keys on one metadata server: {} account and {} token requests, expected {} of each\n{said}", count(Ep::Email), count(Ep::Token), due.len()));
            return;
        }
        for ((h, j), r) in calls.iter().zip(res) {
            let c = Call { key: id, job: j.clone(), blob: true, cancel: None, q0, q1, t0: now, t1: now, res: r, batch: 0 };
            let Ok(Some((msg, _, _))) = signed_part(&c) else { continue };
            let tok = log.iter().find_map(|(_, _, e)| match e {
                Ev::Recv { ep: Ep::Blob, head, body, .. } if payload_of(body).ok().as_deref() == Some(&msg) => bearer(head).map(String::from),
                _ => None,
            });
            let Some(tok) = tok else { continue };
            obs.count("twin_tokens_attributed");
            let fresh = hub.with(id, |s| s.tokens.iter().find(|t| t.text == tok).cloned());
            let Some(fresh) = fresh else {
                obs.viol("C16", format!("a token the metadata server never issued: {tok:?}\n{said}"));
                return;
            };
            let expiry = fresh.at + i128::from(fresh.ttl) * NS;
            if let Some(o) = (0..hs.len()).find(|o| o != h && hs[*o].live.as_ref().is_some_and(|l| l.0 == tok)) {
                obs.viol("C16", format!("key {h} signed with the token of the separately created key {o}\n{said}"));
                return;
            }
            match &hs[*h].live {
                Some((t, e)) if *e - now > 30 * NS && *t != tok => {
                    obs.viol("C16", format!("key {h} signed with another token than its own live one\n{said}"));
                    return;
                }
                _ => hs[*h].live = Some((tok, expiry)),
            }
        }
    }
}

pub fn case(env: &Env, seed: u64, obs: &mut Obs) {
    let hub = env.hub.as_ref().expect("hub").clone();
    let mut g = Gen::new(seed, &env.dict);
    if obs.prop == "C16" && g.r.pct(25) {
        twins(env, &hub, &mut g, obs);
        return;
    }
    let tr = scenario(env, &hub, &mut g, obs);
    judge(obs, &tr);
}

pub fn judge(obs: &mut Obs, tr: &Trace) {
    let p = obs.prop.clone();
    obs.add("calls", tr.calls.len() as u64);
    obs.add("service_events", tr.log.len() as u64);
    for c in &tr.calls {
        obs.count(match c.res {
            Res::Url(_) => "signed_urls",
            Res::Form(_) => "signed_forms",
            Res::Err(..) => "errors",
            Res::Cancelled => "cancelled",
            Res::Panic(_) => "panicked",
            Res::Hang => "hung",
        });
    }
    match p.as_str() {
        "C15" => c15(obs, tr),
        "C16" => c16(obs, tr),
        "C17" => c17(obs, tr),
        "C18" => c18(obs, tr),
        "C19" => c19(obs, tr),
        _ => outputs(obs, tr),
    }
}

/// Output monitors of C01-C05, C08, C10-C13 on bound-token results.
fn outputs(obs: &mut Obs, tr: &Trace) {
    let p = obs.prop.clone();
    for c in &tr.calls {
        let signed = matches!(c.res, Res::Url(_) | Res::Form(_));
        let batch = &tr.batches[c.batch];
        // what the call must do when the services answer properly
        let valid = match &c.job {
            Job::Url(r) => r.acceptable(),
            Job::Form(f) => Some(f.buildable()),
        };
        let unsigned_form = matches!(&c.job, Job::Form(f) if f.signing.is_none());
        let want = match valid {
            Some(v) => Some(v && (c.blob || unsigned_form)),
            None if !c.blob && !unsigned_form => Some(false),
            None => None,
        };
        match (&c.job, p.as_str(), want) {
            (Job::Url(_), "C08", Some(want)) | (Job::Form(_), "C13", Some(want)) => {
                let calm = !batch.faults.contains_key(&c.key) && (!batch.advanced || ends(&c.job) > batch.t1);
                if !want {
                    obs.eval(&p, mix(c.q0 ^ hash_bytes(brief(c).as_bytes())), || brief(c));
                    obs.count(if c.blob { "bound_token_invalid_request" } else { "bound_token_without_sign_blob" });
                    if signed {
                        obs.viol(&p, format!("a bound token signed what must be refused (signBlob {}): {}", c.blob, brief(c)));
                    }
                    if let Res::Panic(m) = &c.res {
                        obs.viol(&p, format!("panicked: {m}: {}", brief(c)));
                    }
                } else if calm {
                    obs.eval(&p, mix(c.q0 ^ hash_bytes(brief(c).as_bytes())), || brief(c));
                    obs.count("bound_token_with_sign_blob");
                    if let Res::Err(e, _) | Res::Panic(e) = &c.res {
                        obs.viol(&p, format!("a valid request was refused with healthy services: {e}: {}", brief(c)));
                    }
                }
            }
            _ => {}
        }
        if p == "C04" && want == Some(false) && c.blob {
            if let (Job::Url(r), Res::Url(u)) = (&c.job, &c.res) {
                obs.viol("C04", format!("signed a window it must refuse: {u}\n{}", r.describe()));
            }
        }
        if want != Some(true) {
            continue;
        }
        if batch.advanced && signed {
            obs.count("signed_while_the_clock_moved");
            if ends(&c.job) <= batch.t1 {
                obs.count("signed_while_the_clock_passed_the_end");
            }
        }
        let accounts: Vec<&String> = tr
            .log
            .iter()
            .filter_map(|(_, _, e)| match e {
                Ev::Reply { key, email: Some(m), proper: true, .. } if *key == Some(c.key) => Some(m),
                _ => None,
            })
            .collect();
        let known = |cred: Result<String, String>| cred.ok().map(|c| account(&c)).filter(|a| accounts.iter().any(|x| *x == a));
        match (&c.job, &c.res) {
            (Job::Url(r), Res::Url(u)) => {
                let mut r = r.clone();
                if let Some(a) = known(parse_url(u).and_then(|x| x.get("X-Goog-Credential"))) {
                    r.email = a;
                }
                obs.count("bound_outputs_judged");
                urls::judge(obs, &r, u, c.t0, c.t1);
            }
            (Job::Form(f), Res::Form(v)) => {
                let mut f = f.clone();
                if let Some(a) = known(forms::get(v, "x-goog-credential").map(String::from)) {
                    f.email = a;
                }
                obs.count("bound_outputs_judged");
                forms::judge(obs, &f, v, FIX[f.fix].public, FIX[f.fix].bits, c.t0, c.t1);
            }
            _ => {}
        }
    }
}

fn c15(obs: &mut Obs, tr: &Trace) {
    // what each call had signed
    let outs: Vec<(usize, Vec<u8>)> = tr.calls.iter().enumerate().filter_map(|(i, c)| Some((i, signed_part(c).ok()??.0))).collect();
    for (q, t, e) in &tr.log {
        let Ev::Recv { ep: Ep::Blob, head, body, .. } = e else { continue };
        let Some(b) = tr.batches.iter().position(|b| *q > b.q0 && *q < b.q1) else { continue };
        let tok = bearer(head);
        let found = tok.and_then(|x| tr.tokens.iter().find_map(|(k, v)| v.iter().find(|y| y.text == x).map(|y| (*k, y.clone()))));
        let Some((k, tok)) = found else {
            obs.viol("C15", format!("signBlob carries a token the metadata server never issued: {:?}\n{}", header(head, "authorization"), show_log(tr, None)));
            continue;
        };
        // the metadata reply this token came in
        let issued = tr.log.iter().find_map(|(q, _, e)| match e {
            Ev::Reply { token: Some(x), .. } if x.text == tok.text => Some(*q),
            _ => None,
        });
        let Some(issued) = issued else { continue };
        // justified for at least one call on that key that was open then
        let mut open: Vec<&Call> = tr.calls[tr.batches[b].calls.clone()].iter().filter(|c| c.key == k).collect();
        let msg = payload_of(body).ok();
        let whose: Vec<&Call> = open.iter().copied().filter(|c| msg.is_some() && outs.iter().any(|(i, m)| std::ptr::eq(*c, &tr.calls[*i]) && Some(m) == msg.as_ref())).collect();
        if whose.is_empty() {
            // it may be the late request of a caller that was cancelled just before
            if b > 0 {
                open.extend(tr.calls[tr.batches[b - 1].calls.clone()].iter().filter(|c| c.key == k && matches!(c.res, Res::Cancelled)));
            }
        } else {
            obs.count("requests_matched_to_their_call");
            open = whose;
        }
        let expiry = tok.late + i128::from(tok.ttl) * NS;
        let ok = open.iter().any(|c| issued > c.q0 || expiry - c.t0 > 30 * NS);
        let left = (expiry - tr.batches[b].t0) as f64 / 1e9;
        obs.eval("C15", mix(hash_bytes(format!("{left:.1} {} {} {}", issued > tr.batches[b].q0, tok.ttl, open.len()).as_bytes())), || {
            format!("signBlob at t={t} with a token of {} s, {left} s left when the call began, fetched {}", tok.ttl, if issued > tr.batches[b].q0 { "during the call" } else { "before it" })
        });
        obs.count(if issued > tr.batches[b].q0 { "signed_with_fresh_token" } else { "signed_with_reused_token" });
        if issued <= tr.batches[b].q0 {
            obs.count(if left > 60.0 { "reused_with_over_60s_left" } else { "reused_with_31_to_60s_left" });
        }
        if open.is_empty() {
            obs.viol("C15", format!("signBlob for key {k} while no call on that key is open\n{}", show_log(tr, None)));
        } else if !ok {
            obs.viol("C15", format!("signBlob at seq {q} carries a token with {left} s left when the call began, fetched before the call\n{}", show_log(tr, Some(k))));
        }
        if !tok.proper {
            obs.viol("C15", format!("signBlob carries a token from a failed reply\n{}", show_log(tr, Some(k))));
        }
    }
}

fn c16(obs: &mut Obs, tr: &Trace) {
    for k in &tr.keys {
        // expiry of the token the last successful call signed with
        let mut live: Option<Token> = None;
        let mut tainted = false;
        for (bi, b) in tr.batches.iter().enumerate() {
            let mine: Vec<&(u64, i128, Ev)> = tr
                .log
                .iter()
                .filter(|(q, _, e)| {
                    *q > b.q0
                        && *q < tr.batches.get(bi + 1).map_or(u64::MAX, |n| n.q0)
                        && match e {
                            Ev::Recv { key, .. } | Ev::Reply { key, .. } => *key == Some(*k),
                            _ => false,
                        }
                })
                .collect();
            let meta = |ep: Ep| mine.iter().filter(|(_, _, e)| matches!(e, Ev::Recv { ep: x, .. } if *x == ep)).count();
            let (ne, nt) = (meta(Ep::Email), meta(Ep::Token));
            let calls: Vec<&Call> = tr.calls[b.calls.clone()].iter().filter(|c| c.key == *k).collect();
            // a refresh that asks both endpoints at once gives one request up when the other's reply is faulty; the
            // service may see it late
            let given_up = |ep: Ep| {
                let from = if bi > 0 { tr.batches[bi - 1].q0 } else { b.q0 };
                let to = tr.batches.get(bi + 1).map_or(u64::MAX, |n| n.q0);
                tr.log.iter().filter(|(q, _, e)| *q > from && *q < to && matches!(e, Ev::Reply { ep: x, proper: false, key, .. } if *key == Some(*k) && *x != ep && *x != Ep::Blob)).count()
            };
            let (xe, xt) = (given_up(Ep::Email), given_up(Ep::Token));
            if calls.is_empty() {
                if (ne > xe || nt > xt) && !tainted {
                    obs.viol("C16", format!("metadata requests for key {k} without a call on it\n{}", show_log(tr, None)));
                }
                continue;
            }
            let left = live.as_ref().map(|t| t.at + i128::from(t.ttl) * NS - b.t0);
            let most = live.as_ref().map(|t| t.late + i128::from(t.ttl) * NS - b.t0);
            let state = match left {
                None => "cold",
                Some(x) if x > 31 * NS => "live",
                Some(_) if most.is_some_and(|x| x <= 30 * NS) => "lapsed",
                Some(_) => "edge",
            };
            let faults = b.faults.contains_key(k);
            obs.eval("C16", mix(hash_bytes(format!("{state} {} {:?} {} {ne} {nt} {faults}", calls.len(), left.map(|x| x / (NS / 2)), b.cancels).as_bytes())), || {
                format!("{} calls on a {state} key ({:?} s left): {ne} account and {nt} token requests", calls.len(), left.map(|x| x as f64 / 1e9))
            });
            obs.count(&format!("batches_{state}"));
            if calls.len() > 1 {
                obs.count("concurrent_batches");
            }
            if state == "live" && (ne > xe || nt > xt) && !b.advanced {
                obs.viol("C16", format!("{ne} account and {nt} token requests in batch {bi} though the token has {} s left\n{}", left.unwrap() as f64 / 1e9, show_log(tr, Some(*k))));
            }
            // overlap of refreshes
            if !b.cancels && !tainted {
                // one refresh may well ask both endpoints at once; two requests to one endpoint are two refreshes
                let mut open: HashMap<Ep, Vec<u64>> = HashMap::new();
                for (q, _, e) in &mine {
                    match e {
                        Ev::Recv { ep: ep @ (Ep::Email | Ep::Token), .. } => {
                            let o = open.entry(*ep).or_default();
                            o.push(*q);
                            if o.len() > 1 + if *ep == Ep::Email { xe } else { xt } {
                                obs.viol("C16", format!("metadata requests {o:?} for one key overlap\n{}", show_log(tr, Some(*k))));
                            }
                        }
                        Ev::Reply { ep, req, .. } => {
                            if let Some(o) = open.get_mut(ep) {
                                o.retain(|x| x != req);
                            }
                        }
                        _ => {}
                    }
                }
            }
            // one refresh serves everyone when the token lives long
            let all_long = tr.tokens[k].iter().all(|t| t.ttl >= 60);
            let clean = !faults && !b.cancels && !b.advanced && !tainted;
            if clean && all_long && calls.iter().all(|c| !matches!(c.res, Res::Hang)) && calls.iter().any(|c| c.blob) {
                let want = match state {
                    "live" => Some(0),
                    "cold" | "lapsed" => Some(1),
                    _ => None,
                };
                if let Some(w) = want {
                    obs.count(&format!("refreshes_{w}_checked"));
                    if ne < w || ne > w + xe || nt < w || nt > w + xt {
                        obs.viol("C16", format!("{} calls on a {state} key made {ne} account and {nt} token requests, expected {w} of each\n{}", calls.len(), show_log(tr, Some(*k))));
                    }
                }
            }
            tainted = b.cancels && tr.calls[b.calls.clone()].iter().any(|c| c.key == *k && matches!(c.res, Res::Cancelled));
            // which token is in use now
            for (_, _, e) in &mine {
                if let Ev::Recv { ep: Ep::Blob, head, .. } = e {
                    if let Some(t) = bearer(head).and_then(|x| tr.tokens[k].iter().find(|y| y.text == x)) {
                        if live.as_ref().is_none_or(|l| t.at >= l.at) {
                            live = Some(t.clone());
                        }
                    }
                }
            }
            // a newer token that nobody signed with leaves the state unknown to us
            if let Some(last) = tr.log.iter().rev().find_map(|(q, _, e)| match e {
                Ev::Reply { token: Some(t), key, .. } if *key == Some(*k) && *q < tr.batches.get(bi + 1).map_or(u64::MAX, |n| n.q0) => Some(t.clone()),
                _ => None,
            }) {
                if last.proper && live.as_ref().is_none_or(|l| l.text != last.text) {
                    live = None;
                    // cold or not: unknown
                    tainted = true;
                }
            }
        }
    }
    // separately created keys never share tokens
    for c in &tr.calls {
        if let Ok(Some((msg, _, _))) = signed_part(c) {
            for (_, _, e) in &tr.log {
                if let Ev::Recv { ep: Ep::Blob, head, body, .. } = e {
                    if payload_of(body).ok().as_deref() == Some(&msg) {
                        let own = bearer(head).is_some_and(|b| tr.tokens[&c.key].iter().any(|t| t.text == b));
                        if !own {
                            obs.viol("C16", format!("key {} signed with a token of another key\n{}\n{}", c.key, brief(c), show_log(tr, None)));
                        }
                    }
                }
            }
        }
    }
}

fn c17(obs: &mut Obs, tr: &Trace) {
    for c in &tr.calls {
        let fault_seen = tr.log.iter().any(|(q, _, e)| {
            *q > c.q0 && *q < c.q1 && matches!(e, Ev::Reply { key, proper: false, .. } if *key == Some(c.key) || key.is_none())
        });
        let b = &tr.batches[c.batch];
        let kind = format!(
            "{} fault={fault_seen} cancels={} n={} after={:?}",
            match &c.res {
                Res::Url(_) | Res::Form(_) => "ok",
                Res::Err(e, _) => e.split(':').next().unwrap_or(""),
                Res::Cancelled => "cancelled",
                Res::Panic(_) => "panic",
                Res::Hang => "hang",
            },
            b.cancels,
            b.calls.len(),
            (c.batch > 0).then(|| (tr.batches[c.batch - 1].cancels, tr.batches[c.batch - 1].faults.len())),
        );
        let faults: Vec<String> = tr
            .log
            .iter()
            .filter_map(|(q, _, e)| match e {
                Ev::Reply { ep, key, proper, .. } if *q > c.q0 && *q < c.q1 && *key == Some(c.key) => Some(format!("{ep:?}{proper}")),
                _ => None,
            })
            .collect();
        obs.eval("C17", mix(hash_bytes(format!("{kind}{faults:?}").as_bytes())), || format!("{kind}: replies seen {}", faults.join(" ")));
        if fault_seen {
            obs.count("calls_that_met_a_fault");
        }
        if c.batch > 0 && (tr.batches[c.batch - 1].cancels || !tr.batches[c.batch - 1].faults.is_empty()) && b.faults.is_empty() {
            obs.count("calls_right_after_faults_or_cancellation");
        }
        match &c.res {
            Res::Panic(m) => obs.viol("C17", format!("panicked: {m}\n{}\n{}", brief(c), show_log(tr, Some(c.key)))),
            Res::Hang => obs.viol("C17", format!("no outcome although every request was answered\n{}\n{}", brief(c), show_log(tr, Some(c.key)))),
            Res::Err(e, _) if c.blob && !fault_seen && !(b.advanced && ends(&c.job) <= b.t1) => obs.viol("C17", format!("error though no reply was faulty: {e}\n{}\n{}", brief(c), show_log(tr, Some(c.key)))),
            Res::Url(_) | Res::Form(_) => {
                let part = match signed_part(c) {
                    Ok(Some(x)) => x,
                    Ok(None) => continue,
                    Err(e) => {
                        obs.viol("C17", format!("returned output is not well-formed: {e}\n{}", brief(c)));
                        continue;
                    }
                };
                // a good signBlob reply to a request with a good token, for this very message
                let justified = tr.log.iter().any(|(q, _, e)| match e {
                    Ev::Recv { ep: Ep::Blob, body, head, .. } if *q > c.q0 && *q < c.q1 && payload_of(body).ok().as_deref() == Some(&part.0) => {
                        let tok = bearer(head).is_some_and(|b| tr.tokens[&c.key].iter().any(|t| t.text == b && t.proper));
                        let rep = tr.log.iter().any(|(r, _, e)| {
                            *r < c.q1 && matches!(e, Ev::Reply { req, proper: true, sig: Some(s), .. } if req == q && *s == part.1)
                        });
                        tok && rep
                    }
                    _ => false,
                });
                // a failed refresh is never papered over with a token that was due
                let alone = b.calls.clone().filter(|i| tr.calls[*i].key == c.key).count() == 1;
                let refused = tr.log.iter().any(|(q, _, e)| {
                    *q > c.q0 && *q < c.q1 && matches!(e, Ev::Reply { key, req, ep: Ep::Email | Ep::Token, proper: false, .. } if *key == Some(c.key) && *req > c.q0)
                });
                if alone && refused {
                    obs.count("outputs_after_a_failed_refresh");
                    let old = tr.log.iter().any(|(q, _, e)| match e {
                        Ev::Recv { ep: Ep::Blob, body, head, .. } if *q > c.q0 && *q < c.q1 && payload_of(body).ok().as_deref() == Some(&part.0) => bearer(head).is_some_and(|x| {
                            tr.tokens[&c.key].iter().any(|t| t.text == x && t.late + i128::from(t.ttl) * NS - c.t0 <= 30 * NS)
                                && tr.log.iter().any(|(r, _, e)| *r < c.q0 && matches!(e, Ev::Reply { token: Some(t), .. } if t.text == x))
                        }),
                        _ => false,
                    });
                    if old {
                        obs.viol("C17", format!("the refresh failed, yet an output was returned, signed with the token that was due\n{}\n{}", brief(c), show_log(tr, Some(c.key))));
                    }
                }
                // any reply the call got and could not use makes it fail: nothing is asked again behind the caller's back
                let leftover = c.batch > 0 && (tr.batches[c.batch - 1].cancels || tr.batches[c.batch - 1].faults.contains_key(&c.key));
                if alone && !leftover {
                    let unfit: Vec<u64> = tr
                        .log
                        .iter()
                        .filter_map(|(q, _, e)| match e {
                            Ev::Reply { key, req, proper: false, .. } if *q > c.q0 && *q < c.q1 && *req > c.q0 && *key == Some(c.key) => Some(*req),
                            _ => None,
                        })
                        .collect();
                    obs.count("lone_outputs_checked_for_unfit_replies");
                    if !unfit.is_empty() {
                        obs.viol("C17", format!("an output was returned though the reply to request {unfit:?} was faulty\n{}\n{}", brief(c), show_log(tr, Some(c.key))));
                    }
                }
                if !justified {
                    obs.viol("C17", format!("an output was returned without a good signBlob reply for it\n{}\n{}", brief(c), show_log(tr, Some(c.key))));
                }
            }
            _ => {}
        }
    }
    // tokens from failed refreshes are never used
    for (q, _, e) in &tr.log {
        if let Ev::Recv { ep: Ep::Blob, head, .. } = e {
            let b = bearer(head).unwrap_or("");
            if !tr.tokens.values().flatten().any(|t| t.text == b && t.proper) {
                obs.viol("C17", format!("signBlob request {q} carries a token from a failed refresh: {b:?}\n{}", show_log(tr, None)));
            }
        }
    }
}

fn c18(obs: &mut Obs, tr: &Trace) {
    for (q, _, e) in &tr.log {
        match e {
            Ev::Recv { ep: Ep::Email | Ep::Token, method, head, path, .. } => {
                obs.count("metadata_requests");
                if method != "GET" || header(head, "metadata-flavor") != Some("Google") {
                    obs.viol("C18", format!("metadata request {q} is {method} {path} with Metadata-Flavor {:?}", header(head, "metadata-flavor")));
                }
            }
            Ev::Recv { ep: Ep::Blob, method, path, head, body, proto, key, .. } => {
                obs.count("signblob_requests");
                let known = path_account(path).is_some_and(|a| {
                    tr.log.iter().any(|(r, _, e)| r < q && matches!(e, Ev::Reply { ep: Ep::Email, key: k, email: Some(m), proper: true, .. } if k == key && *m == a))
                });
                let mut bad = vec![];
                if method != "POST" {
                    bad.push(format!("method {method}"));
                }
                if *proto != "https" {
                    bad.push("not over HTTPS".to_string());
                }
                if !known {
                    bad.push(format!("path {path} names no account of this key"));
                }
                if header(head, "host").is_some_and(|h| h != "iamcredentials.googleapis.com" && h != "iamcredentials.googleapis.com:443") {
                    bad.push(format!("host {:?}", header(head, "host")));
                }
                if header(head, "content-type").is_some_and(|t| !t.split(';').next().unwrap_or("").trim().eq_ignore_ascii_case("application/json")) {
                    bad.push(format!("content type {:?} on a JSON payload", header(head, "content-type")));
                }
                if bearer(head).is_none() {
                    bad.push(format!("authorization {:?}", header(head, "authorization")));
                }
                if let Err(e) = payload_of(body) {
                    bad.push(e);
                }
                if !bad.is_empty() {
                    obs.viol("C18", format!("signBlob request {q}: {}\n{head}{}\n{}", bad.join("; "), String::from_utf8_lossy(body), show_log(tr, *key)));
                }
            }
            Ev::Other { what, .. } => {
                if !what.starts_with("proxy CONNECT iamcredentials.googleapis.com:443") {
                    obs.viol("C18", format!("unexpected request: {what}"));
                }
            }
            _ => {}
        }
    }
    // a call asks signBlob at most once, whatever the answer
    for (bi, b) in tr.batches.iter().enumerate() {
        for k in &tr.keys {
            let mut calls = b.calls.clone().filter(|i| tr.calls[*i].key == *k).count();
            if bi > 0 {
                calls += tr.batches[bi - 1].calls.clone().filter(|i| tr.calls[*i].key == *k && matches!(tr.calls[*i].res, Res::Cancelled)).count();
            }
            let posts = tr.log.iter().filter(|(q, _, e)| *q > b.q0 && *q < b.q1 && matches!(e, Ev::Recv { ep: Ep::Blob, key, .. } if *key == Some(*k))).count();
            if posts > calls {
                obs.viol("C18", format!("{posts} signBlob requests for {calls} calls on key {k}\n{}", show_log(tr, Some(*k))));
            }
        }
    }
    for c in &tr.calls {
        let part = match signed_part(c) {
            Ok(Some(x)) => x,
            Ok(None) => continue,
            Err(e) => {
                obs.viol("C18", format!("returned output is not well-formed: {e}\n{}", brief(c)));
                continue;
            }
        };
        let reqs: Vec<(u64, &String, &String)> = tr
            .log
            .iter()
            .filter_map(|(q, _, e)| match e {
                Ev::Recv { ep: Ep::Blob, path, head, body, .. } if *q > c.q0 && *q < c.q1 && payload_of(body).ok().as_deref() == Some(&part.0) => Some((*q, path, head)),
                _ => None,
            })
            .collect();
        obs.eval("C18", mix(hash_bytes(&part.0)), || brief(c));
        if reqs.is_empty() {
            obs.viol("C18", format!("no signBlob request carried exactly the bytes the output needs signed ({:?})\n{}\n{}", String::from_utf8_lossy(&part.0), brief(c), show_log(tr, Some(c.key))));
            continue;
        }
        if reqs.len() > 1 {
            obs.viol("C18", format!("{} signBlob requests for one output\n{}\n{}", reqs.len(), brief(c), show_log(tr, Some(c.key))));
        }
        // the answered request's account is the credential's, and its reply is the signature
        let good = reqs.iter().find(|(q, ..)| tr.log.iter().any(|(_, _, e)| matches!(e, Ev::Reply { req, sig: Some(s), .. } if req == q && *s == part.1)));
        match good {
            None => obs.viol("C18", format!("the signature is not what signBlob returned\n{}\n{}", brief(c), show_log(tr, Some(c.key)))),
            Some((q, path, head)) => {
                if path_account(path).as_ref() != Some(&part.2) {
                    obs.viol("C18", format!("credential names {:?}, signBlob request {q} went to {path}\n{}\n{}", part.2, brief(c), show_log(tr, Some(c.key))));
                }
                if !bearer(head).is_some_and(|b| tr.tokens[&c.key].iter().any(|t| t.text == b)) {
                    obs.viol("C18", format!("signBlob request {q} carries no token of this key\n{}", show_log(tr, None)));
                }
            }
        }
        let fix = match &c.job {
            Job::Url(r) => r.fix,
            Job::Form(f) => f.fix,
        };
        if good.is_some_and(|(q, ..)| tr.odd.contains(q)) {
            obs.count("signatures_of_arbitrary_bytes");
        } else if !rsa_verify(FIX[fix].public, &part.0, &part.1) {
            obs.viol("C18", format!("the output does not verify under the account's key\n{}", brief(c)));
        }
    }
}

/// Texts in which a canary must not occur, with a canary's fragments in plain, hex and base64 form.
pub fn leaks(text: &str, secret: &[u8]) -> Option<String> {
    let n = 16;
    if secret.len() < n {
        return None;
    }
    let t = text.as_bytes();
    let find = |needle: &[u8]| t.windows(needle.len()).any(|w| w == needle);
    // windows of the secret at a stride: any longer verbatim run contains one
    let mut i = 0;
    while i + n <= secret.len() {
        let w = &secret[i..i + n];
        if find(w) {
            return Some(String::from_utf8_lossy(w).into_owned());
        }
        i += n;
    }
    let h = hex(&secret[..n]);
    if find(h.as_bytes()) || find(h.to_uppercase().as_bytes()) {
        return Some(format!("hex {h}"));
    }
    for off in 0..3 {
        let e = b64(&secret[off..off + 12]);
        if find(e.as_bytes()) {
            return Some(format!("base64 {e}"));
        }
    }
    None
}

pub fn output_texts(r: &Res) -> Vec<String> {
    match r {
        Res::Url(u) => {
            let mut v = vec![u.clone()];
            if let Ok(d) = pct_decode(u) {
                v.push(String::from_utf8_lossy(&d).into_owned());
            }
            v
        }
        Res::Form(f) => {
            let mut v: Vec<String> = f.iter().flat_map(|(a, b)| [a.clone(), b.clone()]).collect();
            if let Ok(p) = forms::get(f, "policy").and_then(|p| unb64(p).map_err(|e| e.to_string())) {
                v.push(String::from_utf8_lossy(&p).into_owned());
            }
            v
        }
        Res::Err(a, b) => vec![a.clone(), b.clone()],
        _ => vec![],
    }
}

fn c19(obs: &mut Obs, tr: &Trace) {
    let canaries: Vec<&Token> = tr.tokens.values().flatten().filter(|t| t.canary).collect();
    let secret = |t: &Token| t.text.as_bytes()[t.text.len() - 40..].to_vec();
    for c in &tr.calls {
        let texts = output_texts(&c.res);
        if texts.is_empty() || canaries.is_empty() {
            continue;
        }
        obs.eval("C19", mix(hash_bytes(brief(c).as_bytes())), || brief(c));
        obs.count(if matches!(c.res, Res::Err(..)) { "error_texts_scanned" } else { "outputs_scanned" });
        for t in &canaries {
            for x in &texts {
                if let Some(w) = leaks(x, &secret(t)) {
                    obs.viol("C19", format!("access token fragment {w:?} in {x:?}\n{}", brief(c)));
                }
            }
        }
    }
    obs.add("debug_texts_scanned", tr.debug.len() as u64);
    for x in &tr.debug {
        for t in &canaries {
            if let Some(w) = leaks(x, &secret(t)) {
                obs.viol("C19", format!("access token fragment {w:?} in a debug text: {x:?}"));
            }
        }
    }
    for (q, _, e) in &tr.log {
        let (raw, blob) = match e {
            Ev::Recv { ep, head, body, .. } => {
                let mut s = head.clone();
                s.push_str(&String::from_utf8_lossy(body));
                (s, *ep == Ep::Blob)
            }
            Ev::Other { raw, what } => (format!("{what}{}", String::from_utf8_lossy(raw)), false),
            _ => continue,
        };
        obs.count("wire_requests_scanned");
        let scan: String = if blob { raw.split("\r\n").filter(|l| !l.to_ascii_lowercase().starts_with("authorization:")).collect::<Vec<_>>().join("\n") } else { raw };
        for t in &canaries {
            if let Some(w) = leaks(&scan, &secret(t)) {
                obs.viol("C19", format!("access token fragment {w:?} on the wire outside the Authorization header of signBlob, event {q}: {scan:?}"));
            }
        }
    }
}
