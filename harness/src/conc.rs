//! C20: the same calls one by one and all at once.
use crate::bound::{start_job, CancelAt, Job, Res};
use crate::forms;
use crate::gen::Gen;
use crate::keys::{load_sa, FIX};
use crate::obs::Obs;
use crate::rng::{hash_bytes, mix};
use crate::server::Ep;
use crate::urls::{self, NS};
use crate::{clock, Env};
use cloud_storage_signature::SigningKey;
use std::time::Duration;

fn same(a: &Res, b: &Res, exact_errors: bool) -> bool {
    match (a, b) {
        (Res::Url(x), Res::Url(y)) => x == y,
        (Res::Form(x), Res::Form(y)) => x == y,
        (Res::Err(x, _), Res::Err(y, _)) => !exact_errors || x == y,
        _ => false,
    }
}

fn show(r: &Res) -> String {
    format!("{r:?}")
}

/// A URL or form to build for this account and key, mostly valid, at this time.
fn gen_job(g: &mut Gen, now: i128, email: &str, fix: usize) -> Job {
    if g.r.pct(50) {
        let mut r = urls::valid(g);
        r.tick = 0;
        r.email = email.to_string();
        r.fix = fix;
        r.clock = now;
        if g.r.pct(15) {
            urls::spoil(g, &mut r);
        }
        if r.start.is_none() && cfg!(feature = "real_clock") {
            r.start = Some(now);
        }
        if r.start.is_none() {
            r.end = now + i128::from(g.r.range(1, 600_000)) * NS;
        }
        r.clock = now;
        Job::Url(r)
    } else {
        let mut f = forms::gen(g, 95);
        f.tick = 0;
        f.email = email.to_string();
        f.fix = fix;
        if g.r.pct(15) {
            forms::spoil(g, &mut f);
        }
        f.clock = now;
        if let Some((_, o)) = &mut f.signing {
            if o.start.is_none() && cfg!(feature = "real_clock") {
                o.start = Some(now);
            }
            if o.start.is_none() {
                o.expiration = now + i128::from(g.r.range(1, 600_000)) * NS;
            }
        }
        Job::Form(f)
    }
}

fn start_time(g: &mut Gen) -> i128 {
    if cfg!(feature = "real_clock") {
        std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_nanos() as i128)
    } else {
        i128::from(g.r.range(631_152_000, 7_258_118_400)) * NS + i128::from(g.nanos())
    }
}

/// The first calls a process ever makes, all at once, then again one by one: (outcomes compared, differences).
pub fn cold(env: &Env, seed: u64) -> (u64, Vec<String>) {
    let mut g = Gen::new(seed, &env.dict);
    clock::set_tick(0);
    let now = start_time(&mut g);
    clock::freeze((now / NS) as i64, (now % NS) as u32);
    let n = 2 + g.r.usize(9);
    let shared = g.r.pct(50);
    let mut jobs = vec![];
    for i in 0..n {
        let fix = g.r.usize(2);
        let email = format!("sa{fix}-{}@p.iam.gserviceaccount.com", g.r.below(1000));
        let mut j = gen_job(&mut g, now, &email, fix);
        if i > 0 && shared {
            let (p, ..): &(Job, String, usize, u64) = &jobs[0];
            if let (Job::Url(r), Job::Url(p)) = (&mut j, p) {
                let (email, fix) = (r.email.clone(), r.fix);
                *r = p.clone();
                (r.email, r.fix) = (email, fix);
                r.object.push_str(&i.to_string());
            }
        }
        jobs.push((j, email, fix, g.r.next()));
    }
    let ready = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let threads: Vec<_> = jobs
        .iter()
        .cloned()
        .enumerate()
        .map(|(i, (j, email, fix, how))| {
            let (ready, dir) = (ready.clone(), env.scratch.join(i.to_string()));
            std::thread::spawn(move || {
                std::fs::create_dir_all(&dir).expect("scratch");
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
                ready.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                while ready.load(std::sync::atomic::Ordering::Relaxed) < n {
                    std::hint::spin_loop();
                }
                rt.block_on(start_job(&j, load_sa(how, &email, FIX[fix].pem, &dir), false))
            })
        })
        .collect();
    let together: Vec<Res> = threads.into_iter().map(|t| t.join().unwrap_or_else(|_| Res::Panic(crate::last_panic()))).collect();
    let mut diffs = vec![];
    for (t, (j, email, fix, how)) in together.iter().zip(&jobs) {
        let a = urls::run(env, start_job(j, load_sa(*how, email, FIX[*fix].pem, &env.scratch), false)).unwrap_or_else(Res::Panic);
        if !same(&a, t, true) {
            diffs.push(format!("a call among the first {n} of a process has another result than alone\nalone:    {}\ntogether: {}\ncall: {j:?}", show(&a), show(t)));
        }
    }
    (n as u64, diffs)
}

/// Runs `cold` in processes of their own.
fn cold_processes(seed: u64, obs: &mut Obs) {
    let tries = if obs.replay { 60 } else { 2 };
    for k in 0..tries {
        let seed = mix(seed ^ 0xC01D ^ k);
        let exe = std::env::current_exe().expect("exe");
        let out = std::process::Command::new("timeout").arg("60").arg(exe).args(["cold", &seed.to_string()]).output().expect("cold process");
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        match text.lines().find_map(|l| l.strip_prefix("COLD ")).and_then(|l| l.parse::<u64>().ok()) {
            Some(n) => {
                obs.count("cold_processes");
                for i in 0..n {
                    obs.eval("C20", mix(seed ^ i), || format!("call {i} among the first {n} of a process (seed {seed})"));
                }
                if let Some(d) = text.split("DIFF ").nth(1) {
                    obs.viol("C20", d.chars().take(4000).collect::<String>());
                    return;
                }
            }
            None => {
                use std::os::unix::process::ExitStatusExt;
                let how = match (out.status.signal(), out.status.code()) {
                    (Some(s), _) => format!("died of signal {s}"),
                    (_, Some(124)) => "did not finish".to_string(),
                    (_, Some(c)) if c > 128 => format!("died of signal {}", c - 128),
                    _ => {
                        obs.count("cold_processes_broken");
                        continue;
                    }
                };
                obs.viol("C20", format!("a process whose first calls are made at once {how} (seed {seed})\n{}", String::from_utf8_lossy(&out.stderr).chars().take(2000).collect::<String>()));
                return;
            }
        }
    }
}

pub fn case(env: &Env, seed: u64, obs: &mut Obs) {
    let hub = env.hub.as_ref().expect("hub").clone();
    let mt = env.mt.as_ref().expect("runtime");
    let mut g = Gen::new(seed, &env.dict);
    hub.reset();
    clock::set_tick(0);
    let now = start_time(&mut g);
    clock::freeze((now / NS) as i64, (now % NS) as u32);
    // keys: two service accounts, two bound tokens (the twin sees the same metadata server)
    struct K {
        key: SigningKey,
        twin: SigningKey,
        email: String,
        fix: usize,
        bound: Option<u32>,
    }
    let mut keys: Vec<K> = vec![];
    for i in 0..2 {
        let email = format!("sa{i}-{}@p.iam.gserviceaccount.com", g.r.below(1000));
        let key = load_sa(g.r.next(), &email, FIX[i].pem, &env.scratch);
        let twin = SigningKey::service_account(email.clone(), FIX[i].pem.to_string());
        keys.push(K { key, twin, email, fix: i, bound: None });
    }
    for i in 0..1 + g.r.usize(2) {
        let id = env.fresh_key_id();
        let email = format!("bound{i}-{id}@p.iam.gserviceaccount.com");
        let fix = g.r.usize(2);
        let ttl = *g.r.pick(&[3600u64, 3600, 3600, 20, 61, 86_400]);
        let host = hub.add_key(id, &email, fix, ttl);
        keys.push(K { key: env.bound_key(&host), twin: env.bound_key(&host), email, fix, bound: Some(id) });
    }
    let n = 8 + g.r.usize(33);
    let mut jobs: Vec<(usize, Job, bool)> = vec![];
    for i in 0..n {
        let k = if g.r.pct(55) { 2 + g.r.usize(keys.len() - 2) } else { g.r.usize(2) };
        let bound = keys[k].bound.is_some();
        let mut j = gen_job(&mut g, now, &keys[k].email, keys[k].fix);
        // some calls are the same call made by several callers, or differ in one thing only
        if i > 0 && g.r.pct(25) {
            let prev = jobs[g.r.usize(jobs.len())].clone();
            j = match prev.1 {
                Job::Url(mut r) => {
                    if g.r.pct(60) {
                        r.object.push_str("-x");
                    }
                    Job::Url(r)
                }
                f => f,
            };
            jobs.push((prev.0, j, prev.2));
            continue;
        }
        let blob = if bound { !g.r.pct(8) } else { g.r.pct(6) };
        jobs.push((k, j, blob));
    }
    let exec = |j: &Job, key: SigningKey, blob: bool| {
        let f = start_job(j, key, blob);
        urls::run(env, async move { tokio::time::timeout(Duration::from_secs(60), f).await.unwrap_or(Res::Hang) }).unwrap_or_else(Res::Panic)
    };
    // whatever the library keeps from one call to the next is warm in one half of the cases and cold in the other
    let one_by_one = || -> Vec<Res> { jobs.iter().map(|(k, j, b)| exec(j, keys[*k].twin.clone(), *b)).collect() };
    let first = g.r.pct(50);
    let mut alone = if first { one_by_one() } else { vec![] };
    for k in &keys {
        if let Some(id) = k.bound {
            let slow = *g.r.pick(&[0u64, 300, 2000, 5000]);
            hub.with(id, |s| s.slow = slow);
        }
    }
    // all at once
    let abort_pct = *g.r.pick(&[0u64, 0, 15, 40]);
    let order: std::sync::Arc<std::sync::Mutex<Vec<usize>>> = Default::default();
    let mut handles = vec![];
    let mut on_threads = vec![];
    let mut aborts = vec![];
    for (i, (k, j, blob)) in jobs.iter().enumerate() {
        // a clone, or the same key loaded anew for this call alone
        let key = match keys[*k].bound {
            None if g.r.pct(30) => load_sa(g.r.next(), &keys[*k].email, FIX[keys[*k].fix].pem, &env.scratch),
            _ => keys[*k].key.clone(),
        };
        let abort = g.r.pct(abort_pct);
        let polls = if abort && g.r.pct(50) { g.r.below(12) as u32 } else { u32::MAX };
        let lag = g.r.below(3);
        if keys[*k].bound.is_none() && !abort && g.r.pct(30) {
            on_threads.push((i, j.clone(), key, *blob));
            continue;
        }
        let fut = start_job(j, key, *blob);
        let ord = order.clone();
        let h = mt.spawn(async move {
            for _ in 0..lag {
                tokio::task::yield_now().await;
            }
            let r = CancelAt { fut: Some(Box::pin(fut)), left: polls }.await.unwrap_or(Res::Cancelled);
            ord.lock().unwrap().push(i);
            r
        });
        if abort && polls == u32::MAX {
            aborts.push((h.abort_handle(), g.r.below(4000)));
        }
        handles.push((i, h));
    }
    let threads: Vec<_> = on_threads
        .into_iter()
        .map(|(i, j, key, blob)| {
            let ord = order.clone();
            (
                i,
                std::thread::spawn(move || {
                    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
                    let r = rt.block_on(start_job(&j, key, blob));
                    ord.lock().unwrap().push(i);
                    r
                }),
            )
        })
        .collect();
    aborts.sort_by_key(|a| a.1);
    let mut slept = 0;
    for (h, at) in aborts {
        if at > slept {
            std::thread::sleep(Duration::from_micros(at - slept));
            slept = at;
        }
        h.abort();
    }
    let mut together: Vec<Option<Res>> = (0..n).map(|_| None).collect();
    let hang_s = env.hang_s;
    let got = mt.block_on(async move {
        let lim = tokio::time::Instant::now() + Duration::from_secs_f64(hang_s);
        let mut v = vec![];
        for (i, h) in handles {
            let r = match tokio::time::timeout_at(lim, h).await {
                Ok(Ok(r)) => r,
                Ok(Err(e)) if e.is_panic() => Res::Panic(crate::last_panic()),
                Ok(Err(_)) => Res::Cancelled,
                Err(_) => Res::Hang,
            };
            v.push((i, r));
        }
        v
    });
    for (i, r) in got {
        together[i] = Some(r);
    }
    for (i, t) in threads {
        together[i] = Some(t.join().unwrap_or_else(|_| Res::Panic(crate::last_panic())));
    }
    let ord = order.lock().unwrap().clone();
    if !first {
        for k in &keys {
            if let Some(id) = k.bound {
                hub.with(id, |s| s.slow = 0);
            }
        }
        alone = one_by_one();
        obs.count("alone_afterwards");
    }
    let h = mix(hash_bytes(format!("{ord:?}").as_bytes()));
    for (i, (k, j, blob)) in jobs.iter().enumerate() {
        let t = together[i].as_ref().expect("result");
        if matches!(t, Res::Cancelled) {
            obs.count("cancelled");
            continue;
        }
        let bound = keys[*k].bound.is_some();
        obs.count(match t {
            Res::Url(_) => "urls",
            Res::Form(_) => "forms",
            Res::Err(..) => "errors",
            _ => "other",
        });
        if bound {
            obs.count("on_bound_tokens");
        }
        obs.eval("C20", h, || format!("{n} calls on {} keys, finished in the order {ord:?}", keys.len()));
        if !same(&alone[i], t, !bound) {
            let lead = if matches!(t, Res::Hang) { "no outcome of a concurrent call" } else { "concurrent and sequential results differ" };
            obs.viol(
                "C20",
                format!(
                    "{lead} (call {i} of {n}, key {k}, signBlob {blob})\nalone:    {}\ntogether: {}\ncall: {j:?}",
                    show(&alone[i]),
                    show(t)
                ),
            );
        }
    }
    // a crowd of callers on one bound key gives up; those who stay and those who come after get what they get alone
    if g.r.pct(25) && obs.viols.is_empty() {
        let bound: Vec<usize> = (0..keys.len()).filter(|i| keys[*i].bound.is_some()).collect();
        let mine: Vec<usize> = (0..n).filter(|i| keys[jobs[*i].0].bound.is_some()).collect();
        if let (false, false) = (bound.is_empty(), mine.is_empty()) {
            let ep = *g.r.pick(&[Ep::Email, Ep::Token, Ep::Blob, Ep::Blob, Ep::Blob]);
            for k in &bound {
                hub.with(keys[*k].bound.unwrap(), |s| {
                    s.hold = Some(ep);
                    s.slow = 0;
                });
            }
            let crowd = 20 + g.r.usize(40);
            let stay_pct = *g.r.pick(&[0u64, 0, 10]);
            let mut stay = vec![];
            let mut leave = vec![];
            for _ in 0..crowd {
                let i = mine[g.r.usize(mine.len())];
                let (k, j, blob) = &jobs[i];
                let h = mt.spawn(start_job(j, keys[*k].key.clone(), *blob));
                if g.r.pct(stay_pct) {
                    stay.push((i, h));
                } else {
                    leave.push(h);
                }
            }
            std::thread::sleep(Duration::from_millis(10 + g.r.below(15)));
            for h in &leave {
                h.abort();
            }
            mt.block_on(async {
                for h in leave {
                    let _ = h.await;
                }
            });
            for k in &bound {
                hub.with(keys[*k].bound.unwrap(), |s| s.hold = None);
            }
            hub.release.notify_waiters();
            obs.count("crowds_that_gave_up");
            let lim = Duration::from_secs_f64(hang_s);
            let check = |i: usize, r: Res, who: &str, obs: &mut Obs| {
                obs.eval("C20", mix(h ^ hash_bytes(format!("{who} {crowd} {ep:?} {i}").as_bytes())), || format!("call {i} {who} a crowd of {crowd} that gave up at {ep:?}"));
                if !same(&alone[i], &r, false) {
                    obs.viol(
                        "C20",
                        format!("a call {who} a crowd of {crowd} callers that gave up at {ep:?} has another result than alone\nalone: {}\nnow:   {}\ncall: {:?}", show(&alone[i]), show(&r), jobs[i].1),
                    );
                }
            };
            for (i, hd) in stay {
                let r = mt.block_on(async { tokio::time::timeout(lim, hd).await });
                let r = match r {
                    Ok(Ok(r)) => r,
                    Ok(Err(e)) if e.is_panic() => Res::Panic(crate::last_panic()),
                    Ok(Err(_)) => Res::Cancelled,
                    Err(_) => Res::Hang,
                };
                check(i, r, "amid", obs);
            }
            for _ in 0..3 {
                let i = mine[g.r.usize(mine.len())];
                let f = start_job(&jobs[i].1, keys[jobs[i].0].key.clone(), jobs[i].2);
                let hd = mt.spawn(f);
                let r = match mt.block_on(async { tokio::time::timeout(lim, hd).await }) {
                    Ok(Ok(r)) => r,
                    Ok(Err(_)) => Res::Panic(crate::last_panic()),
                    Err(_) => Res::Hang,
                };
                check(i, r, "after", obs);
            }
        }
    }
    // a large crowd at once, all of which stay
    if !cfg!(feature = "real_clock") && g.r.below(1000) < 18 && obs.viols.is_empty() {
        let mine: Vec<usize> = (0..n).filter(|i| keys[jobs[*i].0].bound.is_some() && !matches!(alone[*i], Res::Cancelled | Res::Hang)).collect();
        if !mine.is_empty() {
            let ep = *g.r.pick(&[Ep::Token, Ep::Blob, Ep::Blob]);
            let bound: Vec<u32> = keys.iter().filter_map(|k| k.bound).collect();
            for id in &bound {
                hub.with(*id, |s| {
                    s.hold = Some(ep);
                    s.slow = 0;
                });
            }
            let crowd = 100 + g.r.usize(500);
            let all: Vec<_> = (0..crowd)
                .map(|_| {
                    let i = mine[g.r.usize(mine.len())];
                    let (k, j, blob) = &jobs[i];
                    (i, mt.spawn(start_job(j, keys[*k].key.clone(), *blob)))
                })
                .collect();
            // until everyone has come as far as the service lets them
            let mut seen = 0;
            for _ in 0..200 {
                std::thread::sleep(Duration::from_millis(15));
                let now = hub.inner.lock().unwrap().log.len();
                if now == seen {
                    break;
                }
                seen = now;
            }
            for id in &bound {
                hub.with(*id, |s| s.hold = None);
            }
            hub.release.notify_waiters();
            obs.count("large_crowds");
            obs.add("callers_in_large_crowds", crowd as u64);
            let lim = Duration::from_secs_f64(hang_s * 5.0);
            for (i, hd) in all {
                let r = match mt.block_on(async { tokio::time::timeout(lim, hd).await }) {
                    Ok(Ok(r)) => r,
                    Ok(Err(e)) if e.is_panic() => Res::Panic(crate::last_panic()),
                    Ok(Err(_)) => Res::Cancelled,
                    Err(_) => Res::Hang,
                };
                obs.eval("C20", mix(h ^ hash_bytes(format!("mass {crowd} {ep:?} {i}").as_bytes())), || format!("call {i} among {crowd} at once"));
                if !same(&alone[i], &r, false) {
                    obs.viol(
                        "C20",
                        format!("a call among {crowd} at once, held at {ep:?}, has another result than alone\nalone: {}\nnow:   {}\ncall: {:?}", show(&alone[i]), show(&r), jobs[i].1),
                    );
                    break;
                }
            }
        }
    }
    obs.count("rounds");
    if !cfg!(feature = "real_clock") && obs.viols.is_empty() && (obs.replay || g.r.pct(6)) {
        cold_processes(seed, obs);
    }
    obs.add("service_events", hub.inner.lock().unwrap().log.len() as u64);
}
