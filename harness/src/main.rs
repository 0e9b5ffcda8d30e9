//! csigmon: runtime monitors for cloud-storage-signature.
//!
//!   csigmon check <property>          run the workload under its monitors, write the evidence, report violations
//!   csigmon replay <file>             rerun the case recorded in a replay file
//!   csigmon stress <seconds> [seed]   the concurrent workload alone (sanitizer builds)
#![allow(dead_code)]
mod bound;
mod clock;
mod conc;
mod forms;
mod gen;
mod json;
mod keys;
mod meta;
mod model;
mod obs;
mod panics;
mod rng;
mod secrets;
mod server;
mod urls;

use cloud_storage_signature::SigningKey;
use obs::{Obs, Viol};
use rng::{hash_bytes, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub struct Env {
    pub rt: tokio::runtime::Runtime,
    pub mt: Option<tokio::runtime::Runtime>,
    pub dict: gen::Dict,
    pub scratch: PathBuf,
    pub hub: Option<Arc<server::Hub>>,
    pub hang_s: f64,
    next_key: AtomicU32,
}

impl Env {
    pub fn bound_key(&self, host: &str) -> SigningKey {
        std::env::set_var("GCE_METADATA_HOST", host.replace('\0', ""));
        SigningKey::bound_token()
    }
    /// A key made while GCE_METADATA_HOST is not set.
    pub fn default_key(&self) -> SigningKey {
        std::env::remove_var("GCE_METADATA_HOST");
        SigningKey::bound_token()
    }
    pub fn fresh_key_id(&self) -> u32 {
        1 + self.next_key.fetch_add(1, SeqCst) % 16_000_000
    }
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn last_panic() -> String {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| l.to_string()).unwrap_or_default();
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{m:?} at {l}");
    }));
}

fn verif() -> PathBuf {
    std::env::var_os("CSIGMON_HOME").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}

struct Spec {
    id: &'static str,
    quick: u64,
    thorough: u64,
    /// needs the fake services
    net: bool,
    rule: &'static str,
    assume: &'static [&'static str],
}

const URL_RULE: &str = "random requests: bucket/object/query/header/region/email texts mixing plain words, URL-reserved characters, percent escapes, controls, blanks, non-ASCII and literals found in the library's source; all methods; windows at and around second, day, year and limit boundaries under a frozen or ticking virtual clock; RSA keys of 2048-4096 bits through every constructor. Non-trivial: the library returned a URL (or had to refuse) and the monitor judged it; distinct by the whole request.";
const FORM_RULE: &str = "random builder call sequences with repeated setters, all Unicode classes, boundary integers, metadata duplicates, windows at limits under a frozen or ticking virtual clock, all key kinds. Non-trivial: the call's outcome was judged; distinct by the whole call sequence.";
const BOUND_RULE: &str = "random scenarios of 3-8 batches of 1-10 concurrent builds on clones of 1-3 bound-token keys against a fake metadata server and a TLS-terminating fake signBlob service, with virtual time jumps to the edges of token lifetimes, lifetimes of 0 s to 2^40 s, random reply delays and chunking, injected faults, cancellation at any poll, crowds that give up together, and account changes. Non-trivial: a judged call or signBlob request; distinct by the abstract situation (C15-C17) or by the signed bytes (others).";

const MODEL: &str = "the verifier is an independent implementation of the published GOOG4-RSA-SHA256 query-signing rules, not Google's server";
const CLOCK: &str = "virtual clock interposed on clock_gettime(CLOCK_REALTIME)";
const FAKE: &str = "fake metadata and signBlob services stand in for Google's";

const SPECS: &[Spec] = &[
    Spec { id: "C01", quick: 144_000, thorough: 1_500_000, net: true, rule: URL_RULE, assume: &[MODEL, CLOCK, FAKE] },
    Spec { id: "C02", quick: 144_000, thorough: 1_500_000, net: true, rule: URL_RULE, assume: &[MODEL, FAKE] },
    Spec { id: "C03", quick: 144_000, thorough: 1_500_000, net: true, rule: URL_RULE, assume: &[FAKE] },
    Spec { id: "C04", quick: 144_000, thorough: 1_500_000, net: true, rule: URL_RULE, assume: &[CLOCK, FAKE] },
    Spec { id: "C05", quick: 72_000, thorough: 700_000, net: true, rule: "the signed-URL workload, the form workload and bound-token scenarios in turn (45:45:10); non-trivial: a credential was judged; distinct by the whole request", assume: &[CLOCK, FAKE] },
    Spec { id: "C06", quick: 40_000, thorough: 500_000, net: false, rule: "a random request or form and 1-4 rewritings of it that mean the same (orders, header case and blanks, explicit defaults, wall clock); non-trivial: both were signed; distinct by the pair", assume: &[CLOCK] },
    Spec { id: "C07", quick: 48_000, thorough: 700_000, net: false, rule: "a random request or form and a change of one part of its meaning (names, delimiters moved between fields, header/query boundaries, window, region, account, key); non-trivial: both were signed; distinct by the pair", assume: &[CLOCK] },
    Spec { id: "C08", quick: 120_000, thorough: 1_000_000, net: true, rule: URL_RULE, assume: &[CLOCK, FAKE] },
    Spec { id: "C09", quick: 120_000, thorough: 1_200_000, net: true, rule: "extreme and hostile arguments, key material, JSON texts, sizes and service replies for every public function; non-trivial: the call ran to an outcome or a panic; distinct by the arguments", assume: &[FAKE, "overflow checks and debug assertions are compiled in"] },
    Spec { id: "C10", quick: 180_000, thorough: 1_800_000, net: true, rule: FORM_RULE, assume: &[CLOCK, FAKE] },
    Spec { id: "C11", quick: 144_000, thorough: 1_500_000, net: true, rule: FORM_RULE, assume: &[CLOCK, FAKE] },
    Spec { id: "C12", quick: 72_000, thorough: 700_000, net: true, rule: FORM_RULE, assume: &[CLOCK, FAKE] },
    Spec { id: "C13", quick: 96_000, thorough: 1_000_000, net: true, rule: FORM_RULE, assume: &[CLOCK, FAKE] },
    Spec { id: "C14", quick: 180_000, thorough: 1_800_000, net: false, rule: "generated service-account JSON texts: member orders, blanks, escape styles, extra and nested members, wrong types, truncations, mutations, other roots, from strings and files; non-trivial: loading was judged against an independent RFC 8259 reader; distinct by the bytes and the way of loading", assume: &["duplicate members and lone surrogates are left unspecified"] },
    Spec { id: "C15", quick: 8_000, thorough: 120_000, net: true, rule: BOUND_RULE, assume: &[CLOCK, FAKE] },
    Spec { id: "C16", quick: 8_000, thorough: 120_000, net: true, rule: BOUND_RULE, assume: &[CLOCK, FAKE] },
    Spec { id: "C17", quick: 8_000, thorough: 120_000, net: true, rule: BOUND_RULE, assume: &[CLOCK, FAKE] },
    Spec { id: "C18", quick: 6_400, thorough: 100_000, net: true, rule: BOUND_RULE, assume: &[CLOCK, FAKE] },
    Spec { id: "C19", quick: 16_000, thorough: 200_000, net: true, rule: "bound-token scenarios with canary tokens and calls with every kind of secret (PEM, DER, HMAC, JSON) that succeed or fail; non-trivial: an output, error text, debug text or wire request was scanned; distinct by the call", assume: &[FAKE, "secrets are searched verbatim and in hex, base64, percent and decimal-list form"] },
    Spec { id: "C20", quick: 2_560, thorough: 20_000, net: true, rule: "8-40 URL and form builds on shared service-account and bound-token keys, first one by one, then (or before) all at once on a multi-threaded runtime and further threads, with reply delays, aborts and cancellations; now and then 2-10 calls at once as the first of a fresh process; non-trivial: a concurrent result was compared with the sequential one; distinct by the order in which the calls finished", assume: &[FAKE] },
];

fn spec(id: &str) -> &'static Spec {
    SPECS.iter().find(|s| s.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

/// Local time zones of the workers: nothing the library returns depends on them.
const ZONES: &[&str] = &["UTC", "America/New_York", "XYZ-14", "Asia/Kolkata", "ABC+12", "Europe/London", "Asia/Tokyo", "America/St_Johns"];

fn make_env(id: &str, idx: u64, seed: u64, net: bool) -> Env {
    std::env::set_var("TZ", ZONES[idx as usize % ZONES.len()]);
    for v in ["REQUEST_METHOD", "http_proxy", "https_proxy", "no_proxy", "all_proxy", "ALL_PROXY", "GCE_METADATA_HOST"] {
        std::env::remove_var(v);
    }
    let hub = if net { Some(server::Hub::start(mix(seed ^ idx ^ 77))) } else { None };
    let port = hub.as_ref().map_or(1, |h| h.proxy_port);
    std::env::set_var("HTTPS_PROXY", format!("http://127.0.0.1:{port}"));
    std::env::set_var("HTTP_PROXY", format!("http://127.0.0.1:{port}"));
    std::env::set_var("NO_PROXY", "127.0.0.0/8");
    let scratch = std::env::temp_dir().join(format!("csigmon-{}-{}", std::process::id(), idx));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let mt = if id == "C20" {
        Some(tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().expect("runtime"))
    } else {
        None
    };
    Env {
        rt: tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime"),
        mt,
        dict: gen::Dict::harvest(&std::env::var_os("CSIGMON_REPO").map(PathBuf::from).unwrap_or_else(|| "/repo".into()).join("src")),
        scratch,
        hub,
        hang_s: 12.0,
        next_key: AtomicU32::new(0),
    }
}

fn run_case(env: &Env, case: u64, obs: &mut Obs) {
    obs.case = case;
    let mut r = Rng::new(case ^ 0x5151);
    let k = r.below(100);
    match obs.prop.as_str() {
        "C01" | "C02" | "C03" | "C04" => match k {
            0..=96 => urls::case(env, case, obs),
            _ => bound::case(env, case, obs),
        },
        "C05" => match k {
            0..=44 => urls::case(env, case, obs),
            45..=95 => forms::case(env, case, obs),
            _ => bound::case(env, case, obs),
        },
        "C06" | "C07" => meta::case(env, case, obs),
        "C08" => match k {
            0..=96 => urls::case(env, case, obs),
            _ => bound::case(env, case, obs),
        },
        "C09" => panics::case(env, case, obs),
        "C10" | "C11" => match k {
            0..=97 => forms::case(env, case, obs),
            _ => bound::case(env, case, obs),
        },
        "C12" | "C13" => match k {
            0..=95 => forms::case(env, case, obs),
            _ => bound::case(env, case, obs),
        },
        "C14" => json::case(env, case, obs),
        "C15" | "C16" | "C17" | "C18" => bound::case(env, case, obs),
        "C19" => match k {
            0..=39 => bound::case(env, case, obs),
            _ => secrets::case(env, case, obs),
        },
        "C20" => conc::case(env, case, obs),
        p => {
            eprintln!("no workload for {p}");
            std::process::exit(2)
        }
    }
}

fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix(mix(seed) ^ hash_bytes(id.as_bytes()) ^ mix(i.wrapping_mul(0x9E37_79B9)))
}

struct Done {
    evals: u64,
    ran: u64,
    capped: bool,
    hashes: Vec<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    viols: Vec<Viol>,
    broken: Vec<String>,
}

fn worker(id: &str, idx: u64, n: u64, seed: u64, count: u64, cap_s: f64, out: &Path) {
    hook();
    let s = spec(id);
    let env = make_env(id, idx, seed, s.net);
    let mut obs = Obs::new(id);
    let mark = std::fs::File::create(out.with_extension("case")).expect("mark");
    let t0 = clock::real_mono();
    let mut ran = 0;
    let mut capped = false;
    let mut broken: Vec<String> = vec![];
    let mut i = idx;
    while i < count {
        let case = case_seed(seed, id, i);
        std::os::unix::fs::FileExt::write_all_at(&mark, format!("{case:020}").as_bytes(), 0).expect("mark");
        let before = obs.viols.len();
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_case(&env, case, &mut obs)));
        ran += 1;
        if ok.is_err() {
            broken.push(format!("case {case}: the harness panicked: {}", last_panic()));
            if broken.len() > 20 {
                break;
            }
        }
        // a call that never ended is reported only if it never ends again
        if obs.viols.len() > before && obs.viols[before..].iter().all(|v| v.msg.starts_with("no outcome")) {
            let mut again = Obs::new(id);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_case(&env, case, &mut again)));
            if again.viols.is_empty() {
                obs.viols.truncate(before);
                obs.count("unconfirmed_hangs");
            }
        }
        if obs.viols.len() >= 5 || obs.viols.iter().any(|v| v.msg.starts_with("no outcome")) {
            break;
        }
        if clock::real_mono() - t0 > cap_s {
            capped = true;
            break;
        }
        i += n;
    }
    let _ = std::fs::remove_dir_all(&env.scratch);
    let j = serde_json::json!({
        "evals": obs.evals, "ran": ran, "capped": capped, "counters": obs.counters, "samples": obs.samples,
        "viols": obs.viols.iter().map(|v| (v.case, v.msg.clone())).collect::<Vec<_>>(), "broken": broken,
    });
    let mut b = Vec::with_capacity(obs.hashes.len() * 8);
    for h in &obs.hashes {
        b.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(out.with_extension("hash"), b).expect("hashes");
    std::fs::write(out, j.to_string()).expect("result");
    std::process::exit(0);
}

fn read_done(out: &Path) -> Option<Done> {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(out).ok()?).ok()?;
    let hashes = std::fs::read(out.with_extension("hash")).ok()?.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    Some(Done {
        evals: j["evals"].as_u64()?,
        ran: j["ran"].as_u64()?,
        capped: j["capped"].as_bool()?,
        hashes,
        counters: j["counters"].as_object()?.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0))).collect(),
        samples: j["samples"].as_array()?.iter().filter_map(|s| s.as_str().map(String::from)).collect(),
        viols: j["viols"].as_array()?.iter().map(|v| Viol { case: v[0].as_u64().unwrap_or(0), msg: v[1].as_str().unwrap_or("").to_string(), worker: 0 }).collect(),
        broken: j["broken"].as_array()?.iter().filter_map(|s| s.as_str().map(String::from)).collect(),
    })
}

/// Violations listed as known findings: lines "known: property=<id> match=<text the message must contain> | <what>".
fn known(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(verif().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={id} match=")))
        .filter_map(|l| l.split_once(" | "))
        .map(|(m, w)| (m.to_string(), w.to_string()))
        .collect()
}

fn check(id: &str) -> i32 {
    let s = spec(id);
    let seed = env_u64("VERIF_SEED", 1);
    let tier = if thorough() { "thorough" } else { "quick" };
    let n = env_u64("CSIGMON_WORKERS", 8);
    let count = env_u64("CSIGMON_COUNT", if thorough() { s.thorough } else { s.quick });
    let cap = env_u64("CSIGMON_CAP_S", if thorough() { 720 } else { 150 }) as f64;
    let t0 = clock::real_mono();
    let dir = std::env::temp_dir().join(format!("csigmon-run-{}-{id}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("run directory");
    let exe = std::env::current_exe().expect("exe");
    let mut kids = vec![];
    for w in 0..n {
        let out = dir.join(format!("w{w}.json"));
        let err = std::fs::File::create(out.with_extension("err")).expect("stderr");
        let k = std::process::Command::new(&exe)
            .args(["worker", id, &w.to_string(), &n.to_string(), &seed.to_string(), &count.to_string(), &cap.to_string()])
            .arg(&out)
            .stderr(err)
            .stdout(std::process::Stdio::null())
            .spawn()
            .expect("worker");
        kids.push((k, out, None::<std::process::ExitStatus>));
    }
    let limit = cap + 100.0;
    let mut hung = false;
    while kids.iter().any(|k| k.2.is_none()) {
        for k in kids.iter_mut() {
            if k.2.is_none() {
                if let Ok(Some(st)) = k.0.try_wait() {
                    k.2 = Some(st);
                } else if clock::real_mono() - t0 > limit {
                    hung = true;
                    let _ = k.0.kill();
                    k.2 = k.0.wait().ok();
                }
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
    let mut evals = 0;
    let mut ran = 0;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut viols: Vec<Viol> = vec![];
    let mut broken = vec![];
    let mut capped = 0u64;
    for (w, (_, out, st)) in kids.iter().enumerate() {
        match read_done(out) {
            Some(d) => {
                evals += d.evals;
                ran += d.ran;
                capped += u64::from(d.capped);
                hashes.extend(d.hashes);
                for (k, v) in d.counters {
                    *counters.entry(k).or_default() += v;
                }
                if samples.len() < 8 {
                    samples.extend(d.samples.into_iter().take(2));
                }
                viols.extend(d.viols.into_iter().map(|v| Viol { worker: w as u64, ..v }));
                broken.extend(d.broken);
            }
            None => {
                use std::os::unix::process::ExitStatusExt;
                let case = std::fs::read_to_string(out.with_extension("case")).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(0u64);
                let err = std::fs::read_to_string(out.with_extension("err")).unwrap_or_default();
                let tail: String = err.chars().rev().take(2000).collect::<Vec<_>>().into_iter().rev().collect();
                let what = match st.and_then(|s| s.signal()) {
                    Some(9) if hung => "did not come back from the library call (killed)".to_string(),
                    Some(9) => "was killed".to_string(),
                    Some(s) => format!("died of signal {s}"),
                    None => format!("ended with {st:?}"),
                };
                let m = format!("worker {what} in case {case}: {tail}");
                if (id == "C09" && !what.contains("was killed")) || (hung && matches!(id, "C17" | "C20")) {
                    viols.push(Viol { case, msg: m, worker: w as u64 });
                } else {
                    broken.push(m);
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let kf = known(id);
    let mut code = 0;
    let mut shown: HashSet<String> = HashSet::new();
    let mut first = true;
    let mut open = 0;
    for v in &viols {
        if let Some((_, w)) = kf.iter().find(|(m, _)| v.msg.contains(m.as_str())) {
            if shown.insert(w.clone()) {
                println!("KNOWN-FINDING: property={id} {w}");
            }
            continue;
        }
        open += 1;
        code = 1;
        if first {
            first = false;
            let rd = verif().join("replays");
            let _ = std::fs::create_dir_all(&rd);
            let path = rd.join(format!("{id}-{}.json", v.case));
            let j = serde_json::json!({"property": id, "case": v.case, "worker": v.worker, "seed": seed, "tier": tier, "message": v.msg,
                "rerun": format!("{} replay {}", exe.display(), path.display())});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
            println!("{}", v.msg.chars().take(3000).collect::<String>());
            println!("VIOLATION property={id} replay={}", path.display());
        }
    }
    for b in &broken {
        println!("ERROR {}", b.chars().take(1500).collect::<String>());
    }
    // a handful of cases the harness itself could not set up are reported and left out; more, or a lost worker, is no answer
    let lost = broken.iter().filter(|b| !b.starts_with("case ")).count();
    if code == 0 && (lost > 0 || broken.len() as u64 * 2000 > ran || evals == 0) {
        code = 2;
    }
    let mut cov = serde_json::json!({
        "evaluations": evals, "distinct_nontrivial": hashes.len(), "rule": s.rule, "samples": samples,
        "cases_run": ran, "cases_left_out": broken.len(), "workers": n, "workers_stopped_by_time": capped,
    });
    for (k, v) in &counters {
        cov[format!("observed_{k}")] = (*v).into();
    }
    let wall = clock::real_mono() - t0;
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": s.assume, "wall_s": (wall * 100.0).round() / 100.0, "violations": open,
    });
    let _ = std::fs::create_dir_all(verif().join("evidence"));
    std::fs::write(verif().join(format!("evidence/{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    println!("{id} {tier} seed {seed}: {ran} cases, {evals} judged, {} distinct, {open} violations, {wall:.1} s", hashes.len());
    if std::env::var_os("CSIGMON_VERBOSE").is_some() {
        println!("{counters:#?}");
    }
    code
}

fn replay(path: &str) -> i32 {
    hook();
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let id = j["property"].as_str().expect("property").to_string();
    let case = j["case"].as_u64().expect("case");
    let s = spec(&id);
    let env = make_env(&id, j["worker"].as_u64().unwrap_or(0), j["seed"].as_u64().unwrap_or(1), s.net);
    let mut obs = Obs::new(&id);
    obs.replay = true;
    run_case(&env, case, &mut obs);
    let _ = std::fs::remove_dir_all(&env.scratch);
    for v in &obs.viols {
        println!("{}", v.msg);
    }
    println!("{id} case {case}: {} judged, {} violations", obs.evals, obs.viols.len());
    if !obs.viols.is_empty() {
        println!("VIOLATION property={id} replay={path}");
    }
    i32::from(!obs.viols.is_empty())
}

/// The concurrent workload under a sanitizer; prints what it observed as one JSON line.
fn stress(secs: f64, seed: u64) -> i32 {
    hook();
    let env = make_env("C20", 0, seed, true);
    let mut obs = Obs::new("C20");
    let t0 = clock::real_mono();
    conc::cold(&env, seed);
    let mut i = 0;
    while clock::real_mono() - t0 < secs {
        run_case(&env, case_seed(seed, "C21", i), &mut obs);
        i += 1;
    }
    let _ = std::fs::remove_dir_all(&env.scratch);
    for v in obs.viols.iter().take(3) {
        eprintln!("result differs: {}", v.msg);
    }
    println!("STRESS {}", serde_json::json!({"cases": i, "evaluations": obs.evals, "distinct": obs.hashes.len(), "counters": obs.counters, "samples": obs.samples.iter().take(2).collect::<Vec<_>>()}));
    0
}

/// The first calls of this process, all at once.
fn cold(seed: u64) -> i32 {
    hook();
    let env = make_env("cold", seed % 8, seed, false);
    let (n, diffs) = conc::cold(&env, seed);
    let _ = std::fs::remove_dir_all(&env.scratch);
    println!("STRESS {}", serde_json::json!({"cases": 1, "evaluations": n, "distinct": 1, "counters": {"cold_calls": n}, "samples": []}));
    println!("COLD {n}");
    for d in diffs {
        println!("DIFF {d}");
    }
    0
}

/// Every kind of workload in turn, for the address sanitizer: only its reports and broken strings count.
fn mix_all(secs: f64, seed: u64) -> i32 {
    hook();
    let env = make_env("C20", 1, seed, true);
    let t0 = clock::real_mono();
    let kinds = ["C18", "C01", "C10", "C20", "C06", "C09", "C15", "C07", "C14", "C19", "C18", "C09"];
    let mut per: BTreeMap<&str, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut evals = 0;
    let mut i = 0u64;
    while clock::real_mono() - t0 < secs {
        let id = kinds[(i % kinds.len() as u64) as usize];
        let mut obs = Obs::new(id);
        let n = if matches!(id, "C15" | "C18" | "C20") { 1 } else { 10 };
        for k in 0..n {
            // a harness panic says nothing here: verdicts that need the virtual clock are off in this build
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_case(&env, case_seed(seed, "C21", i * 16 + k), &mut obs)));
        }
        *per.entry(id).or_default() += n;
        evals += obs.evals;
        distinct.extend(obs.hashes.iter().map(|h| mix(*h ^ hash_bytes(id.as_bytes()))));
        i += 1;
    }
    let _ = std::fs::remove_dir_all(&env.scratch);
    println!("STRESS {}", serde_json::json!({"cases": per.values().sum::<u64>(), "evaluations": evals, "distinct": distinct.len(), "counters": per, "samples": [format!("{per:?}")]}));
    if obs::BROKEN_STRINGS.load(SeqCst) > 0 {
        return 3;
    }
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let code = match arg(1) {
        "check" => check(arg(2)),
        "worker" => {
            worker(arg(2), arg(3).parse().unwrap(), arg(4).parse().unwrap(), arg(5).parse().unwrap(), arg(6).parse().unwrap(), arg(7).parse().unwrap(), Path::new(arg(8)));
            0
        }
        "replay" => replay(arg(2)),
        "stress" => stress(arg(2).parse().unwrap_or(10.0), arg(3).parse().unwrap_or(1)),
        "cold" => cold(arg(2).parse().unwrap_or(1)),
        "mix" => mix_all(arg(2).parse().unwrap_or(10.0), arg(3).parse().unwrap_or(1)),
        _ => {
            eprintln!("usage: csigmon check <property> | replay <file> | stress <seconds> [seed]");
            2
        }
    };
    std::process::exit(code);
}
