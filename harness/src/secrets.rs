//! C19 without bound tokens: every kind of secret through succeeding and failing calls; outputs, error chains, debug
//! texts and anything on the wire are searched for it.
use crate::bound::{output_texts, start_job, Job, Res};
use crate::forms;
use crate::gen::Gen;
use crate::keys::*;
use crate::model::*;
use crate::obs::Obs;
use crate::rng::{hash_bytes, mix};
use crate::server::Ev;
use crate::urls::{self, run};
use crate::{clock, Env};
use cloud_storage_signature::SigningKey;

const N: usize = 16;

/// Byte strings that give the secret away when any 16 consecutive bytes of them show up.
pub fn of_pem(pem: &str) -> Vec<Vec<u8>> {
    let body: String = pem.lines().filter(|l| !l.starts_with('-')).collect();
    // the leading bytes of every RSA key are the same
    let skip = if body.len() > 400 { 48 } else { 24 };
    let mut v: Vec<Vec<u8>> = pem.lines().filter(|l| !l.starts_with('-')).map(|l| l.as_bytes().to_vec()).collect();
    v[0] = v[0][skip.min(v[0].len())..].to_vec();
    v.push(body.as_bytes()[skip..].to_vec());
    let d = der_of(pem);
    v.push(d[skip..].to_vec());
    v.retain(|x| x.len() >= N);
    v
}

/// The text itself and what it holds in percent, hex, base64 and decimal-list form.
fn views(t: &str) -> Vec<Vec<u8>> {
    let mut out = vec![t.as_bytes().to_vec()];
    if let Ok(d) = pct_decode(t) {
        out.push(d);
    }
    let b = t.as_bytes();
    let mut push_run = |run: &[u8]| {
        if run.len() >= 2 * N && run.iter().all(|c| c.is_ascii_hexdigit()) {
            for o in 0..2 {
                let h: Vec<u8> = run[o..].chunks_exact(2).filter_map(|p| u8::from_str_radix(std::str::from_utf8(p).ok()?, 16).ok()).collect();
                out.push(h);
            }
        }
        if run.len() >= N {
            for o in 0..4.min(run.len()) {
                let r = &run[o..];
                let r: String = r[..r.len() / 4 * 4].iter().map(|c| match c {
                    b'-' => '+',
                    b'_' => '/',
                    c => *c as char,
                }).collect();
                if let Ok(d) = unb64(&r) {
                    out.push(d);
                }
            }
        }
    };
    let mut i = 0;
    while i < b.len() {
        let ok = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'+' | b'/' | b'-' | b'_');
        if ok(b[i]) {
            let j = (i..b.len()).find(|j| !ok(b[*j])).unwrap_or(b.len());
            push_run(&b[i..j]);
            i = j;
        } else {
            i += 1;
        }
    }
    let nums: Vec<u8> = t.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).filter_map(|s| s.parse().ok()).collect();
    if nums.len() >= N {
        out.push(nums);
    }
    out
}

pub fn exposed(text: &str, secrets: &[Vec<u8>]) -> Option<String> {
    if text.len() < N {
        return None;
    }
    let windows: std::collections::HashSet<&[u8]> = secrets.iter().flat_map(|s| s.chunks_exact(N)).collect();
    for v in views(text) {
        // any 2N-1 consecutive secret bytes hold one aligned window
        for w in v.windows(N) {
            if windows.contains(w) {
                return Some(String::from_utf8_lossy(w).into_owned());
            }
        }
    }
    None
}

struct MaybeDebug<'a, T>(&'a T);
trait NoDebug {
    fn text(&self) -> Option<String> {
        None
    }
}
impl<T> NoDebug for MaybeDebug<'_, T> {}
impl<T: std::fmt::Debug> MaybeDebug<'_, T> {
    fn text(&self) -> Option<String> {
        Some(format!("{:?}\n{:#?}", self.0, self.0))
    }
}

trait NoDisplay {
    fn shown(&self) -> Option<String> {
        None
    }
}
impl<T> NoDisplay for MaybeDebug<'_, T> {}
impl<T: std::fmt::Display> MaybeDebug<'_, T> {
    fn shown(&self) -> Option<String> {
        Some(format!("{}", self.0))
    }
}

/// Debug and display texts of the public types that hold a key, where they have any.
pub fn debug_texts(key: &SigningKey, g: &mut Gen) -> Vec<String> {
    let mut v = vec![];
    v.extend(MaybeDebug(key).text());
    v.extend(MaybeDebug(key).shown());
    let r = urls::valid(g);
    let o = r.options(key.clone(), false);
    v.extend(MaybeDebug(&o).text());
    let f = forms::gen(g, 100);
    if let Some((_, o)) = &f.signing {
        let p = forms::options(o, key.clone(), false);
        v.extend(MaybeDebug(&p).text());
    }
    let b = f.builder(key, false);
    v.extend(MaybeDebug(&b).text());
    v
}

pub fn case(env: &Env, seed: u64, obs: &mut Obs) {
    let mut g = Gen::new(seed, &env.dict);
    clock::set_tick(0);
    let hub = env.hub.as_ref().expect("hub");
    hub.reset();
    let email = g.email();
    let hmac: String = (0..40).map(|_| *g.r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/") as char).collect();
    let fix = g.r.usize(FIX.len());
    let (pem, what): (&str, String) = match g.r.below(10) {
        0 => (PKCS1, "PKCS#1 key".into()),
        1 => (EC, "EC key".into()),
        2 => (ED25519, "Ed25519 key".into()),
        3 => (RSA1024, "RSA-1024 key".into()),
        _ => (FIX[fix].pem, FIX[fix].name.into()),
    };
    let mut texts: Vec<String> = vec![];
    let mut secrets = of_pem(pem);
    let kind;
    if g.r.pct(30) {
        // loading
        let full = sa_json(&email, pem);
        let key_json = serde_json::Value::from(pem).to_string();
        let (k, t) = match g.r.below(13) {
            0 => ("no client_email", format!("{{\"private_key\":{key_json}}}")),
            1 => ("client_email null", format!("{{\"client_email\":null,\"private_key\":{key_json}}}")),
            2 => ("client_email a number", format!("{{\"private_key\":{key_json},\"client_email\":1}}")),
            3 => ("truncated", {
                let n = g.r.usize(full.len());
                full[..(0..=n).rev().find(|i| full.is_char_boundary(*i)).unwrap_or(0)].to_string()
            }),
            4 => ("trailing text", format!("{full} x")),
            5 => ("in an array", format!("[{full}]")),
            6 => ("a string", key_json),
            7 => ("the PEM itself", pem.to_string()),
            8 => ("private_key in an array", format!("{{\"client_email\":\"a\",\"private_key\":[{key_json}]}}")),
            9 => ("private_key as bytes", format!("{{\"client_email\":\"a\",\"private_key\":{:?}}}", pem.as_bytes())),
            10 => ("raw newlines", format!("{{\"client_email\":\"a\",\"private_key\":\"{pem}\"}}")),
            11 => ("key as a member name", format!("{{\"client_email\":\"a\",{key_json}:1}}")),
            _ => ("well-formed", full),
        };
        kind = format!("loading JSON: {k}, {what}");
        let by_file = g.r.pct(40);
        let r = if by_file {
            let p = env.scratch.join("s.json");
            let mut b = t.into_bytes();
            if g.r.pct(15) {
                b.push(0xff);
            }
            std::fs::write(&p, b).expect("scratch");
            SigningKey::service_account_from_path(&p)
        } else {
            SigningKey::service_account_from_str(&t)
        };
        match r {
            Err(e) => {
                obs.count("loading_errors_scanned");
                texts.push(crate::bound::err_texts(&e).1);
            }
            Ok(k) => texts.extend(debug_texts(&k, &mut g)),
        }
    } else {
        let key = match g.r.below(10) {
            0 | 1 => {
                secrets = vec![hmac.clone().into_bytes()];
                SigningKey::hmac("GOOG1EXAMPLE".into(), hmac)
            }
            2 => {
                // a well-formed key in a form the loader may refuse
                let t = match g.r.below(5) {
                    0 => pem.replace('\n', ""),
                    1 => pem.replace('\n', "\\n"),
                    2 => pem.replacen("-----END", "----END", 1),
                    3 => pem.lines().filter(|l| !l.starts_with('-')).collect::<String>(),
                    _ => pem.replace("PRIVATE KEY", "CERTIFICATE"),
                };
                SigningKey::service_account(email.clone(), t)
            }
            _ => load_sa(g.r.next(), &email, pem, &env.scratch),
        };
        let dbg = debug_texts(&key, &mut g);
        obs.add("debug_texts_scanned", dbg.len() as u64);
        texts.extend(dbg);
        let job = if g.r.pct(50) {
            let mut r = urls::valid(&mut g);
            r.tick = 0;
            if g.r.pct(30) {
                urls::spoil(&mut g, &mut r);
            }
            clock::freeze(r.clock.div_euclid(urls::NS) as i64, 0);
            Job::Url(r)
        } else {
            let mut f = forms::gen(&mut g, 95);
            f.tick = 0;
            if g.r.pct(30) {
                forms::spoil(&mut g, &mut f);
            }
            clock::freeze(f.clock.div_euclid(urls::NS) as i64, 0);
            Job::Form(f)
        };
        let blob = g.r.pct(20);
        let res = match &job {
            // the builder holds the options already: build it inside the guard too
            _ => run(env, async { start_job(&job, key, blob).await }),
        };
        let res = res.unwrap_or_else(Res::Panic);
        kind = format!("{what} signBlob {blob}: {}", match &res {
            Res::Url(_) => "URL".to_string(),
            Res::Form(_) => "form".to_string(),
            Res::Err(e, _) => format!("error {e}"),
            r => format!("{r:?}"),
        });
        obs.count(match &res {
            Res::Url(_) | Res::Form(_) => "secret_outputs_scanned",
            Res::Err(..) => "secret_errors_scanned",
            _ => "other_outcomes",
        });
        if let Res::Panic(m) = &res {
            texts.push(m.clone());
        }
        texts.extend(output_texts(&res));
    }
    for (_, _, e) in hub.log() {
        match e {
            Ev::Recv { head, body, .. } => texts.push(format!("{head}{}", String::from_utf8_lossy(&body))),
            Ev::Other { what, raw } => texts.push(format!("{what}{}", String::from_utf8_lossy(&raw))),
            _ => {}
        }
    }
    if !texts.is_empty() {
        obs.eval("C19", mix(seed ^ hash_bytes(kind.as_bytes())), || format!("{kind}; {} texts scanned", texts.len()));
    }
    for t in &texts {
        if let Some(w) = exposed(t, &secrets) {
            obs.viol("C19", format!("[{kind}] secret fragment {w:?} in {:?}", t.chars().take(3000).collect::<String>()));
        }
    }
}
