//! Metamorphic workload: C06 (equivalent requests, identical outputs) and C07 (different requests, different
//! signatures).
use crate::forms::{self, FOut, Form};
use crate::gen::Gen;
use crate::keys::{load_sa, FIX};
use crate::model::*;
use crate::obs::Obs;
use crate::rng::{hash_bytes, mix};
use crate::urls::{self, Out, Req, NS};
use crate::{clock, Env};

/// A request equivalent to r.
fn equivalent(g: &mut Gen, r: &Req) -> (Req, String) {
    let mut e = r.clone();
    let mut what = vec![];
    if g.r.pct(60) {
        g.r.shuffle(&mut e.query);
        what.push("query order");
    }
    if g.r.pct(60) {
        // permute headers, values of the same name keep their order
        let mut idx: Vec<usize> = (0..e.headers.len()).collect();
        g.r.shuffle(&mut idx);
        let names: Vec<String> = idx.iter().map(|i| r.headers[*i].0.to_ascii_lowercase()).collect();
        let mut used = vec![false; r.headers.len()];
        e.headers = names
            .iter()
            .map(|n| {
                let j = (0..r.headers.len()).find(|j| !used[*j] && r.headers[*j].0.to_ascii_lowercase() == *n).unwrap();
                used[j] = true;
                r.headers[j].clone()
            })
            .collect();
        what.push("header order");
    }
    if g.r.pct(60) {
        for h in e.headers.iter_mut() {
            h.0 = g.recase(&h.0);
        }
        what.push("header case");
    }
    if g.r.pct(60) {
        for h in e.headers.iter_mut() {
            let blank = |g: &mut Gen| g.r.pick(&["", " ", "  ", "\t", " \t "]).to_string();
            let (a, b) = (blank(g), blank(g));
            h.1 = format!("{a}{}{b}", h.1);
            if g.r.pct(50) {
                h.1 = h.1.replace(' ', g.r.pick(&["  ", " ", " \t", "\t"]));
            }
        }
        what.push("header blanks");
    }
    match e.region.as_deref() {
        None if g.r.pct(50) => {
            e.region = Some("auto".into());
            what.push("explicit default region");
        }
        Some("auto") if g.r.pct(50) => {
            e.region = None;
            what.push("omitted default region");
        }
        _ => {}
    }
    if e.start.is_some() && g.r.pct(50) {
        e.clock = i128::from(g.instant()) * NS;
        what.push("other wall clock");
    }
    if e.start.is_none() && g.r.pct(40) {
        // writing "now" out explicitly
        e.start = Some(e.clock);
        what.push("explicit start");
    } else if e.start.is_some() && g.r.pct(20) {
        e.clock = e.start.unwrap();
        e.start = None;
        what.push("implicit start");
    }
    (e, what.join(", "))
}

fn c06_url(env: &Env, g: &mut Gen, obs: &mut Obs) {
    let mut reqs: Vec<Req> = vec![];
    let mut base = urls::valid(g);
    base.tick = 0;
    reqs.push(base.clone());
    // neighbours differing in one part, signed in between: they must not leave traces
    for _ in 0..g.r.usize(3) {
        let mut n = differ(g, &base).0;
        n.tick = 0;
        reqs.push(n);
    }
    let key = load_sa(g.r.next(), &base.email, FIX[base.fix].pem, &env.scratch);
    let mut firsts: Vec<Option<String>> = vec![];
    for r in &reqs {
        let k = if r.email == base.email && r.fix == base.fix { key.clone() } else { load_sa(0, &r.email, FIX[r.fix].pem, &env.scratch) };
        firsts.push(match urls::sign(env, r, k, false).0 {
            Out::Ok(u) => Some(u),
            _ => None,
        });
    }
    let rounds = 1 + g.r.usize(3);
    for _ in 0..rounds {
        let i = g.r.usize(reqs.len());
        let Some(first) = &firsts[i] else { continue };
        let (e, what) = equivalent(g, &reqs[i]);
        let how = g.r.next();
        let k = if e.email == base.email && e.fix == base.fix && g.r.pct(50) { key.clone() } else { load_sa(how, &e.email, FIX[e.fix].pem, &env.scratch) };
        let (o, _, _) = urls::sign(env, &e, k, false);
        obs.eval("C06", mix(e.hash()), || format!("[{what}] {}", e.describe()));
        match o {
            Out::Ok(u) if u == *first => {}
            Out::Ok(u) => obs.viol("C06", format!("equivalent requests ({what}) differ:\n{first}\n{u}\n{}\n{}", reqs[i].describe(), e.describe())),
            Out::Err(x) | Out::Panic(x) => obs.viol("C06", format!("equivalent request ({what}) fails: {x}\n{}\n{}", reqs[i].describe(), e.describe())),
        }
    }
}

fn c06_form(env: &Env, g: &mut Gen, obs: &mut Obs) {
    let mut f = forms::gen(g, 100);
    f.tick = 0;
    let key = load_sa(g.r.next(), &f.email, FIX[f.fix].pem, &env.scratch);
    let (FOut::Ok(first), _, _) = forms::build(env, &f, &key, false) else {
        obs.count("form_not_built");
        return;
    };
    let mut other = forms::gen(g, 100);
    other.tick = 0;
    let _ = forms::build(env, &other, &key, false);
    for _ in 0..1 + g.r.usize(2) {
        let mut e: Form = if g.r.pct(60) { forms::reorder(g, &f) } else { f.clone() };
        let o = &mut e.signing.as_mut().unwrap().1;
        if o.region.is_none() && g.r.pct(50) {
            o.region = Some("auto".into());
        } else if o.region.as_deref() == Some("auto") {
            o.region = None;
        }
        if o.start.is_none() && g.r.pct(50) {
            o.start = Some(e.clock);
        } else if o.start.is_some() && g.r.pct(50) {
            e.clock = i128::from(g.instant()) * NS;
        }
        let k = if g.r.pct(50) { key.clone() } else { load_sa(g.r.next(), &e.email, FIX[e.fix].pem, &env.scratch) };
        let (o2, _, _) = forms::build(env, &e, &k, false);
        obs.eval("C06", e.hash(), || e.describe());
        match o2 {
            FOut::Ok(v) if v == first => {}
            FOut::Ok(v) => obs.viol("C06", format!("equivalent forms differ:\n{first:?}\n{v:?}\n{}\n{}", f.describe(), e.describe())),
            FOut::Err(x) | FOut::Panic(x) => obs.viol("C06", format!("equivalent form fails: {x}\n{}\n{}", f.describe(), e.describe())),
        }
    }
}

/// What a request means, normalised: requests with equal meaning may share a signature, others must not.
fn meaning(r: &Req) -> String {
    let start = r.start.unwrap_or(r.clock);
    let mut q = r.query.clone();
    q.sort();
    format!(
        "{:?}",
        (
            &r.method,
            &r.bucket,
            &r.object,
            r.region.as_deref().unwrap_or("auto"),
            &r.email,
            r.fix,
            start.div_euclid(NS),
            (r.end - start) / NS,
            q,
            canonical_headers(&r.headers),
        )
    )
}

/// Moves a character over the boundary between two neighbouring texts.
fn shift(g: &mut Gen, a: &mut String, b: &mut String, sep: &str) {
    if g.r.pct(50) {
        if let Some(c) = a.pop() {
            b.insert(0, c);
            return;
        }
    }
    if !b.is_empty() {
        let c = b.remove(0);
        a.push(c);
    } else {
        a.push_str(sep);
    }
}

fn tweak(g: &mut Gen, s: &str) -> String {
    let chars: Vec<char> = s.chars().collect();
    match g.r.below(9) {
        0 => format!("{s}{}", g.r.pick(&["a", "/", "%", " ", "0", "=", "&", "+", ".", "é", "\n"])),
        1 => format!("{}{s}", g.r.pick(&["a", "/", "%", " ", "0"])),
        2 => s.to_uppercase(),
        3 => s.to_lowercase(),
        4 => String::from_utf8_lossy(&pct_decode(s).unwrap_or_else(|_| s.bytes().rev().collect())).into_owned(),
        5 => pct_encode(s.as_bytes()),
        6 if !chars.is_empty() => {
            let i = g.r.usize(chars.len());
            chars.iter().enumerate().filter(|(j, _)| *j != i).map(|x| *x.1).collect()
        }
        7 if chars.len() > 1 => {
            let i = g.r.usize(chars.len() - 1);
            let mut c = chars.clone();
            c.swap(i, i + 1);
            c.into_iter().collect()
        }
        _ => s.replace(' ', "+").replace('/', "//"),
    }
}

/// A request differing from r in one part (usually), and which.
pub fn differ(g: &mut Gen, r: &Req) -> (Req, &'static str) {
    let mut e = r.clone();
    let what = match g.r.below(17) {
        0 => {
            e.method = g.method();
            "method"
        }
        1 => {
            e.bucket = tweak(g, &r.bucket);
            "bucket"
        }
        2 => {
            e.object = tweak(g, &r.object);
            "object"
        }
        3 => {
            // bucket/object boundary
            if g.r.pct(50) {
                let joined = format!("{}/{}", r.bucket, r.object);
                let cuts: Vec<usize> = joined.match_indices('/').map(|x| x.0).collect();
                let c = *g.r.pick(&cuts);
                e.bucket = joined[..c].into();
                e.object = joined[c + 1..].into();
            } else {
                shift(g, &mut e.bucket, &mut e.object, "/");
            }
            "bucket/object boundary"
        }
        4 => {
            e.region = Some(tweak(g, r.region.as_deref().unwrap_or("auto")).replace('/', "-"));
            "region"
        }
        5 => {
            e.email = tweak(g, &r.email).replace('/', "-");
            "account"
        }
        6 => {
            let d = *g.r.pick(&[1i128, -1, 60, -60, 3600, 86_400, -86_400, 365 * 86_400]) * NS;
            let s = r.start.unwrap_or(r.clock) + d;
            if s >= 0 && s.div_euclid(NS) <= i128::from(urls::MAX_SECS) {
                e.start = Some(s);
                e.end = r.end + d;
            }
            "start"
        }
        7 => {
            e.start = Some(r.start.unwrap_or(r.clock));
            e.end = r.end + *g.r.pick(&[1i128, -1, 2, 60, -60, 3600]) * NS;
            let s = e.start.unwrap();
            if e.end < s || (e.end - s) / NS > 604_800 {
                e.end = s + 7 * NS;
            }
            "lifetime"
        }
        8 | 9 if !e.query.is_empty() => {
            let i = g.r.usize(e.query.len());
            match g.r.below(6) {
                0 => {
                    e.query.remove(i);
                }
                1 => {
                    let x = e.query[i].clone();
                    e.query.push(x);
                }
                2 => e.query[i].0 = tweak(g, &r.query[i].0),
                3 => e.query[i].1 = tweak(g, &r.query[i].1),
                4 => {
                    let (mut a, mut b) = e.query[i].clone();
                    shift(g, &mut a, &mut b, "=");
                    e.query[i] = (a, b);
                }
                _ => {
                    let (a, b) = e.query[i].clone();
                    e.query[i] = (b, a);
                }
            }
            "query parameter"
        }
        10 if !e.query.is_empty() => {
            // one parameter against two that print alike
            let i = g.r.usize(e.query.len());
            let (n, v) = e.query.remove(i);
            let w = g.word();
            let mut r2 = r.clone();
            r2.query[i] = (n.clone(), format!("{v}&{w}="));
            e.query.push((n, v));
            e.query.push((w, String::new()));
            "query splitting"
        }
        11 => {
            e.query.push((g.query_name(), g.query_value()));
            "added query parameter"
        }
        12 | 13 if !e.headers.is_empty() => {
            let i = g.r.usize(e.headers.len());
            match g.r.below(5) {
                0 => {
                    e.headers.remove(i);
                }
                1 => {
                    let x = e.headers[i].clone();
                    e.headers.push(x);
                }
                2 => {
                    let t = tweak(g, &r.headers[i].1);
                    e.headers[i].1 = t.chars().filter(|c| (' '..='~').contains(c)).collect();
                }
                3 => e.headers[i].0 = format!("{}a", r.headers[i].0),
                _ => {
                    // move the end of one value to the front of another
                    let j = g.r.usize(e.headers.len());
                    if i != j {
                        let (mut a, mut b) = (e.headers[i].1.clone(), e.headers[j].1.clone());
                        shift(g, &mut a, &mut b, "x");
                        e.headers[i].1 = a;
                        e.headers[j].1 = b;
                    }
                }
            }
            "header"
        }
        14 if e.headers.len() > 1 => {
            // order of repeated values
            let i = g.r.usize(e.headers.len());
            let n = e.headers[i].0.clone();
            e.headers.push((n, "zz".into()));
            let l = e.headers.len() - 1;
            e.headers.swap(i, l);
            "order of repeated header values"
        }
        15 => {
            let n = g.header_name();
            let v = g.header_value();
            e.headers.push((n, v));
            "added header"
        }
        _ => {
            e.query.push(("x-goog-meta-a".into(), "1".into()));
            e.headers.push(("x-goog-meta-a".into(), "1".into()));
            "query and header"
        }
    };
    (e, what)
}

fn signature_of(url: &str) -> Option<String> {
    parse_url(url).ok()?.get("X-Goog-Signature").ok()
}

fn c07_url(env: &Env, g: &mut Gen, obs: &mut Obs) {
    let mut a = urls::valid(g);
    a.tick = 0;
    a.region = a.region.map(|r| r.replace('/', "-"));
    a.email = a.email.replace('/', "-");
    if a.dot_segments() {
        a.object = g.word();
        a.bucket = g.word();
    }
    let mut all: Vec<(Req, &str, String)> = vec![];
    let Out::Ok(u) = urls::sign(env, &a, load_sa(0, &a.email, FIX[a.fix].pem, &env.scratch), false).0 else {
        obs.count("base_not_signed");
        return;
    };
    let Some(s) = signature_of(&u) else { return };
    all.push((a.clone(), "base", s));
    for _ in 0..3 {
        let (b, what) = differ(g, &a);
        if b.query.iter().any(|(k, _)| crate::gen::is_reserved_param(k)) {
            continue;
        }
        let Out::Ok(u) = urls::sign(env, &b, load_sa(0, &b.email, FIX[b.fix].pem, &env.scratch), false).0 else {
            obs.count("variant_refused");
            continue;
        };
        let Some(s) = signature_of(&u) else { continue };
        for (c, cw, cs) in &all {
            if meaning(c) == meaning(&b) || c.fix != b.fix {
                obs.count("same_meaning");
                continue;
            }
            obs.eval("C07", mix(b.hash() ^ hash_bytes(cs.as_bytes())), || format!("[{what}] {}", b.describe()));
            obs.count(&format!("differs_in: {what}"));
            if *cs == s {
                obs.viol("C07", format!("requests that differ ({what} / {cw}) carry the same signature {s}\n{}\n{}", c.describe(), b.describe()));
            }
        }
        all.push((b, what, s));
    }
}

fn c07_form(env: &Env, g: &mut Gen, obs: &mut Obs) {
    let mut a = forms::gen(g, 100);
    a.tick = 0;
    // a metadata name given more than once
    let twice = g.r.pct(30);
    if twice {
        let n = a.ops.iter().find_map(|o| if let forms::Op::Meta(n, _) = o { Some(n.clone()) } else { None }).unwrap_or_else(|| g.word());
        for _ in 0..1 + g.r.usize(3) {
            let v = g.text();
            let at = g.r.usize(a.ops.len() + 1);
            a.ops.insert(at, forms::Op::Meta(n.clone(), v));
        }
    }
    let key = load_sa(0, &a.email, FIX[a.fix].pem, &env.scratch);
    let (FOut::Ok(va), _, _) = forms::build(env, &a, &key, false) else { return };
    let sig = |v: &forms::Fields| forms::get(v, "x-goog-signature").map(str::to_string).ok();
    let rest = |v: &forms::Fields| v.iter().filter(|(k, _)| k != "x-goog-signature" && k != "policy").cloned().collect::<Vec<_>>();
    for _ in 0..2 {
        let mut b = a.clone();
        let metas: Vec<usize> = b.ops.iter().enumerate().filter(|o| matches!(o.1, forms::Op::Meta(..))).map(|o| o.0).collect();
        match g.r.below(5) {
            _ if twice && g.r.pct(60) && !metas.is_empty() => {
                let i = *g.r.pick(&metas);
                let j = *g.r.pick(&metas);
                match g.r.below(3) {
                    0 => b.ops.swap(i, j),
                    1 => drop(b.ops.remove(i)),
                    _ => {
                        if let forms::Op::Meta(_, v) = &mut b.ops[i] {
                            *v = tweak(g, v);
                        }
                    }
                }
            }
            0 if !b.ops.is_empty() => {
                let i = g.r.usize(b.ops.len());
                b.ops.remove(i);
            }
            1 => {
                let k = g.r.below(13);
                let o = forms::op(g, k);
                b.ops.push(o);
            }
            2 if !b.ops.is_empty() => {
                let i = g.r.usize(b.ops.len());
                b.ops[i] = match b.ops[i].clone() {
                    forms::Op::Acl(v) => forms::Op::Acl(tweak(g, &v)),
                    forms::Op::Bucket(v) => forms::Op::Bucket(tweak(g, &v)),
                    forms::Op::CacheControl(v) => forms::Op::CacheControl(tweak(g, &v)),
                    forms::Op::ContentDisposition(v) => forms::Op::ContentDisposition(tweak(g, &v)),
                    forms::Op::ContentEncoding(v) => forms::Op::ContentEncoding(tweak(g, &v)),
                    forms::Op::ContentLength(v) => forms::Op::ContentLength(v ^ (1 << g.r.below(64))),
                    forms::Op::ContentType(v) => forms::Op::ContentType(tweak(g, &v)),
                    forms::Op::Expires(v) => forms::Op::Expires(tweak(g, &v)),
                    forms::Op::Key(v) => forms::Op::Key(tweak(g, &v)),
                    forms::Op::Redirect(v) => forms::Op::Redirect(tweak(g, &v)),
                    forms::Op::Status(v) => forms::Op::Status(v ^ (1 << g.r.below(16))),
                    forms::Op::CustomTime(v) => forms::Op::CustomTime(tweak(g, &v)),
                    forms::Op::Meta(n, v) => {
                        let (mut n, mut v) = (n, v);
                        if g.r.pct(50) {
                            shift(g, &mut n, &mut v, "a");
                        } else {
                            v = tweak(g, &v);
                        }
                        forms::Op::Meta(n, v)
                    }
                };
            }
            3 => {
                let o = &mut b.signing.as_mut().unwrap().1;
                o.region = Some(tweak(g, o.region.as_deref().unwrap_or("auto")));
            }
            _ => {
                let o = &mut b.signing.as_mut().unwrap().1;
                let s = o.start.unwrap_or(b.clock);
                o.start = Some((s - NS * i128::from(g.r.range(1, 90_000))).max(0));
            }
        }
        let l = b.ops.len();
        let at = &mut b.signing.as_mut().unwrap().0;
        *at = (*at).min(l);
        let (FOut::Ok(vb), _, _) = forms::build(env, &b, &key, false) else {
            obs.count("variant_refused");
            continue;
        };
        if rest(&va) == rest(&vb) {
            obs.count("same_meaning");
            continue;
        }
        obs.eval("C07", mix(b.hash()), || format!("form {}", b.describe()));
        obs.count("differs_in: form fields");
        if sig(&va).is_some() && sig(&va) == sig(&vb) {
            obs.viol("C07", format!("forms that differ carry the same signature:\n{va:?}\n{vb:?}"));
        }
    }
}

pub fn case(env: &Env, seed: u64, obs: &mut Obs) {
    let mut g = Gen::new(seed, &env.dict);
    clock::set_tick(0);
    let form = g.r.pct(25);
    match (obs.prop.as_str(), form) {
        ("C06", false) => c06_url(env, &mut g, obs),
        ("C06", true) => c06_form(env, &mut g, obs),
        (_, false) => c07_url(env, &mut g, obs),
        (_, true) => c07_form(env, &mut g, obs),
    }
}
