//! Form workload: random setter sequences against a field model; monitors for C05 and C10-C13.
use crate::gen::Gen;
use crate::keys::{load_sa, FIX};
use crate::model::*;
use crate::obs::Obs;
use crate::rng::{hash_bytes, mix};
use crate::urls::{run, st, MAX_SECS, NS};
use crate::{clock, Env};
use cloud_storage_signature::{HtmlFormData, HtmlFormDataBuilder, PolicyDocumentSigningOptions, SigningKey};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Acl(String),
    Bucket(String),
    CacheControl(String),
    ContentDisposition(String),
    ContentEncoding(String),
    ContentLength(u64),
    ContentType(String),
    Expires(String),
    Key(String),
    Redirect(String),
    Status(u16),
    CustomTime(String),
    Meta(String, String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Opt {
    pub start: Option<i128>,
    pub expiration: i128,
    pub region: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Form {
    pub ops: Vec<Op>,
    /// position of the signing options among the setters, and the options
    pub signing: Option<(usize, Opt)>,
    /// signing options set so many setters earlier, which the later ones replace; and their kind of key
    pub decoy: Option<(usize, u64, Opt)>,
    pub email: String,
    pub fix: usize,
    pub clock: i128,
    pub tick: i64,
}

pub fn apply(b: HtmlFormDataBuilder, op: &Op) -> HtmlFormDataBuilder {
    match op.clone() {
        Op::Acl(v) => b.acl(v),
        Op::Bucket(v) => b.bucket(v),
        Op::CacheControl(v) => b.cache_control(v),
        Op::ContentDisposition(v) => b.content_disposition(v),
        Op::ContentEncoding(v) => b.content_encoding(v),
        Op::ContentLength(v) => b.content_length(v),
        Op::ContentType(v) => b.content_type(v),
        Op::Expires(v) => b.expires(v),
        Op::Key(v) => b.key(v),
        Op::Redirect(v) => b.success_action_redirect(v),
        Op::Status(v) => b.success_action_status(v),
        Op::CustomTime(v) => b.x_goog_custom_time(v),
        Op::Meta(n, v) => b.x_goog_meta(n, v),
    }
}

pub fn options(o: &Opt, key: SigningKey, blob: bool) -> PolicyDocumentSigningOptions {
    PolicyDocumentSigningOptions {
        accessible_at: o.start.map(|s| st(s).expect("start")),
        expiration: st(o.expiration).expect("expiration"),
        region: o.region.clone(),
        signing_key: key,
        use_sign_blob: blob,
    }
}

impl Form {
    pub fn builder(&self, key: &SigningKey, blob: bool) -> HtmlFormDataBuilder {
        let mut b = HtmlFormData::builder();
        for i in 0..=self.ops.len() {
            if let Some((at, o)) = &self.signing {
                if let Some((gap, how, d)) = &self.decoy {
                    if at.saturating_sub(*gap) == i {
                        let (k, x) = match how {
                            0 => (key.clone(), blob),
                            1 => (SigningKey::hmac("GOOG1EXAMPLE".into(), "bGoa+V7g/yqDXvKRqq+JTFn4uQZbPiQJo4pf9RzJ".into()), blob),
                            2 => (SigningKey::service_account(self.email.clone(), FIX[1 - self.fix.min(1)].pem.to_string()), blob),
                            _ => (SigningKey::service_account("decoy@p.iam.gserviceaccount.com".into(), FIX[self.fix].pem.to_string()), !blob),
                        };
                        b = b.policy_document_signing_options(options(d, k, x));
                    }
                }
                if *at == i {
                    b = b.policy_document_signing_options(options(o, key.clone(), blob));
                }
            }
            if let Some(op) = self.ops.get(i) {
                b = apply(b, op);
            }
        }
        b
    }
    pub fn describe(&self) -> String {
        format!("{self:?} key={}", FIX[self.fix].name)
    }
    pub fn hash(&self) -> u64 {
        mix(hash_bytes(format!("{self:?}").as_bytes()))
    }
    pub fn last<'a>(&'a self, f: impl Fn(&'a Op) -> Option<String>) -> Option<String> {
        self.ops.iter().filter_map(f).last()
    }
    /// Singleton fields the ops leave behind, then the metadata pairs in order.
    pub fn fields(&self) -> (Vec<(String, String)>, Vec<(String, String)>) {
        let mut m: std::collections::BTreeMap<&str, String> = Default::default();
        let mut meta = vec![];
        for op in &self.ops {
            match op {
                Op::Acl(v) => drop(m.insert("acl", v.clone())),
                Op::Bucket(v) => drop(m.insert("bucket", v.clone())),
                Op::CacheControl(v) => drop(m.insert("Cache-Control", v.clone())),
                Op::ContentDisposition(v) => drop(m.insert("Content-Disposition", v.clone())),
                Op::ContentEncoding(v) => drop(m.insert("Content-Encoding", v.clone())),
                Op::ContentLength(v) => drop(m.insert("Content-Length", v.to_string())),
                Op::ContentType(v) => drop(m.insert("Content-Type", v.clone())),
                Op::Expires(v) => drop(m.insert("Expires", v.clone())),
                Op::Key(v) => drop(m.insert("key", v.clone())),
                Op::Redirect(v) => drop(m.insert("success_action_redirect", v.clone())),
                Op::Status(v) => drop(m.insert("success_action_status", v.to_string())),
                Op::CustomTime(v) => drop(m.insert("x-goog-custom-time", v.clone())),
                Op::Meta(n, v) => meta.push((format!("x-goog-meta-{n}"), v.clone())),
            }
        }
        (m.into_iter().map(|(k, v)| (k.to_string(), v)).collect(), meta)
    }
    pub fn buildable(&self) -> bool {
        let has = |f: fn(&Op) -> bool| self.ops.iter().any(f);
        if !has(|o| matches!(o, Op::Key(_))) {
            return false;
        }
        if has(|o| matches!(o, Op::Meta(n, _) if n.is_empty())) {
            return false;
        }
        if let Some((_, o)) = &self.signing {
            if !has(|o| matches!(o, Op::Bucket(_))) {
                return false;
            }
            let s = o.start.unwrap_or(self.clock);
            let inrange = |t: i128| t >= 0 && t.div_euclid(NS) <= i128::from(MAX_SECS);
            if o.expiration <= s || !inrange(s) || !inrange(o.expiration) {
                return false;
            }
        }
        true
    }
}

pub type Fields = Vec<(String, String)>;

pub enum FOut {
    Ok(Fields),
    Err(String),
    Panic(String),
}

pub fn build(env: &Env, f: &Form, key: &SigningKey, blob: bool) -> (FOut, i128, i128) {
    clock::freeze(f.clock.div_euclid(NS) as i64, f.clock.rem_euclid(NS) as u32);
    let b = f.builder(key, blob);
    clock::set_tick(f.tick);
    let t0 = clock::now_ns();
    let r = run(env, b.build());
    let t1 = clock::now_ns();
    clock::set_tick(0);
    let o = match r {
        Ok(Ok(v)) => {
            let v = v.into_vec();
            for (k, x) in &v {
                crate::obs::check_str(k);
                crate::obs::check_str(x);
            }
            FOut::Ok(v)
        }
        Ok(Err(e)) => FOut::Err(e.to_string()),
        Err(p) => FOut::Panic(p),
    };
    (o, t0, t1)
}

pub const SIGNED: [&str; 5] = ["policy", "x-goog-algorithm", "x-goog-credential", "x-goog-date", "x-goog-signature"];

pub fn get<'a>(v: &'a Fields, n: &str) -> Result<&'a str, String> {
    let x: Vec<_> = v.iter().filter(|(k, _)| k == n).collect();
    match x.as_slice() {
        [(_, s)] => Ok(s),
        [] => Err(format!("field {n} is missing")),
        _ => Err(format!("field {n} occurs {} times", x.len())),
    }
}

/// C10: exactly the set fields, plus the five when signing.
pub fn check_fields(f: &Form, v: &Fields) -> Result<(), String> {
    let (single, meta) = f.fields();
    let got_meta: Vec<_> = v.iter().filter(|(k, _)| k.starts_with("x-goog-meta-")).cloned().collect();
    if got_meta != meta {
        return Err(format!("metadata fields {got_meta:?}, set {meta:?}"));
    }
    let mut rest: Vec<_> = v.iter().filter(|(k, _)| !k.starts_with("x-goog-meta-")).cloned().collect();
    if f.signing.is_some() {
        for n in SIGNED {
            get(v, n)?;
        }
        rest.retain(|(k, _)| !SIGNED.contains(&k.as_str()));
    }
    rest.sort();
    if rest != single {
        return Err(format!("fields {rest:?}, set {single:?}"));
    }
    Ok(())
}

/// C11: the policy requires exactly the form.
pub fn check_policy(f: &Form, v: &Fields) -> Result<(), String> {
    let o = &f.signing.as_ref().unwrap().1;
    let policy = get(v, "policy")?;
    let text = String::from_utf8(unb64(policy)?).map_err(|_| "policy is not UTF-8")?;
    let J::Obj(m) = JsonParser::parse(&text).map_err(|e| format!("policy JSON: {e}: {text}"))? else {
        return Err(format!("policy is no object: {text}"));
    };
    let mut names: Vec<_> = m.iter().map(|x| x.0.as_str()).collect();
    names.sort_unstable();
    if names != ["conditions", "expiration"] {
        return Err(format!("policy members {names:?}"));
    }
    let exp = match &m.iter().find(|x| x.0 == "expiration").unwrap().1 {
        J::Str(s) => s.clone(),
        x => return Err(format!("expiration {x:?}")),
    };
    let want_exp = o.expiration.div_euclid(NS) as i64;
    if parse_rfc3339(&exp) != Some(want_exp) {
        return Err(format!("policy expiration {exp:?}, requested second {want_exp} ({})", basic_datetime(want_exp)));
    }
    let J::Arr(conds) = &m.iter().find(|x| x.0 == "conditions").unwrap().1 else {
        return Err("conditions is no array".into());
    };
    let mut got: Vec<String> = vec![];
    for c in conds {
        got.push(match c {
            J::Arr(a) => match a.as_slice() {
                [J::Str(op), J::Str(name), J::Str(val)] if op == "eq" && name.starts_with('$') => format!("eq {:?} {val:?}", &name[1..]),
                [J::Str(op), J::Num(lo), J::Num(hi)] if op == "content-length-range" => format!("range {lo} {hi}"),
                _ => return Err(format!("condition {c:?}")),
            },
            J::Obj(o) => match o.as_slice() {
                [(k, J::Str(v))] => format!("eq {k:?} {v:?}"),
                _ => return Err(format!("condition {c:?}")),
            },
            _ => return Err(format!("condition {c:?}")),
        });
    }
    let mut want: Vec<String> = v
        .iter()
        .filter(|(k, _)| k != "policy" && k != "x-goog-signature")
        .map(|(k, val)| if k == "Content-Length" { format!("range {val} {val}") } else { format!("eq {k:?} {val:?}") })
        .collect();
    got.sort();
    want.sort();
    if got != want {
        let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
        let missing: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
        return Err(format!("conditions and form disagree: only in the policy {extra:?}, not in the policy {missing:?}, counts {} and {}", got.len(), want.len()));
    }
    Ok(())
}

/// C12
pub fn check_signature(v: &Fields, public: &[u8], bits: usize) -> Result<(), String> {
    let sig = unhex_lower(get(v, "x-goog-signature")?)?;
    if sig.len() * 8 != bits {
        return Err(format!("signature of {} bytes under a {bits}-bit key", sig.len()));
    }
    if !rsa_verify(public, get(v, "policy")?.as_bytes(), &sig) {
        return Err("x-goog-signature does not verify over the policy field".into());
    }
    Ok(())
}

/// C05 on forms
pub fn check_credential(f: &Form, v: &Fields) -> Result<(), String> {
    let o = &f.signing.as_ref().unwrap().1;
    if get(v, "x-goog-algorithm")? != "GOOG4-RSA-SHA256" {
        return Err(format!("algorithm {}", get(v, "x-goog-algorithm")?));
    }
    let date = get(v, "x-goog-date")?;
    let want = format!("{}/{}/{}/storage/goog4_request", f.email, date.get(..8).unwrap_or(""), o.region.as_deref().unwrap_or("auto"));
    let got = get(v, "x-goog-credential")?;
    if got != want {
        return Err(format!("credential {got:?}, expected {want:?}"));
    }
    Ok(())
}

pub fn check_date(f: &Form, v: &Fields, t0: i128, t1: i128) -> Result<(), String> {
    let o = &f.signing.as_ref().unwrap().1;
    let d = get(v, "x-goog-date")?;
    let s = i128::from(crate::urls::parse_basic(d).ok_or_else(|| format!("x-goog-date {d:?}"))?);
    let (lo, hi) = match o.start {
        Some(s) => (s, s),
        None => (t0, t1),
    };
    if s < lo.div_euclid(NS) || s > hi.div_euclid(NS) {
        return Err(format!("x-goog-date {d} is second {s}, the start was {lo}..={hi} ns"));
    }
    if s * NS >= o.expiration {
        return Err(format!("x-goog-date {d} is not before the expiration {} ns", o.expiration));
    }
    Ok(())
}

/// Judges one built, signed form for C05, C10, C11, C12 and C13.
pub fn judge(obs: &mut Obs, f: &Form, v: &Fields, public: &[u8], bits: usize, t0: i128, t1: i128) {
    let d = || format!("{}\nfields={v:?}", f.describe());
    let p = obs.prop.clone();
    let r = match p.as_str() {
        "C10" => check_fields(f, v),
        "C05" if f.signing.is_some() => check_credential(f, v),
        "C11" if f.signing.is_some() => check_policy(f, v),
        "C12" if f.signing.is_some() => check_signature(v, public, bits),
        "C13" if f.signing.is_some() => check_date(f, v, t0, t1),
        _ => return,
    };
    obs.eval(&p, f.hash(), d);
    if let Err(e) = r {
        obs.viol(&p, format!("{e}\n{}", d()));
    }
}

fn value(g: &mut Gen) -> String {
    match g.r.below(8) {
        0 => g.dict(),
        _ => g.text(),
    }
}

pub fn op(g: &mut Gen, kind: u64) -> Op {
    match kind {
        0 => Op::Acl(if g.r.pct(50) { g.r.pick(&["public-read", "private", "bucket-owner-read", "project-private"]).to_string() } else { value(g) }),
        1 => Op::Bucket(g.bucket()),
        2 => Op::CacheControl(if g.r.pct(30) { format!("public, max-age={}", g.r.usize(100_000)) } else { value(g) }),
        3 => Op::ContentDisposition(if g.r.pct(30) { format!("attachment; filename=\"{}.txt\"", g.word()) } else { value(g) }),
        4 => Op::ContentEncoding(if g.r.pct(30) { "gzip".into() } else { value(g) }),
        5 => Op::ContentLength(g.u64()),
        6 => Op::ContentType(if g.r.pct(30) { "text/plain; charset=utf-8".into() } else { value(g) }),
        7 => Op::Expires(if g.r.pct(30) { "Wed, 21 Oct 2015 07:28:00 GMT".into() } else { value(g) }),
        8 => Op::Key(if g.r.pct(20) { format!("{}/${{filename}}", g.word()) } else { g.object() }),
        9 => Op::Redirect(if g.r.pct(50) { format!("https://example.com/{}?a=1&b={}", g.word(), g.r.usize(10)) } else { value(g) }),
        10 => Op::Status(if g.r.pct(60) { *g.r.pick(&[200, 201, 204]) } else { let top = *g.r.pick(&[65_536, 1000, 101, 12]); g.r.below(top) as u16 }),
        11 => Op::CustomTime(if g.r.pct(40) { "2022-01-03T00:00:00Z".into() } else { value(g) }),
        _ => {
            let n = match g.r.below(6) {
                0 => g.word(),
                1 => g.r.pick(&["a", "A", "reviewer", "project-manager", "x-goog-meta-a", "-", " ", "policy", "é", "$a", "a.b"]).to_string(),
                2 => "dup".into(),
                3 => g.dict(),
                _ => g.text(),
            };
            let n = if n.is_empty() { "m".to_string() } else { n };
            Op::Meta(n, value(g))
        }
    }
}

pub fn gen(g: &mut Gen, sign_pct: u64) -> Form {
    let mut ops = vec![];
    let n = match g.r.below(6) {
        0 => 0,
        1..=3 => g.r.usize(6),
        4 => g.r.usize(14),
        _ => g.r.usize(30),
    };
    for _ in 0..n {
        let k = match g.r.below(4) {
            0 => 12,
            _ => g.r.below(13),
        };
        ops.push(op(g, k));
    }
    for k in [1, 8] {
        let at = g.r.usize(ops.len() + 1);
        let o = op(g, k);
        ops.insert(at, o);
    }
    if g.r.pct(8) {
        // every field at once
        for k in 0..13 {
            let at = g.r.usize(ops.len() + 1);
            let o = op(g, k);
            ops.insert(at, o);
        }
    }
    let clock = i128::from(g.instant().min(MAX_SECS - 700_000)) * NS + i128::from(g.nanos());
    let mut tick = 0;
    let signing = if g.r.pct(sign_pct) {
        let start = if g.r.pct(60) { Some(i128::from(g.instant()) * NS + i128::from(g.nanos())) } else { None };
        let s = start.unwrap_or(clock);
        if start.is_none() && g.r.pct(50) {
            tick = *g.r.pick(&[1i64, 400_000_000, 999_999_999, 1_000_000_000]);
        }
        let life = match g.r.below(6) {
            0 => i128::from(g.r.range(60, 604_800)) * NS,
            1 => i128::from(g.r.range(60, 86_400 * 400)) * NS,
            2 if tick == 0 => 1,
            3 if tick == 0 => NS - 1,
            _ => i128::from(g.r.range(60, 7200)) * NS + i128::from(g.nanos()),
        };
        let e = (s + life).min(i128::from(MAX_SECS) * NS + NS - 1);
        Some((g.r.usize(ops.len() + 1), Opt { start, expiration: e, region: g.region() }))
    } else {
        None
    };
    let fix = match g.r.below(100) {
        0..=69 => 0,
        70..=94 => 1,
        95..=97 => 2,
        98 => 3,
        _ => 4,
    };
    let decoy = match &signing {
        Some((_, o)) if g.r.pct(10) => {
            let mut d = o.clone();
            match g.r.below(4) {
                0 => d.region = g.region(),
                1 => d.expiration = (d.expiration + i128::from(g.r.range(-100, 100_000)) * NS).clamp(0, i128::from(MAX_SECS) * NS),
                2 => d.start = if d.start.is_some() { None } else { Some(i128::from(g.instant()) * NS) },
                _ => {}
            }
            Some((g.r.usize(4), g.r.below(4), d))
        }
        _ => None,
    };
    Form { ops, signing, decoy, email: g.email(), fix, clock, tick }
}

pub fn spoil(g: &mut Gen, f: &mut Form) {
    match g.r.below(6) {
        0 => f.ops.retain(|o| !matches!(o, Op::Key(_))),
        1 => f.ops.retain(|o| !matches!(o, Op::Bucket(_))),
        2 => {
            let at = g.r.usize(f.ops.len() + 1);
            f.ops.insert(at, Op::Meta(String::new(), "v".into()));
        }
        3 => {
            f.tick = 0;
            if let Some((_, o)) = &mut f.signing {
                let s = o.start.unwrap_or(f.clock);
                o.expiration = match g.r.below(3) {
                    0 => s + *g.r.pick(&[0i128, -1, -NS, 1, NS, -NS / 2, NS - 1, -86_400 * NS, -86_400 * 365 * NS]),
                    1 => s - g.magnitude(33) * NS + i128::from(g.nanos()),
                    _ => s + g.seconds() * NS + i128::from(g.nanos()),
                };
            }
        }
        4 => {
            f.tick = 0;
            if let Some((_, o)) = &mut f.signing {
                let s = *g.r.pick(&[-1i128, -NS, -86_400 * NS, i128::from(MAX_SECS) * NS, i128::from(MAX_SECS) * NS - 1, i128::from(MAX_SECS + 1) * NS, -62_167_219_200 * NS, 0]);
                let s = match g.r.below(4) {
                    0 => -g.magnitude(40) * NS + i128::from(g.nanos()),
                    1 => (i128::from(MAX_SECS) + g.magnitude(40)) * NS + i128::from(g.nanos()),
                    _ => s,
                };
                o.start = Some(s);
                o.expiration = s + *g.r.pick(&[1i128, NS - 1, NS, 3600 * NS, 604_800 * NS, 86_400 * 365 * NS]);
            }
        }
        _ => {
            f.tick = 0;
            if let Some((_, o)) = &mut f.signing {
                o.expiration = if g.r.pct(30) { (i128::from(MAX_SECS) + g.magnitude(40)) * NS } else { *g.r.pick(&[i128::from(MAX_SECS) * NS + NS - 1, i128::from(MAX_SECS + 1) * NS, i128::from(MAX_SECS) * NS, i128::from(i64::MAX) * NS, -1, 0, 1]) };
            }
        }
    }
    if let Some((at, _)) = &mut f.signing {
        *at = (*at).min(f.ops.len());
    }
}

/// The same fields by another order of setter calls: calls to the same setter and metadata calls keep their order.
pub fn reorder(g: &mut Gen, f: &Form) -> Form {
    let kind = |o: &Op| std::mem::discriminant(o);
    let mut idx: Vec<usize> = (0..f.ops.len()).collect();
    g.r.shuffle(&mut idx);
    // stable within a kind: hand out the ops of each kind in their original order
    let mut used = vec![false; f.ops.len()];
    let mut ops = vec![];
    for i in idx {
        let k = kind(&f.ops[i]);
        let j = (0..f.ops.len()).find(|j| !used[*j] && kind(&f.ops[*j]) == k).unwrap();
        used[j] = true;
        ops.push(f.ops[j].clone());
    }
    let mut h = f.clone();
    h.signing = f.signing.clone().map(|(_, o)| (g.r.usize(ops.len() + 1), o));
    h.ops = ops;
    h
}

pub fn case(env: &Env, seed: u64, obs: &mut Obs) {
    let mut g = Gen::new(seed, &env.dict);
    let p = obs.prop.clone();
    let mut f = gen(&mut g, if p == "C10" { 50 } else { 95 });
    if g.r.below(1000) < 3 {
        // as large as forms get
        obs.count("large_forms");
        match g.r.below(3) {
            0 => {
                for i in 0..1000 + g.r.usize(2000) {
                    let o = Op::Meta(format!("m{}", i % 1500), g.word());
                    f.ops.push(o);
                }
            }
            1 => f.ops.push(Op::Key(g.r.pick(&["a", "é", "\"", "\\", "\u{1}", "/"]).repeat(60_000 + g.r.usize(90_000)))),
            _ => {
                for k in 0..13 {
                    let big = g.r.pick(&["a", "é", "\"", "\\", "$", " "]).repeat(8_000 + g.r.usize(10_000));
                    f.ops.push(match op(&mut g, k) {
                        Op::Meta(n, _) => Op::Meta(n, big),
                        Op::CacheControl(_) => Op::CacheControl(big),
                        Op::ContentDisposition(_) => Op::ContentDisposition(big),
                        Op::Redirect(_) => Op::Redirect(big),
                        o => o,
                    });
                }
            }
        }
    }
    if g.r.pct(if p == "C13" { 50 } else { 4 }) {
        spoil(&mut g, &mut f);
    }
    let mut blob = false;
    let mut key_ok = true;
    let mut keyname = "service account";
    let key = if p == "C13" && g.r.pct(15) {
        key_ok = false;
        match g.r.below(6) {
            0 => {
                keyname = "hmac";
                blob = g.r.pct(50);
                SigningKey::hmac(g.word(), g.word())
            }
            1 | 2 => {
                keyname = "service account with signBlob";
                blob = true;
                SigningKey::service_account(f.email.clone(), FIX[f.fix].pem.to_string())
            }
            3 => {
                keyname = "ec";
                SigningKey::service_account(f.email.clone(), crate::keys::EC.to_string())
            }
            4 => {
                keyname = "pkcs1";
                SigningKey::service_account(f.email.clone(), crate::keys::PKCS1.to_string())
            }
            _ => {
                keyname = "text";
                SigningKey::service_account(f.email.clone(), g.text())
            }
        }
    } else if g.r.pct(20) && f.email.len() < 200 {
        let (email, fix, key) = crate::keys::kept(g.r.next(), &f.email, f.fix, &env.scratch);
        (f.email, f.fix) = (email, fix);
        obs.count("signed_with_a_kept_key");
        key
    } else {
        load_sa(g.r.next(), &f.email, FIX[f.fix].pem, &env.scratch)
    };
    attempt(env, obs, &mut g, &f, &key, key_ok, keyname, blob);
    if !key_ok || !g.r.pct(15) {
        return;
    }
    // build again, close to the first form: nothing of it may show in the later ones
    for _ in 0..1 + g.r.usize(2) {
        let mut n = f.clone();
        match g.r.below(10) {
            0..=2 => n.fix = if f.fix == 0 { 1 } else { 0 },
            3 => n.email = format!("{}x", f.email),
            4 => {
                n.tick = 0;
                let d = *g.r.pick(&[NS, -NS, 1, -1, 60 * NS, 86_400 * NS, 365 * 86_400 * NS]);
                let d = if n.signing.as_ref().is_some_and(|(_, o)| st(o.expiration + d).is_none()) { 0 } else { d };
                n.clock = (n.clock + d).max(0);
                if let Some((_, o)) = &mut n.signing {
                    o.start = o.start.map(|s| s + d);
                    o.expiration += d;
                }
            }
            5 => {
                if let Some((_, o)) = &mut n.signing {
                    o.region = g.region();
                }
            }
            6..=8 => {
                let k = g.r.below(13);
                let o = op(&mut g, k);
                let at = g.r.usize(n.ops.len() + 1);
                n.ops.insert(at, o);
            }
            _ => {}
        }
        let k = if n.email == f.email && n.fix == f.fix && g.r.pct(50) { key.clone() } else { load_sa(g.r.next(), &n.email, FIX[n.fix].pem, &env.scratch) };
        obs.count("built_again");
        attempt(env, obs, &mut g, &n, &k, true, "service account", false);
    }
}

/// One build, watched.
#[allow(clippy::too_many_arguments)]
fn attempt(env: &Env, obs: &mut Obs, g: &mut Gen, f: &Form, key: &SigningKey, key_ok: bool, keyname: &str, blob: bool) {
    let p = obs.prop.clone();
    let (out, t0, t1) = build(env, f, key, blob);
    match &out {
        FOut::Ok(_) => obs.count("built"),
        FOut::Err(_) => obs.count("refused"),
        FOut::Panic(_) => obs.count("panicked"),
    }
    let want = f.buildable() && (key_ok || f.signing.is_none());
    if p == "C13" {
        obs.eval("C13", f.hash() ^ hash_bytes(keyname.as_bytes()), || format!("{} [{keyname}] expected {}", f.describe(), if want { "built" } else { "refused" }));
        match (&out, want) {
            (FOut::Ok(_), true) | (FOut::Err(_), false) => {}
            (FOut::Ok(v), false) => obs.viol("C13", format!("built a form it must refuse [{keyname}, signBlob {blob}]: {v:?}\n{}", f.describe())),
            (FOut::Err(e), true) => obs.viol("C13", format!("refused a valid form: {e}\n{}", f.describe())),
            (FOut::Panic(m), w) => obs.viol("C13", format!("panicked instead of {} [{keyname}, signBlob {blob}]: {m}\n{}", if w { "building" } else { "refusing" }, f.describe())),
        }
    }
    if let FOut::Ok(v) = &out {
        if !want {
            return;
        }
        judge(obs, f, v, FIX[f.fix].public, FIX[f.fix].bits, t0, t1);
        if p == "C12" && f.signing.is_some() && get(v, "x-goog-signature").is_err() {
            obs.viol("C12", format!("signing was requested, no signature\n{}", f.describe()));
        }
        if p == "C10" && f.tick == 0 && f.decoy.is_some() {
            // signing options that later ones replaced leave nothing behind
            let mut h = f.clone();
            h.decoy = None;
            let (o2, _, _) = build(env, &h, key, blob);
            obs.count("options_replaced");
            match o2 {
                FOut::Ok(w) if w == *v => {}
                FOut::Ok(w) => obs.viol("C10", format!("signing options that were replaced change the form: {v:?} against {w:?}\n{}", f.describe())),
                FOut::Err(e) | FOut::Panic(e) => obs.viol("C10", format!("signing options that were replaced change the outcome: {e}\n{}", f.describe())),
            }
        }
        if p == "C10" && f.tick == 0 {
            // same fields, other order of calls
            let h = reorder(g, f);
            let (o2, _, _) = build(env, &h, key, blob);
            obs.count("reordered");
            match o2 {
                FOut::Ok(w) if w == *v => {}
                FOut::Ok(w) => obs.viol("C10", format!("setter order changes the form: {v:?} against {w:?}\n{}\n{}", f.describe(), h.describe())),
                FOut::Err(e) | FOut::Panic(e) => obs.viol("C10", format!("setter order changes the outcome: {e}\n{}\n{}", f.describe(), h.describe())),
            }
        }
    }
}
