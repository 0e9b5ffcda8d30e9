//! C14: service-account JSON loading against an accept/extract model.
use crate::forms::{self, FOut};
use crate::gen::Gen;
use crate::keys::FIX;
use crate::model::*;
use crate::obs::Obs;
use crate::rng::hash_bytes;
use crate::urls::{self, Out};
use crate::Env;
use cloud_storage_signature::SigningKey;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Some(Some((email, key))): must load; Some(None): must fail; None: unspecified.
pub fn model(text: &str) -> Option<Option<(String, String)>> {
    match JsonParser::parse_info(text) {
        Err(e) if e == "too deep" => None,
        // a text wrong in one way may hit a parser limit first, either way it is refused
        Err(_) => Some(None),
        Ok((_, depth, odd)) if depth > 100 || odd => None,
        Ok((J::Obj(m), _, _)) => {
            let mut seen = std::collections::HashSet::new();
            if !m.iter().all(|(k, _)| seen.insert(k.clone())) {
                return None;
            }
            let s = |n: &str| match m.iter().find(|(k, _)| k == n) {
                Some((_, J::Str(s))) => Some(s.clone()),
                _ => None,
            };
            Some(s("client_email").zip(s("private_key")))
        }
        Ok(_) => Some(None),
    }
}

fn ws(g: &mut Gen) -> String {
    if g.r.pct(60) {
        return String::new();
    }
    let n = 1 + g.r.usize(3);
    (0..n).map(|_| *g.r.pick(&[' ', '\n', '\t', '\r'])).collect()
}

fn jstr(g: &mut Gen, s: &str) -> String {
    let style = g.r.below(3);
    let mut r = g.r.clone();
    g.r.next();
    json_string(s, move || match style {
        0 => 2,
        1 => r.next(),
        _ => r.next() % 16,
    })
}

fn any_value(g: &mut Gen, depth: usize) -> String {
    // a member that would do as a key file by itself
    if depth < 3 && g.r.pct(4) {
        let (e, k) = (g.email(), FIX[g.r.usize(2)].pem);
        let mut m = vec![("client_email", jstr(g, &e)), ("private_key", jstr(g, k))];
        if g.r.pct(40) {
            m.push(("type", "\"service_account\"".into()));
        }
        g.r.shuffle(&mut m);
        let o = m.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",");
        return if g.r.pct(10) { jstr(g, &format!("{{{o}}}")) } else { format!("{{{o}}}") };
    }
    match g.r.below(if depth > 3 { 5 } else { 8 }) {
        0 => "null".into(),
        1 => g.r.pick(&["true", "false"]).to_string(),
        2 if g.r.pct(40) => g
            .r
            .pick(&[
                "0", "-0", "1.5", "-0.0", "1E10", "0.1e-5", "2e+3", "18446744073709551615", "18446744073709551616", "-9223372036854775809",
                "123456789012345678901234567890", "1.7e299", "5e-324", "1e-400", "0e999", "3.14159265358979323846264338327950288", "1e400", "-1E+999999999999",
            ])
            .to_string(),
        2 if g.r.pct(2) => g.r.pick(&["01", "1.", ".5", "+1", "NaN", "Infinity", "0x1", "1e", "-", "1_000", "--1", "1e+", "00"]).to_string(),
        2 => g.r.range(-1_000_000, 1_000_000).to_string(),
        3 | 4 => {
            let t = g.text_short();
            jstr(g, &t)
        }
        5 => {
            let n = g.r.usize(4);
            let v: Vec<String> = (0..n).map(|_| any_value(g, depth + 1)).collect();
            format!("[{}]", v.join(","))
        }
        _ => {
            let n = g.r.usize(4);
            let v: Vec<String> = (0..n)
                .map(|i| {
                    let k = if g.r.pct(30) { "client_email".to_string() } else if g.r.pct(30) { "private_key".into() } else { format!("{}{i}", g.word()) };
                    format!("{}:{}", jstr(g, &format!("{k}{}", if i == 0 { String::new() } else { i.to_string() })), any_value(g, depth + 1))
                })
                .collect();
            format!("{{{}}}", v.join(","))
        }
    }
}

fn text_of(g: &mut Gen, email: &str, pem: &str) -> String {
    let mut m: Vec<(String, String)> = vec![("client_email".into(), jstr(g, email)), ("private_key".into(), jstr(g, pem))];
    let extra = g.r.usize(6);
    for i in 0..extra {
        let k = match g.r.below(4) {
            0 => g.r.pick(&["type", "project_id", "private_key_id", "client_id", "auth_uri", "token_uri", "universe_domain", "Client_email", "client_email ", "CLIENT_EMAIL", "privateKey", "private_key2", "email", "clientEmail", ""]).to_string(),
            1 => g.text_short(),
            _ => g.word(),
        };
        let k = if m.iter().any(|(x, _)| *x == k) { format!("{k}{i}") } else { k };
        m.push((k, any_value(g, 0)));
    }
    g.r.shuffle(&mut m);
    // sometimes break a member
    match g.r.below(14) {
        0 => m.retain(|x| x.0 != "client_email"),
        1 => m.retain(|x| x.0 != "private_key"),
        2 => {
            let n = *g.r.pick(&["client_email", "private_key"]);
            let v = match g.r.below(6) {
                0 => "null".into(),
                1 => "1".into(),
                2 => "true".into(),
                3 => format!("[{}]", jstr(g, "a")),
                4 => "{}".into(),
                _ => any_value(g, 0),
            };
            m.iter_mut().find(|x| x.0 == n).unwrap().1 = v;
        }
        3 => {
            let n = *g.r.pick(&["client_email", "private_key"]);
            let x = m.iter_mut().find(|x| x.0 == n).unwrap();
            x.0 = g.r.pick(&["Client_Email", "client-email", "clientEmail", "private-key", "privateKey", "client_email\0", " client_email"]).to_string();
        }
        _ => {}
    }
    let mut s = String::new();
    s.push_str(&ws(g));
    s.push('{');
    for (i, (k, v)) in m.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&ws(g));
        s.push_str(&jstr(g, k));
        s.push_str(&ws(g));
        s.push(':');
        s.push_str(&ws(g));
        s.push_str(v);
        s.push_str(&ws(g));
    }
    s.push('}');
    s.push_str(&ws(g));
    s
}

fn mutate(g: &mut Gen, s: String) -> String {
    let cut = |g: &mut Gen, s: &str| {
        let mut k = g.r.usize(s.len() + 1);
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        k
    };
    match g.r.below(12) {
        10 => {
            // under one name, in a list, or as the text of a string
            let k = g.r.pick(&["web", "installed", "serviceAccount", "credentials", "key", "data", "", "client_email", "private_key"]).to_string();
            format!("{{{}:{s}}}", jstr(g, &k))
        }
        11 => match g.r.below(4) {
            0 => format!("[{s}]"),
            1 => jstr(g, &s),
            2 => format!("[{s},{s}]"),
            _ => format!("{s}{}", g.r.pick(&["\n", " ", "\n\n", "\r\n"])).repeat(2),
        },
        0 => {
            let k = cut(g, &s);
            s[..k].to_string()
        }
        1 => format!("{s}{}", g.r.pick(&["}", ",", "x", "{}", "\0", "//", "null", " ", "\n"])),
        2 => {
            let k = cut(g, &s);
            format!("{}{}{}", &s[..k], g.r.pick(&["\"", "\\", ",", "\u{feff}", "\n", "\0", "'", "}", "\\ud800", "\\x"]), &s[k..])
        }
        3 => format!("[{s}]"),
        4 => format!("\u{feff}{s}"),
        5 => any_value(g, 0),
        6 => s.replacen(',', ",,", 1),
        7 => s.replace('"', "'"),
        8 => format!("{}{s}", "[".repeat(g.r.usize(300))),
        _ => g.text(),
    }
}

pub fn case(env: &Env, seed: u64, obs: &mut Obs) {
    let mut g = Gen::new(seed, &env.dict);
    let fix = g.r.usize(2);
    let email = g.email();
    let pem = match g.r.below(12) {
        0 | 1 => g.text(),
        2 => FIX[fix].pem.replace('\n', "\r\n"),
        3 => {
            // escapes that are already undone must stay as they are
            let nl = *g.r.pick(&["\\n", "\\r\\n", "\\\\n", "\\u000a", "%0A", " ", "", "\n\n", "\n ", "\t\n", "&#10;", "+"]);
            FIX[fix].pem.replace('\n', nl)
        }
        4 => {
            let t = FIX[fix].pem;
            match g.r.below(8) {
                0 => format!("  {t}"),
                1 => format!("\u{feff}{t}"),
                2 => format!("\"{t}\""),
                3 => t.trim_end().to_string(),
                4 => format!("{t}{t}"),
                5 => format!("{t}\0"),
                6 => format!("{}\n{t}", g.word()),
                _ => t.to_lowercase(),
            }
        }
        _ => FIX[fix].pem.to_string(),
    };
    let mut text = text_of(&mut g, &email, &pem);
    if g.r.pct(20) {
        text = mutate(&mut g, text);
    }
    if text.starts_with(['{', ' ', '\n']) && g.r.below(400) == 0 {
        // a large text: blanks around a JSON text mean nothing
        let n = *g.r.pick(&[4096usize, 8192, 65_536, 131_072, 1 << 20, 3 << 20]) + g.r.usize(3);
        let pad = g.r.pick(&[" ", "\n", "\t"]).repeat(n);
        text = if g.r.pct(50) { format!("{pad}{text}") } else { format!("{text}{pad}") };
        obs.count("large_texts");
    }
    let by_file = g.r.pct(30);
    let p = env.scratch.join(*g.r.pick(&["k.json", "a b.json", "ключ.json", "x"]));
    let mut bytes = text.clone().into_bytes();
    let mut want = model(&text);
    if by_file && g.r.pct(12) {
        let i = g.r.usize(bytes.len() + 1);
        let bad: &[u8] = g.r.pick(&[&b"\xff"[..], &b"\xc3"[..], &b"\xed\xa0\x80"[..], &b"\xf8\x88\x80\x80\x80"[..], &b"\x80"[..]]);
        bytes.splice(i..i, bad.iter().copied());
        if String::from_utf8(bytes.clone()).is_err() {
            want = Some(None);
        } else {
            want = None;
        }
    }
    let mut how = "from_str".to_string();
    let mut pipe: Option<i32> = None;
    let got = catch_unwind(AssertUnwindSafe(|| {
        if by_file {
            let path = if g.r.pct(8) {
                want = Some(None);
                let (n, x) = match g.r.below(4) {
                    0 => ("a missing file", env.scratch.join("missing")),
                    1 => ("a directory", env.scratch.clone()),
                    2 => ("an empty path", std::path::PathBuf::new()),
                    _ => ("a path under a file", {
                        std::fs::write(env.scratch.join("f"), b"{}").unwrap();
                        env.scratch.join("f/x")
                    }),
                };
                how = format!("from_path of {n}");
                x
            } else {
                std::fs::write(&p, &bytes).expect("scratch");
                match g.r.below(12) {
                    0 => {
                        how = "from_path of a symbolic link".into();
                        let l = env.scratch.join("link");
                        let _ = std::fs::remove_file(&l);
                        std::os::unix::fs::symlink(&p, &l).expect("scratch");
                        l
                    }
                    1 => {
                        how = "from_path of a relative path".into();
                        std::env::set_current_dir(&env.scratch).expect("scratch");
                        std::path::PathBuf::from(p.file_name().unwrap())
                    }
                    2 if bytes.len() < 60_000 => {
                        how = "from_path of a pipe".into();
                        let mut fd = [0i32; 2];
                        assert_eq!(unsafe { libc::pipe2(fd.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
                        assert_eq!(unsafe { libc::write(fd[1], bytes.as_ptr().cast(), bytes.len()) }, bytes.len() as isize);
                        unsafe { libc::close(fd[1]) };
                        pipe = Some(fd[0]);
                        std::path::PathBuf::from(format!("/proc/self/fd/{}", fd[0]))
                    }
                    4 => {
                        how = "from_path of a name that is not UTF-8".into();
                        let name: &[u8] = g.r.pick(&[&b"k\xff.json"[..], b"\xc3.json", b"key\xed\xa0\x80", b"\xfe\xff"]);
                        let l = env.scratch.join(<std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::from_bytes(name));
                        let _ = std::fs::remove_file(&l);
                        std::fs::copy(&p, &l).expect("scratch");
                        l
                    }
                    3 => {
                        how = "from_path with dot segments".into();
                        env.scratch.join("..").join(env.scratch.file_name().unwrap()).join(".").join(p.file_name().unwrap())
                    }
                    _ => {
                        how = "from_path".into();
                        p.clone()
                    }
                }
            };
            obs.count(&how.replace(' ', "_"));
            match g.r.below(3) {
                0 if path.to_str().is_some() => SigningKey::service_account_from_path(path.to_str().expect("utf-8 path")),
                1 => SigningKey::service_account_from_path(&path),
                _ => SigningKey::service_account_from_path(path),
            }
            .map_err(|e| e.to_string())
        } else {
            SigningKey::service_account_from_str(&text).map_err(|e| e.to_string())
        }
    }))
    .map_err(|_| crate::last_panic());
    let _ = std::fs::remove_file(&p);
    if let Some(fd) = pipe {
        unsafe { libc::close(fd) };
    }
    let show = || format!("{how} {:?}", String::from_utf8_lossy(&bytes));
    let Some(want) = want else {
        obs.count("unspecified_text");
        return;
    };
    obs.eval("C14", hash_bytes(&bytes) ^ hash_bytes(how.as_bytes()), || show());
    match (got, want) {
        (Err(p), _) => obs.viol("C14", format!("loading panicked: {p}\n{}", show())),
        (Ok(Ok(_)), None) => obs.viol("C14", format!("loaded a key from {}", show())),
        (Ok(Err(_)), None) => obs.count("refused"),
        (Ok(Err(e)), Some(_)) => obs.viol("C14", format!("refused: {e}\n{}", show())),
        (Ok(Ok(key)), Some((e, k))) => {
            obs.count("loaded");
            // same key as the two strings given directly: signs alike
            let direct = SigningKey::service_account(e.clone(), k.clone());
            if g.r.pct(50) {
                let mut r = urls::valid(&mut g);
                r.tick = 0;
                r.email = e.clone();
                let a = urls::sign(env, &r, key, false).0;
                let b = urls::sign(env, &r, direct, false).0;
                match (a, b) {
                    (Out::Ok(x), Out::Ok(y)) if x == y => {
                        obs.count("signed_alike");
                        match parse_url(&x).and_then(|p| p.get("X-Goog-Credential")) {
                            Ok(c) if c.starts_with(&format!("{e}/")) => {}
                            c => obs.viol("C14", format!("credential {c:?}, client_email {e:?}\n{}", show())),
                        }
                    }
                    (Out::Ok(x), Out::Ok(y)) => obs.viol("C14", format!("loaded key signs {x}, direct key {y}\n{}", show())),
                    (Out::Ok(_), _) | (_, Out::Ok(_)) => obs.viol("C14", format!("only one of loaded and direct key signs\n{}", show())),
                    _ => {}
                }
            } else {
                let mut f = forms::gen(&mut g, 100);
                f.tick = 0;
                let a = forms::build(env, &f, &key, false).0;
                let b = forms::build(env, &f, &direct, false).0;
                match (a, b) {
                    (FOut::Ok(x), FOut::Ok(y)) if x == y => obs.count("signed_alike"),
                    (FOut::Ok(x), FOut::Ok(y)) => obs.viol("C14", format!("loaded key builds {x:?}, direct key {y:?}\n{}", show())),
                    (FOut::Ok(_), _) | (_, FOut::Ok(_)) => obs.viol("C14", format!("only one of loaded and direct key signs\n{}", show())),
                    _ => {}
                }
            }
        }
    }
}
