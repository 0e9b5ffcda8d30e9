//! Reference pieces written from the public documentation, sharing no code with the library under test.
use ring::{digest, signature};

pub fn is_unreserved(b: u8) -> bool {
    b.is_ascii_alphanumeric() || matches!(b, b'-' | b'.' | b'_' | b'~')
}

/// RFC 3986 percent-encoding of everything but unreserved characters.
pub fn pct_encode(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for &x in b {
        if is_unreserved(x) {
            s.push(x as char);
        } else {
            s.push_str(&format!("%{x:02X}"));
        }
    }
    s
}

fn hexval(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|x| x as u8)
}

/// Strict percent-decoding: every '%' must start a valid triplet. '+' is a literal plus.
pub fn pct_decode(s: &str) -> Result<Vec<u8>, String> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let (h, l) = match (b.get(i + 1).and_then(|x| hexval(*x)), b.get(i + 2).and_then(|x| hexval(*x))) {
                (Some(h), Some(l)) => (h, l),
                _ => return Err(format!("bad percent triplet at {i} in {s:?}")),
            };
            v.push(h * 16 + l);
            i += 3;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    Ok(v)
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Decodes lower-case hex only.
pub fn unhex_lower(s: &str) -> Result<Vec<u8>, String> {
    if s.len() % 2 != 0 || !s.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b)) {
        return Err("signature is not lower-case hex".into());
    }
    Ok(s.as_bytes().chunks(2).map(|c| hexval(c[0]).unwrap() * 16 + hexval(c[1]).unwrap()).collect())
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn b64(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..4 {
            if i <= c.len() {
                s.push(B64[((n >> (18 - 6 * i)) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

/// Strict standard base64 with padding: accepts exactly the image of `b64`.
pub fn unb64(s: &str) -> Result<Vec<u8>, String> {
    let t = s.trim_end_matches('=');
    if s.len() % 4 != 0 || s.len() - t.len() > 2 {
        return Err("base64 length or padding".into());
    }
    let mut v = vec![];
    let mut acc = 0u32;
    let mut bits = 0;
    for c in t.bytes() {
        let x = B64.iter().position(|y| *y == c).ok_or_else(|| format!("base64 character {c:#x}"))? as u32;
        acc = (acc << 6) | x;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            v.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    if b64(&v) != s {
        return Err("non-canonical base64".into());
    }
    Ok(v)
}

pub fn sha256_hex(b: &[u8]) -> String {
    hex(digest::digest(&digest::SHA256, b).as_ref())
}

/// Verifies PKCS#1 v1.5 SHA-256 with the public key half the fixture was generated with.
pub fn rsa_verify(pub_der: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    signature::UnparsedPublicKey::new(&signature::RSA_PKCS1_2048_8192_SHA256, pub_der).verify(msg, sig).is_ok()
}

/// Civil date from days since 1970-01-01 (Gregorian, proleptic), counted day by day in 400-year blocks.
pub fn civil(days: i64) -> (i64, u32, u32) {
    let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let block = days.div_euclid(146_097);
    let mut rest = days.rem_euclid(146_097);
    let mut y = 1970 + 400 * block;
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if rest < n {
            break;
        }
        rest -= n;
        y += 1;
    }
    let len = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while rest >= len[m] {
        rest -= len[m];
        m += 1;
    }
    (y, m as u32 + 1, rest as u32 + 1)
}

pub fn yyyymmdd(secs: i64) -> String {
    let (y, m, d) = civil(secs.div_euclid(86_400));
    format!("{y:04}{m:02}{d:02}")
}

fn hms(secs: i64) -> (i64, i64, i64) {
    let s = secs.rem_euclid(86_400);
    (s / 3600, s / 60 % 60, s % 60)
}

/// 20200102T030405Z
pub fn basic_datetime(secs: i64) -> String {
    let (h, m, s) = hms(secs);
    format!("{}T{h:02}{m:02}{s:02}Z", yyyymmdd(secs))
}

/// Parses an RFC 3339 timestamp with upper-case T and Z or a numeric offset; None when not one. Whole seconds only.
pub fn parse_rfc3339(s: &str) -> Option<i64> {
    let b = s.as_bytes();
    if b.len() < 20 || b[4] != b'-' || b[7] != b'-' || b[10] != b'T' || b[13] != b':' || b[16] != b':' {
        return None;
    }
    let num = |r: std::ops::Range<usize>| -> Option<i64> {
        let t = s.get(r)?;
        t.bytes().all(|c| c.is_ascii_digit()).then(|| t.parse().ok())?
    };
    let (y, mo, d, h, mi, se) = (num(0..4)?, num(5..7)?, num(8..10)?, num(11..13)?, num(14..16)?, num(17..19)?);
    let mut rest = &s[19..];
    if let Some(f) = rest.strip_prefix('.') {
        let k = f.bytes().take_while(u8::is_ascii_digit).count();
        if f[..k].bytes().any(|c| c != b'0') {
            return None;
        }
        rest = &f[k..];
    }
    let off = if rest == "Z" {
        0
    } else {
        let sign = match rest.as_bytes().first()? {
            b'+' => 1,
            b'-' => -1,
            _ => return None,
        };
        let (hh, mm) = (rest.get(1..3)?.parse::<i64>().ok()?, rest.get(4..6)?.parse::<i64>().ok()?);
        sign * (hh * 3600 + mm * 60)
    };
    // days from civil by search
    let mut days = (y - 1970) * 365 + (y - 1969).div_euclid(4) - (y - 1901).div_euclid(100) + (y - 1601).div_euclid(400);
    days += (mo - 1) * 31 + d;
    for k in (days - 40)..=(days + 5) {
        if civil(k) == (y, mo as u32, d as u32) && h < 24 && mi < 60 && se < 60 {
            return Some(k * 86_400 + h * 3600 + mi * 60 + se - off);
        }
    }
    None
}

/// Header value as V4 canonicalises it: no surrounding blanks, inner runs collapsed to one space.
pub fn norm_header_value(v: &str) -> String {
    v.split([' ', '\t']).filter(|x| !x.is_empty()).collect::<Vec<_>>().join(" ")
}

/// Canonical headers (name -> values in order), host included.
pub fn canonical_headers(headers: &[(String, String)]) -> Vec<(String, String)> {
    let mut m: std::collections::BTreeMap<String, Vec<String>> = Default::default();
    m.insert("host".into(), vec!["storage.googleapis.com".into()]);
    for (k, v) in headers {
        m.entry(k.to_ascii_lowercase()).or_default().push(norm_header_value(v));
    }
    m.into_iter().map(|(k, v)| (k, v.join(","))).collect()
}

pub fn is_token(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
}

pub fn is_header_value(s: &str) -> bool {
    s.bytes().all(|b| (0x20..0x7f).contains(&b) || b == b'\t')
}

/// A signed URL taken apart by the RFC 3986 grammar.
#[derive(Debug, Clone)]
pub struct Parsed {
    pub path: String,
    /// raw name, raw value, decoded name, decoded value
    pub query: Vec<(String, String, Vec<u8>, Vec<u8>)>,
}

pub const ORIGIN: &str = "https://storage.googleapis.com";

impl Parsed {
    pub fn get(&self, name: &str) -> Result<String, String> {
        let v: Vec<_> = self.query.iter().filter(|q| q.2 == name.as_bytes()).collect();
        match v.as_slice() {
            [q] => String::from_utf8(q.3.clone()).map_err(|_| format!("{name} is not UTF-8")),
            [] => Err(format!("{name} is missing")),
            _ => Err(format!("{name} occurs {} times", v.len())),
        }
    }
}

/// Parses under RFC 3986: printable ASCII, only characters the path and query productions allow.
pub fn parse_url(url: &str) -> Result<Parsed, String> {
    for (i, b) in url.bytes().enumerate() {
        let ok = is_unreserved(b) || b":/?#[]@!$&'()*+,;=%".contains(&b);
        if !ok {
            return Err(format!("byte {b:#04x} at {i} is not allowed in a URI"));
        }
    }
    let rest = url.strip_prefix(ORIGIN).ok_or("origin is not https://storage.googleapis.com")?;
    if !rest.starts_with('/') {
        return Err("path does not follow the host".into());
    }
    if rest.contains('#') {
        return Err("URL has a fragment".into());
    }
    if rest.contains(['[', ']']) {
        return Err("bracket outside the host".into());
    }
    let (path, query) = rest.split_once('?').ok_or("no query")?;
    pct_decode(path)?;
    let mut q = vec![];
    for part in query.split('&') {
        // a name alone stands for an empty value
        let (k, v) = part.split_once('=').unwrap_or((part, ""));
        // a raw '+' reads as a space to form decoders and as a plus to URI decoders
        if part.contains('+') {
            return Err(format!("ambiguous '+' in the query: {part:?}"));
        }
        q.push((k.to_string(), v.to_string(), pct_decode(k)?, pct_decode(v)?));
    }
    Ok(Parsed { path: path.to_string(), query: q })
}

/// Server side of V4: rebuilds the string-to-sign from the URL, the method and the request headers only.
pub fn server_string_to_sign(url: &str, method: &str, headers: &[(String, String)]) -> Result<(String, Vec<u8>), String> {
    let p = parse_url(url)?;
    let sig = unhex_lower(&p.get("X-Goog-Signature")?)?;
    let alg = p.get("X-Goog-Algorithm")?;
    if alg != "GOOG4-RSA-SHA256" {
        return Err(format!("algorithm {alg}"));
    }
    let date = p.get("X-Goog-Date")?;
    let cred = p.get("X-Goog-Credential")?;
    // <account>/<day>/<region>/<service>/<type>; a region may hold slashes, so the day marks where the scope starts
    let day = date.get(..8).unwrap_or("");
    let scope = match cred.find(&format!("/{day}/")) {
        Some(k) => cred[k + 1..].to_string(),
        None => cred.splitn(2, '/').nth(1).unwrap_or("").to_string(),
    };
    if scope.split('/').count() < 4 {
        return Err(format!("credential {cred:?} has too few parts"));
    }
    let ch = canonical_headers(headers);
    let signed: Vec<&str> = ch.iter().map(|(k, _)| k.as_str()).collect();
    let listed = p.get("X-Goog-SignedHeaders")?;
    if listed != signed.join(";") {
        return Err(format!("X-Goog-SignedHeaders {listed:?}, request headers {:?}", signed.join(";")));
    }
    let mut q: Vec<(String, String)> = p
        .query
        .iter()
        .filter(|x| x.2 != b"X-Goog-Signature")
        .map(|x| (pct_encode(&x.2), pct_encode(&x.3)))
        .collect();
    q.sort();
    let cq = q.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join("&");
    // Canonical resource: each segment of the path as sent, percent-encoding normalised.
    let path = p
        .path
        .split('/')
        .map(|s| pct_decode(s).map(|b| pct_encode(&b)))
        .collect::<Result<Vec<_>, _>>()?
        .join("/");
    let hdr = ch.iter().map(|(k, v)| format!("{k}:{v}\n")).collect::<String>();
    let creq = format!("{method}\n{path}\n{cq}\n{hdr}\n{}\nUNSIGNED-PAYLOAD", signed.join(";"));
    Ok((format!("{alg}\n{date}\n{scope}\n{}", sha256_hex(creq.as_bytes())), sig))
}

/// Minimal strict JSON (RFC 8259) keeping member order and duplicates.
#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub struct JsonParser<'a> {
    b: &'a [u8],
    i: usize,
    depth: usize,
    pub max_depth: usize,
    pub odd_number: bool,
}

impl<'a> JsonParser<'a> {
    pub fn parse(s: &'a str) -> Result<J, String> {
        Self::parse_info(s).map(|x| x.0)
    }
    /// Also returns (deepest nesting, whether a number is large or has a fraction or exponent).
    pub fn parse_info(s: &'a str) -> Result<(J, usize, bool), String> {
        let mut p = JsonParser { b: s.as_bytes(), i: 0, depth: 0, max_depth: 0, odd_number: false };
        p.ws();
        let v = p.value()?;
        p.ws();
        if p.i != p.b.len() {
            return Err(format!("trailing text at {}", p.i));
        }
        Ok((v, p.max_depth, p.odd_number))
    }
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn lit(&mut self, t: &str, v: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            Ok(v)
        } else {
            Err(format!("literal at {}", self.i))
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        if self.depth > 2000 {
            return Err("too deep".into());
        }
        let r = match self.b.get(self.i) {
            None => Err("unexpected end".into()),
            Some(b'n') => self.lit("null", J::Null),
            Some(b't') => self.lit("true", J::Bool(true)),
            Some(b'f') => self.lit("false", J::Bool(false)),
            Some(b'"') => self.string().map(J::Str),
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        v.push(self.value()?);
                        self.ws();
                        match self.b.get(self.i) {
                            Some(b',') => self.i += 1,
                            Some(b']') => {
                                self.i += 1;
                                break;
                            }
                            _ => return Err(format!("array at {}", self.i)),
                        }
                    }
                }
                Ok(J::Arr(v))
            }
            Some(b'{') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        if self.b.get(self.i) != Some(&b'"') {
                            return Err(format!("member name at {}", self.i));
                        }
                        let k = self.string()?;
                        self.ws();
                        if self.b.get(self.i) != Some(&b':') {
                            return Err(format!("colon at {}", self.i));
                        }
                        self.i += 1;
                        self.ws();
                        let x = self.value()?;
                        v.push((k, x));
                        self.ws();
                        match self.b.get(self.i) {
                            Some(b',') => self.i += 1,
                            Some(b'}') => {
                                self.i += 1;
                                break;
                            }
                            _ => return Err(format!("object at {}", self.i)),
                        }
                    }
                }
                Ok(J::Obj(v))
            }
            Some(_) => self.number(),
        };
        self.depth -= 1;
        r
    }
    fn number(&mut self) -> Result<J, String> {
        let st = self.i;
        if self.b.get(self.i) == Some(&b'-') {
            self.i += 1;
        }
        let digits = |p: &mut Self| {
            let a = p.i;
            while p.b.get(p.i).is_some_and(u8::is_ascii_digit) {
                p.i += 1;
            }
            p.i - a
        };
        let lead = self.b.get(self.i).copied();
        let n = digits(self);
        if n == 0 || (lead == Some(b'0') && n > 1) {
            return Err(format!("number at {st}"));
        }
        if self.b.get(self.i) == Some(&b'.') {
            self.i += 1;
            if digits(self) == 0 {
                return Err(format!("fraction at {st}"));
            }
        }
        if matches!(self.b.get(self.i), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.b.get(self.i), Some(b'+' | b'-')) {
                self.i += 1;
            }
            if digits(self) == 0 {
                return Err(format!("exponent at {st}"));
            }
        }
        let t = String::from_utf8_lossy(&self.b[st..self.i]).into_owned();
        // readers may refuse what no double can hold
        self.odd_number |= t.parse::<f64>().map_or(true, |x| x.abs() > 1e300);
        Ok(J::Num(t))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let t = self.b.get(self.i..self.i + 4).ok_or("short \\u")?;
        let mut x = 0;
        for c in t {
            x = x * 16 + u32::from(hexval(*c).ok_or("bad \\u")?);
        }
        self.i += 4;
        Ok(x)
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.b.get(self.i).ok_or("unterminated string")?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|e| e.to_string()),
                b'\\' => {
                    let e = *self.b.get(self.i).ok_or("unterminated escape")?;
                    self.i += 1;
                    let ch = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let a = self.hex4()?;
                            if (0xD800..0xDC00).contains(&a) {
                                if self.b.get(self.i..self.i + 2) != Some(b"\\u") {
                                    return Err("lone surrogate".into());
                                }
                                self.i += 2;
                                let b = self.hex4()?;
                                if !(0xDC00..0xE000).contains(&b) {
                                    return Err("bad surrogate pair".into());
                                }
                                char::from_u32(0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00)).ok_or("pair")?
                            } else {
                                char::from_u32(a).ok_or("lone surrogate")?
                            }
                        }
                        _ => return Err(format!("escape at {}", self.i)),
                    };
                    let mut buf = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                }
                0..=0x1f => return Err(format!("control character in string at {}", self.i)),
                _ => out.push(c),
            }
        }
    }
}

/// Writes a JSON string with randomised escape style.
pub fn json_string(s: &str, mut esc: impl FnMut() -> u64) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        let style = esc();
        match c {
            '"' | '\\' if style % 2 == 0 => {
                o.push('\\');
                o.push(c);
            }
            '\n' if style % 2 == 0 => o.push_str("\\n"),
            '\r' if style % 2 == 0 => o.push_str("\\r"),
            '\t' if style % 2 == 0 => o.push_str("\\t"),
            '/' if style % 4 == 0 => o.push_str("\\/"),
            c if style % 16 == 1 || (c as u32) < 0x20 || c == '"' || c == '\\' => {
                let mut u = [0u16; 2];
                for x in c.encode_utf16(&mut u) {
                    if style % 32 < 16 {
                        o.push_str(&format!("\\u{x:04x}"));
                    } else {
                        o.push_str(&format!("\\u{x:04X}"));
                    }
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
