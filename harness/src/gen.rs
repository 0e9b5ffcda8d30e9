//! Input generators: realistic, hostile and boundary values, plus literals harvested from the library's current
//! source (used only to choose inputs, never to judge).
use crate::rng::Rng;
use std::path::Path;

pub struct Dict {
    pub strings: Vec<String>,
    pub ints: Vec<u64>,
}

fn collect(dir: &Path, out: &mut Vec<String>) {
    let mut names: Vec<_> = match std::fs::read_dir(dir) {
        Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    names.sort();
    for p in names {
        if p.is_dir() {
            collect(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                out.push(s);
            }
        }
    }
}

impl Dict {
    pub fn harvest(src: &Path) -> Dict {
        let mut files = vec![];
        collect(src, &mut files);
        let mut strings = std::collections::BTreeSet::new();
        let mut ints = std::collections::BTreeSet::new();
        for f in files {
            // keep to non-test code: literals in tests only dilute the dictionary
            let code = f.split("#[cfg(test)]\nmod tests").next().unwrap_or(&f);
            let mut in_line;
            for line in code.lines() {
                let t = line.trim_start();
                if t.starts_with("//") {
                    continue;
                }
                in_line = t.as_bytes();
                let mut i = 0;
                while i < in_line.len() {
                    let c = in_line[i];
                    if c == b'"' {
                        let mut j = i + 1;
                        let mut v: Vec<u8> = vec![];
                        while j < in_line.len() && in_line[j] != b'"' {
                            if in_line[j] == b'\\' && j + 1 < in_line.len() {
                                j += 1;
                                v.push(match in_line[j] {
                                    b'n' => b'\n',
                                    b't' => b'\t',
                                    b'r' => b'\r',
                                    b'0' => 0,
                                    x => x,
                                });
                            } else {
                                v.push(in_line[j]);
                            }
                            j += 1;
                        }
                        if let Ok(s) = String::from_utf8(v) {
                            if !s.is_empty() && s.len() <= 80 {
                                strings.insert(s);
                            }
                        }
                        i = j + 1;
                    } else if c == b'\'' {
                        // char literal or lifetime
                        let rest = &t[i + 1..];
                        if let Some(ch) = rest.chars().next() {
                            if ch != '\\' && rest[ch.len_utf8()..].starts_with('\'') {
                                strings.insert(ch.to_string());
                                i += 2 + ch.len_utf8();
                                continue;
                            }
                        }
                        i += 1;
                    } else if c.is_ascii_digit() && (i == 0 || !(in_line[i - 1].is_ascii_alphanumeric() || in_line[i - 1] == b'_')) {
                        let mut j = i;
                        let mut n: Option<u64> = Some(0);
                        if t[i..].starts_with("0x") {
                            j += 2;
                            while j < in_line.len() && (in_line[j].is_ascii_hexdigit() || in_line[j] == b'_') {
                                if let Some(d) = (in_line[j] as char).to_digit(16) {
                                    n = n.and_then(|n| n.checked_mul(16)).and_then(|n| n.checked_add(u64::from(d)));
                                }
                                j += 1;
                            }
                        } else {
                            while j < in_line.len() && (in_line[j].is_ascii_digit() || in_line[j] == b'_') {
                                if in_line[j] != b'_' {
                                    n = n.and_then(|n| n.checked_mul(10)).and_then(|n| n.checked_add(u64::from(in_line[j] - b'0')));
                                }
                                j += 1;
                            }
                        }
                        if let Some(n) = n {
                            ints.insert(n);
                        }
                        while j < in_line.len() && (in_line[j].is_ascii_alphanumeric() || in_line[j] == b'_') {
                            j += 1;
                        }
                        i = j;
                    } else {
                        i += 1;
                    }
                }
            }
        }
        // products such as 5 * 1024 * 1024 are out of reach of the scan: add common powers
        for k in [1u64 << 10, 1 << 16, 1 << 20, 1 << 31, 1 << 32, 1 << 40, 5 << 40, 1 << 53, 1 << 63, u64::MAX] {
            ints.insert(k);
        }
        Dict { strings: strings.into_iter().collect(), ints: ints.into_iter().collect() }
    }
}

pub struct Gen<'a> {
    pub r: Rng,
    pub d: &'a Dict,
}

const RESERVED: &[u8] = b"?=!#$&'()*+,:;@[]\"/ %<>{}|\\^`~-._";
const UNI: &[&str] = &["é", "ß", "Ω", "日本", "語", "😀", "𝄞", "\u{301}", "\u{200b}", "\u{feff}", "İ", "ſ", "\u{7f}", "\u{80}", "\u{2028}", "\u{fffd}", "\u{10ffff}"];
const SPICE: &[&str] = &[
    "%41", "%2F", "%2f", "%25", "%", "%zz", "%2e%2e", "..", ".", "//", "+", "a+b", " ", "  ", "\t", "\n", "\r\n", "\0", "\\", "?x=1", "#f", "&", "=", ";", "a=b&c=d",
    "\"", "'", "$", "\\$", "${key}", "${filename}", "{", "}", "|", "^", "`", "~", "*", "(1)", "[x]", "<b>", "X-Goog-Signature", "UNSIGNED-PAYLOAD", "%00", "%0A", "host", "/",
    "null", "true", "0", "-1", "C:\\tmp", "a/../b", "./a", "/a", "a/", "%E3%81%82", "%e3%81%82", "%C3%28",
];

impl<'a> Gen<'a> {
    pub fn new(seed: u64, d: &'a Dict) -> Self {
        Gen { r: Rng::new(seed), d }
    }
    fn alnum(&mut self, n: usize) -> String {
        (0..n).map(|_| *self.r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") as char).collect()
    }
    pub fn word(&mut self) -> String {
        let n = 1 + self.r.usize(10);
        self.alnum(n)
    }
    /// A length near a boundary or near an integer literal of the source.
    pub fn length(&mut self, max: usize) -> usize {
        let base = match self.r.below(3) {
            0 => *self.r.pick(&[0usize, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192]),
            1 => {
                let x = *self.r.pick(&self.d.ints);
                if x <= max as u64 {
                    x as usize
                } else {
                    self.r.usize(64)
                }
            }
            _ => self.r.usize(300),
        };
        let d = self.r.range(-1, 1);
        ((base as i64 + d).max(0) as usize).min(max)
    }
    /// Hostile text.
    pub fn text(&mut self) -> String {
        match self.r.below(20) {
            0 => String::new(),
            1..=4 => self.word(),
            5 => {
                let n = 1 + self.r.usize(12);
                (0..n).map(|_| *self.r.pick(RESERVED) as char).collect()
            }
            6 | 7 => {
                let n = 1 + self.r.usize(5);
                (0..n).map(|_| if self.r.pct(50) { self.r.pick(SPICE).to_string() } else { self.word() }).collect()
            }
            8 => {
                let n = 1 + self.r.usize(5);
                (0..n).map(|_| if self.r.pct(60) { self.r.pick(UNI).to_string() } else { self.word() }).collect()
            }
            9 => {
                let n = 1 + self.r.usize(20);
                (0..n).map(|_| char::from(self.r.usize(128) as u8)).collect()
            }
            10 => {
                let n = 1 + self.r.usize(12);
                (0..n).map(|_| self.any_char()).collect()
            }
            11 => self.r.pick(SPICE).to_string(),
            12 => {
                // long; characters of several bytes start at every alignment
                let n = self.length(9000);
                let c = *self.r.pick(&["a", "/", "%", " ", "é", "😀", "ab", "+", "語", "é😀", "日a"]);
                let k = self.r.usize(4).min(n);
                let head: String = "wxyz".chars().take(k).collect();
                head + &c.repeat(n / c.len() + 1).chars().take(n - k).collect::<String>()
            }
            13 => format!("{}.{}", self.word(), self.word()),
            14 => format!("{}/{}/{}", self.word(), self.word(), self.word()),
            15 | 16 => self.dict(),
            17 => format!("{}{}", self.dict(), self.word()),
            18 => format!("{}{}{}", self.word(), self.r.pick(SPICE), self.word()),
            _ => {
                let w = self.word();
                if self.r.pct(50) { format!(" {w}") } else { format!("{w} ") }
            }
        }
    }
    /// Characters of several bytes at every alignment, of any length.
    pub fn wide(&mut self) -> String {
        let n = match self.r.below(3) {
            0 => self.r.usize(40),
            1 => self.r.usize(700),
            _ => self.length(3000),
        };
        let k = self.r.usize(4);
        let c = *self.r.pick(&["é", "語", "😀", "é語", "😀é", "\u{301}"]);
        "wxyz".chars().take(k).collect::<String>() + &c.repeat(n)
    }
    fn any_char(&mut self) -> char {
        loop {
            let x = match self.r.below(4) {
                0 => self.r.below(0x80),
                1 => self.r.below(0x800),
                2 => self.r.below(0x1_0000),
                _ => self.r.below(0x11_0000),
            };
            if let Some(c) = char::from_u32(x as u32) {
                return c;
            }
        }
    }
    pub fn dict(&mut self) -> String {
        if self.d.strings.is_empty() {
            return self.word();
        }
        self.r.pick(&self.d.strings).clone()
    }
    pub fn bucket(&mut self) -> String {
        match self.r.below(10) {
            0..=4 => format!("{}-{}", self.alnum(4).to_lowercase(), self.alnum(3).to_lowercase()),
            5 => format!("{}.example.com", self.alnum(4).to_lowercase()),
            6 => format!("{}_{}", self.word(), self.word()),
            _ => self.text(),
        }
    }
    pub fn object(&mut self) -> String {
        match self.r.below(12) {
            0 | 1 => format!("{}/{}.jpeg", self.word(), self.word()),
            2 => format!("{} ({}).pdf", self.word(), self.r.usize(100)),
            3 => {
                let n = 1 + self.r.usize(6);
                (0..n).map(|_| self.text_short()).collect::<Vec<_>>().join("/")
            }
            4 => {
                let n = 1 + self.r.usize(4);
                (0..n)
                    .map(|_| match self.r.below(5) {
                        0 => "..".into(),
                        1 => ".".into(),
                        2 => String::new(),
                        3 => "%2e".into(),
                        _ => self.word(),
                    })
                    .collect::<Vec<_>>()
                    .join("/")
            }
            _ => self.text(),
        }
    }
    pub fn text_short(&mut self) -> String {
        let s = self.text();
        let n = if self.r.pct(12) { 24 + self.r.usize(300) } else { 24 };
        s.chars().take(n).collect()
    }
    pub fn region(&mut self) -> Option<String> {
        match self.r.below(8) {
            0..=2 => None,
            3 => Some("auto".into()),
            4 | 5 => Some(self.r.pick(&["us-central1", "us", "asia-northeast1", "EUR4", "northamerica-northeast2"]).to_string()),
            6 if self.r.pct(20) => {
                let n = *self.r.pick(&[16usize, 20, 25, 33, 40, 64, 65, 100, 256]) + self.r.usize(4);
                Some(self.alnum(n))
            }
            _ => Some(self.text_short()),
        }
    }
    pub fn email(&mut self) -> String {
        match self.r.below(8) {
            0..=4 => format!("{}@{}.iam.gserviceaccount.com", self.word(), self.word()),
            5 => format!("{}+{}@example.com", self.word(), self.word()),
            _ => self.text_short(),
        }
    }
    pub fn query_name(&mut self) -> String {
        match self.r.below(12) {
            0 | 1 => self.r.pick(&["generation", "userProject", "response-content-disposition", "response-content-type", "prefix", "uploadId", "partNumber", "uploads", "acl", "delimiter", "versions"]).to_string(),
            2..=5 => {
                // names that are prefixes of each other, continued by characters on either side of '='
                let base = *self.r.pick(&["a", "b", "ab", "x-goog", "X"]);
                let tail = *self.r.pick(&["", "", "-", "-b", ".", "1", "9", "_", "~", "A", "z", "%", "=", "&", " ", "/", "é", ":", "!"]);
                format!("{base}{tail}")
            }
            6 => self.word(),
            7 => self.dict(),
            _ => self.text(),
        }
    }
    pub fn query_value(&mut self) -> String {
        match self.r.below(8) {
            0 => format!("attachment; filename=\"{} {}.txt\"", self.word(), self.word()),
            1 => format!("{}/{}", self.word(), self.word()),
            2 => self.r.next().to_string(),
            3 => String::new(),
            _ => self.text(),
        }
    }
    pub fn query(&mut self) -> Vec<(String, String)> {
        let n = match self.r.below(10) {
            0..=2 => 0,
            3..=7 => 1 + self.r.usize(4),
            8 => self.r.usize(12),
            _ if self.r.pct(12) => self.length(700),
            _ => self.r.usize(60),
        };
        let mut v: Vec<(String, String)> = vec![];
        while v.len() < n {
            if v.len() > 60 {
                let k = if self.r.pct(20) { self.r.pick(&v).0.clone() } else { self.word() };
                if !is_reserved_param(&k) {
                    let x = self.word();
                    v.push((k, x));
                }
                continue;
            }
            let mut k = if !v.is_empty() && self.r.pct(20) { self.r.pick(&v).0.clone() } else { self.query_name() };
            if self.r.pct(3) {
                k = k.to_uppercase();
            }
            if is_reserved_param(&k) {
                continue;
            }
            let val = if !v.is_empty() && self.r.pct(10) { self.r.pick(&v).1.clone() } else { self.query_value() };
            v.push((k, val));
        }
        v
    }
    pub fn header_name(&mut self) -> String {
        let s = match self.r.below(10) {
            0..=3 => self.r.pick(&["Content-Type", "content-type", "x-goog-meta-a", "X-Goog-Meta-A", "x-goog-acl", "Content-MD5", "x-goog-meta-reviewer", "x-goog-if-generation-match", "Range", "Cache-Control", "accept", "x-goog-encryption-key", "user-agent", "authorization", "cookie"]).to_string(),
            4 | 5 => format!("x-goog-meta-{}", self.word()),
            6 => {
                let n = 1 + self.r.usize(8);
                (0..n).map(|_| *self.r.pick(b"abcXYZ019!#$%&'*+-.^_`|~") as char).collect()
            }
            7 => format!("{}{}", self.r.pick(&["a", "ab", "x-goog-meta-a", "z"]), self.r.pick(&["", "-", "1", "b", "_", "~", "."])),
            8 => self.dict(),
            _ => {
                let n = 1 + self.length(300);
                "h".repeat(n)
            }
        };
        if s.eq_ignore_ascii_case("host") || s.eq_ignore_ascii_case("x-goog-content-sha256") || !crate::model::is_token(&s) {
            return format!("x-{}", self.word());
        }
        s
    }
    pub fn header_value(&mut self) -> String {
        let s = match self.r.below(12) {
            0..=2 => self.word(),
            3 => String::new(),
            4 => format!("  {}\t", self.word()),
            5 => format!("{}  \t {}", self.word(), self.word()),
            6 => "text/plain; charset=\"utf-8\"".into(),
            7 => format!("{},{}", self.word(), self.word()),
            8 => format!("{}:{} ;{}", self.word(), self.word(), self.word()),
            9 => self.dict(),
            _ => self.text(),
        };
        s.chars().filter(|c| (' '..='~').contains(c) || *c == '\t').collect()
    }
    pub fn headers(&mut self) -> Vec<(String, String)> {
        let n = match self.r.below(10) {
            0..=3 => 0,
            4..=7 => 1 + self.r.usize(4),
            8 => self.r.usize(12),
            _ if self.r.pct(16) => self.length(500),
            _ => self.r.usize(50),
        };
        let mut v: Vec<(String, String)> = vec![];
        while v.len() < n {
            if v.len() > 60 {
                let k = if self.r.pct(20) { self.r.pick(&v).0.clone() } else { format!("x-goog-meta-{}", self.word()) };
                let x = self.word();
                v.push((k, x));
                continue;
            }
            let mut k = if !v.is_empty() && self.r.pct(25) { self.r.pick(&v).0.clone() } else { self.header_name() };
            k = self.recase(&k);
            v.push((k, self.header_value()));
        }
        v
    }
    pub fn recase(&mut self, s: &str) -> String {
        match self.r.below(4) {
            0 => s.to_ascii_uppercase(),
            1 => s.to_ascii_lowercase(),
            2 => s.chars().map(|c| if self.r.pct(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
            _ => s.to_string(),
        }
    }
    pub fn method(&mut self) -> String {
        self.r.pick(&["DELETE", "GET", "HEAD", "POST", "PUT"]).to_string()
    }
    /// Whole seconds within 1970-01-01..9999-12-31, leaning on calendar boundaries.
    pub fn instant(&mut self) -> i64 {
        const MAX: i64 = 253_402_300_799;
        let day = 86_400;
        let x = match self.r.below(12) {
            0..=3 => self.r.range(1_577_836_800, 1_893_456_000),
            4 => self.r.range(0, MAX),
            5 => {
                // just around midnight of some day
                self.r.range(0, MAX / day) * day + self.r.range(-1, 1)
            }
            6 => {
                // around a year end
                let y = self.r.range(1970, 9999);
                let mut d = (y - 1970) * 365 + (y - 1969) / 4 - (y - 1901) / 100 + (y - 1601) / 400;
                while crate::model::civil(d) != (y, 1, 1) {
                    d += if crate::model::civil(d) < (y, 1, 1) { 1 } else { -1 };
                }
                d * day + self.r.range(-2, 2)
            }
            7 => {
                // Feb 28 .. Mar 1 of some year
                let y = *self.r.pick(&[1972, 2000, 2024, 2100, 2400, 2023, 9996, 1996]);
                let mut d = (y - 1970) * 365 + (y - 1969) / 4 - (y - 1901) / 100 + (y - 1601) / 400 + 58;
                while crate::model::civil(d) < (y, 2, 28) {
                    d += 1;
                }
                (d + self.r.range(0, 2)) * day + *self.r.pick(&[0, 1, 43_200, 86_399])
            }
            8 => *self.r.pick(&[0, 1, 59, 60, 3599, 3600, day - 1, day, MAX, MAX - 1, 946_684_799, 946_684_800, 951_782_399, 951_782_400, 2_147_483_647, 2_147_483_648, 4_294_967_295, 4_294_967_296]),
            9 => {
                let x = *self.r.pick(&self.d.ints);
                (x.min(MAX as u64) as i64) + self.r.range(-1, 1)
            }
            _ => self.r.range(1_700_000_000, 1_800_000_000),
        };
        x.clamp(0, MAX)
    }
    pub fn nanos(&mut self) -> u32 {
        match self.r.below(5) {
            0 | 1 => 0,
            2 => 999_999_999,
            3 => 1,
            _ => self.r.below(1_000_000_000) as u32,
        }
    }
    /// A lifetime in nanoseconds within what V4 allows.
    pub fn lifetime_ns(&mut self) -> i128 {
        let s = match self.r.below(8) {
            0 => 0,
            1 => 604_800,
            2 => 604_799,
            3 => *self.r.pick(&[1, 59, 60, 3600, 86_399, 86_400, 86_401]),
            4 => (*self.r.pick(&self.d.ints)).min(604_800) as i64,
            _ => self.r.range(0, 604_800),
        };
        i128::from(s) * 1_000_000_000 + i128::from(self.nanos())
    }
    /// A positive magnitude, uniform in its logarithm, up to 2^bits.
    pub fn magnitude(&mut self, bits: u64) -> i128 {
        let k = self.r.below(bits + 1);
        1 + i128::from(self.r.next() & ((1u64 << k) - 1))
    }
    /// A whole number of seconds of any size and sign, leaning on the limits and on integers of the source.
    pub fn seconds(&mut self) -> i128 {
        match self.r.below(8) {
            0 => i128::from(*self.r.pick(&self.d.ints)).min(1 << 36) + i128::from(self.r.range(-1, 1)),
            1 => {
                let (a, b) = (*self.r.pick(&self.d.ints), *self.r.pick(&self.d.ints));
                (i128::from(a.min(1 << 40)) * i128::from(b.min(1 << 40))).min(1 << 36) + i128::from(self.r.range(-1, 1))
            }
            2 => self.magnitude(20),
            3 => -self.magnitude(33),
            4 => 604_800 + i128::from(self.r.range(-3, 3)),
            5 => i128::from(*self.r.pick(&[1i64 << 16, 1 << 31, 1 << 32, 1 << 33, 86_400 * 365, 86_400 * 366, 86_400 * 30])) + i128::from(self.r.range(-2, 604_800)),
            _ => 604_800 + self.magnitude(36),
        }
    }
    pub fn u64(&mut self) -> u64 {
        match self.r.below(5) {
            0 => self.r.next(),
            1 => self.r.next() >> self.r.below(64),
            2 => {
                let x = *self.r.pick(&self.d.ints);
                x.wrapping_add(self.r.range(-1, 1) as u64)
            }
            3 => *self.r.pick(&[0, 1, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, u32::MAX as u64, u32::MAX as u64 + 1, 1 << 53, (1 << 53) + 1, 5 << 40]),
            _ => self.r.below(10_000_000),
        }
    }
}

/// Names V4 reserves in the query.
pub fn is_reserved_param(k: &str) -> bool {
    ["x-goog-algorithm", "x-goog-credential", "x-goog-date", "x-goog-expires", "x-goog-signedheaders", "x-goog-signature"]
        .contains(&k.to_ascii_lowercase().as_str())
}
