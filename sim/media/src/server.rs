//! C21: the static file server on a simulated network and disk: slow, broken and impatient clients, failing storage.
use crate::program;
use simrt::ctx::{self, S};
use simrt::fs::{self, Faults};
use simrt::net::{self, Client, Got};
use simrt::prng::Rng;
use simrt::{ev, interpose, sched, violation};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

const ROOT: &str = "/simfs/cwd/static/";
const MS: u64 = 1_000_000;
/// No byte for this long although nothing is in the way.
const PATIENCE: u64 = 30_000 * MS;

/// What is on the disk during a phase.
struct Site {
    files: BTreeMap<String, Vec<u8>>,
    /// a storage failure may surface
    hard: bool,
    /// connections may be dropped before they are accepted
    lossy: bool,
    /// what clients remember of earlier complete answers: the date they carried, the file's own (in seconds), the contents
    seen: Arc<Mutex<BTreeMap<String, (String, u64, Vec<u8>)>>>,
}
enum Want {
    File(String),
    Redirect,
    Start,
    Health,
}
impl Site {
    fn want(&self, target: &str) -> Want {
        let raw = target.split(['?', '#']).next().unwrap();
        if raw == "/health" {
            return Want::Health;
        }
        let Some(path) = decode(raw) else { return Want::Start };
        let parts: Vec<&str> = path.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        if parts.contains(&"..") {
            return Want::Start;
        }
        let p = parts.join("/");
        if self.files.contains_key(&p) {
            return Want::File(p);
        }
        let dir = if p.is_empty() { String::new() } else { format!("{p}/") };
        if self.files.keys().any(|k| k.starts_with(&dir)) {
            if !raw.ends_with('/') {
                return Want::Redirect;
            }
            let i = format!("{dir}index.html");
            return if self.files.contains_key(&i) { Want::File(i) } else { Want::Start };
        }
        Want::Start
    }
}
fn decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            if let Ok(v) = u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).ok()?, 16) {
                o.push(v);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8(o).ok()
}

fn contents(name: &str) -> Vec<u8> {
    let n = match ctx::w(12) {
        0 => 0,
        1..=5 => ctx::range(1, 60),
        6..=8 => ctx::range(1, 3000),
        9 | 10 => ctx::range(1, 70_000),
        _ => ctx::range(60_000, 200_000),
    };
    let mut r = Rng::new(ctx::draw(S::Work, 1 << 16));
    let mut v = format!("{name}#{}:", r.below(1 << 30)).into_bytes();
    v.resize(v.len() + n, 0);
    let k = v.len() - n;
    for b in &mut v[k..] {
        *b = r.below(256) as u8;
    }
    if ctx::w(10) == 9 {
        v.clear();
    }
    v
}
const NAMES: &[&str] = &[
    "app.mjs",
    "sw.js",
    "manifest.json",
    "pkg/web_spectrogram.js",
    "pkg/web_spectrogram_bg.wasm",
    "docs/index.html",
    "docs/a b.txt",
    "docs/deep/er/x.bin",
    "ü.txt",
    "empty",
    "healthy",
    "data.tar.gz",
    "health.txt",
    "app.mjs.gz",
    "index.html.gz",
    "pkg/web_spectrogram.js.br",
    "pkg/web_spectrogram_bg.wasm.gz",
    "docs/index.html.br",
    "sw.js.zst",
];
fn site(old: Option<&Site>, hard: bool, lossy: bool) -> Site {
    let mut files = old.map(|s| s.files.clone()).unwrap_or_default();
    if old.is_none() || ctx::w(2) == 1 {
        files.insert("index.html".into(), contents("index.html"));
    }
    for n in NAMES {
        match ctx::w(4) {
            0 | 1 => {}
            2 if old.is_some() => {
                files.remove(*n);
            }
            _ => {
                files.insert(n.to_string(), contents(n));
            }
        }
    }
    Site { files, hard, lossy, seen: old.map(|s| s.seen.clone()).unwrap_or_default() }
}

fn target() -> String {
    let n = *ctx::pick(NAMES);
    let plain = || {
        let mut s = String::from("/");
        for c in n.chars() {
            match c {
                ' ' => s.push_str("%20"),
                'ü' => s.push_str("%C3%BC"),
                c => s.push(c),
            }
        }
        s
    };
    match ctx::w(16) {
        0 => "/".into(),
        1 => "/index.html".into(),
        2 => "/health".into(),
        3 => format!("{}?v={}", plain(), ctx::w(9)),
        4 => ["/nothing", "/docs/none", "/health/", "/pkg/none.js", "/a/b/c", "/healthx", "/%FF"][ctx::w(7)].into(),
        5 => ["/docs", "/docs/", "/docs/deep/", "/pkg/", "/pkg", "/docs/deep?x=1", "/docs/?q"][ctx::w(7)].into(),
        6 => [
            "/../secret.txt",
            "/%2e%2e/secret.txt",
            "/..%2fsecret.txt",
            "/docs/../../secret.txt",
            "/docs/%2e%2e/%2e%2e/secret.txt",
            "/..%2f..%2fsecret.txt",
            "/%2fsimfs%2fsecret.txt",
            "/docs/../../cwd/static/app.mjs",
        ][ctx::w(8)]
        .into(),
        7 => format!("{}?next=/health", plain()),
        8 => "/health?x=1".into(),
        _ => plain(),
    }
}

/// The second in which the file was last replaced.
fn changed(f: &str) -> u64 {
    (interpose::EPOCH + fs::fs().modified(Some(&format!("{ROOT}{f}")), -1)) / 1_000_000_000
}
fn unzip(b: &[u8]) -> Option<Vec<u8>> {
    let mut v = vec![];
    std::io::Read::read_to_end(&mut flate2::read::MultiGzDecoder::new(b), &mut v).ok()?;
    Some(v)
}

#[derive(Debug)]
struct Reply {
    status: u16,
    head: Vec<(String, String)>,
    body: Vec<u8>,
    /// everything announced has arrived
    whole: bool,
}
impl Reply {
    fn get(&self, k: &str) -> Option<&str> {
        self.head.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
    }
}

/// A client's view of one connection.
struct Talk {
    c: Client,
    buf: Vec<u8>,
    /// bytes taken at once and pause before each
    gulp: usize,
    pause: u64,
    patience: u64,
    dead: bool,
}
impl Talk {
    fn fill(&mut self) -> bool {
        self.fill_within(self.patience, true)
    }
    fn fill_within(&mut self, patience: u64, expected: bool) -> bool {
        if self.dead {
            return false;
        }
        loop {
            if self.pause > 0 {
                sched::sleep_until(sched::now() + self.pause);
            }
            match self.c.recv(self.gulp) {
                Got::Data(d) => {
                    self.buf.extend(d);
                    return true;
                }
                Got::Nothing => {
                    if !self.c.wait(sched::now() + patience) {
                        if !expected {
                            return false;
                        }
                        ev!("{}", sched::describe());
                        violation!("no-progress", "nothing arrived for {} s although the request was complete and the client was reading ({})", patience / MS / 1000, self.c.state());
                    }
                }
                Got::Eof | Got::Reset => {
                    self.dead = true;
                    return false;
                }
            }
        }
    }
    fn line(&mut self) -> Option<String> {
        loop {
            if let Some(i) = self.buf.windows(2).position(|w| w == b"\r\n") {
                let l: Vec<u8> = self.buf.drain(..i + 2).collect();
                return Some(String::from_utf8_lossy(&l[..i]).into_owned());
            }
            if !self.fill() {
                return None;
            }
        }
    }
    fn bytes(&mut self, n: usize) -> (Vec<u8>, bool) {
        while self.buf.len() < n {
            if !self.fill() {
                return (std::mem::take(&mut self.buf), false);
            }
        }
        (self.buf.drain(..n).collect(), true)
    }
    /// None: the connection ended before an answer was complete enough to have a head.
    fn reply(&mut self, head_only: bool) -> Option<Reply> {
        let first = self.line()?;
        let status: u16 = first.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
        if !first.starts_with("HTTP/1.") || status == 0 {
            violation!("wrong-answer", "status line {first:?}");
        }
        let mut head = vec![];
        loop {
            let l = self.line()?;
            if l.is_empty() {
                break;
            }
            let (k, v) = l.split_once(':').unwrap_or((&l, ""));
            head.push((k.trim().to_ascii_lowercase(), v.trim().to_string()));
        }
        let mut r = Reply { status, head, body: vec![], whole: true };
        if head_only || status == 204 || status == 304 || (100..200).contains(&status) {
            return Some(r);
        }
        if r.get("transfer-encoding").map_or(false, |t| t.contains("chunked")) {
            loop {
                let n = match self.line() {
                    Some(l) => usize::from_str_radix(l.split(';').next().unwrap().trim(), 16).unwrap_or(0),
                    None => {
                        r.whole = false;
                        return Some(r);
                    }
                };
                let (b, ok) = self.bytes(n + 2);
                r.body.extend(&b[..n.min(b.len())]);
                if !ok {
                    r.whole = false;
                }
                if !ok || n == 0 {
                    return Some(r);
                }
            }
        }
        match r.get("content-length").and_then(|l| l.parse::<usize>().ok()) {
            Some(n) => (r.body, r.whole) = self.bytes(n),
            None => {
                while self.fill() {}
                r.body = std::mem::take(&mut self.buf);
            }
        }
        Some(r)
    }
    /// False: the connection is gone.
    fn say(&mut self, b: &[u8], piece: usize, pause: u64) -> bool {
        let mut at = 0;
        while at < b.len() {
            let k = piece.min(b.len() - at);
            match self.c.send(&b[at..at + k]) {
                None => return false,
                Some(0) => {
                    if !self.c.wait(sched::now() + self.patience) {
                        violation!("no-progress", "the server stopped reading a request for {} s", self.patience / MS / 1000);
                    }
                }
                Some(n) => at += n,
            }
            if pause > 0 && at < b.len() {
                sched::sleep_until(sched::now() + pause);
            }
        }
        true
    }
}

struct Ask {
    method: &'static str,
    target: String,
    origin: bool,
    range: Option<(usize, usize)>,
    /// encodings the client accepts
    accept: Option<&'static str>,
    /// revalidates what it remembers of this file
    since: Option<(String, String)>,
    close: bool,
}
impl Ask {
    fn draw(site: &Site, last: bool) -> Ask {
        let target = target();
        let method = match ctx::w(12) {
            10 => "HEAD",
            11 => "OPTIONS",
            _ => "GET",
        };
        let mut range = None;
        if method == "GET" && ctx::w(8) == 7 {
            if let Want::File(f) = site.want(&target) {
                let n = site.files[&f].len();
                if n > 0 {
                    let a = ctx::w(n as u64);
                    range = Some((a, ctx::range(a, n - 1)));
                }
            }
        }
        let accept = *ctx::pick(&[None, None, Some("gzip, deflate, br, zstd"), Some("gzip"), Some("identity"), Some("br;q=1.0, *;q=0.1")]);
        let mut since = None;
        if method != "OPTIONS" && ctx::w(4) == 3 {
            if let Want::File(f) = site.want(&target) {
                since = site.seen.lock().unwrap().get(&f).map(|(date, ..)| (f, date.clone()));
            }
        }
        Ask { accept, since, method, target, origin: ctx::w(3) > 0 || method == "OPTIONS", range, close: last && ctx::w(2) == 1 }
    }
    fn text(&self) -> String {
        let mut s = format!("{} {} HTTP/1.1\r\nHost: viewer.test\r\n", self.method, self.target);
        if self.origin {
            s += "Origin: http://elsewhere.test\r\n";
        }
        if self.method == "OPTIONS" {
            s += "Access-Control-Request-Method: GET\r\n";
        }
        if let Some((a, b)) = self.range {
            s += &format!("Range: bytes={a}-{b}\r\n");
        }
        if let Some(a) = self.accept {
            s += &format!("Accept-Encoding: {a}\r\n");
        }
        if let Some((_, date)) = &self.since {
            s += &format!("If-Modified-Since: {date}\r\n");
        }
        if self.close {
            s += "Connection: close\r\n";
        }
        s + "\r\n"
    }
    fn judge(&self, site: &Site, r: &Reply) {
        let what = format!(
            "{} {}{}{}: status {}, {} bytes{}",
            self.method,
            self.target,
            self.range.map(|r| format!(" [{}-{}]", r.0, r.1)).unwrap_or_default(),
            if site.hard { " (failing storage)" } else { "" },
            r.status,
            r.body.len(),
            if r.whole { "" } else { ", cut off" }
        );
        ev!("{what}");
        let want = site.want(&self.target);
        if self.origin && r.get("access-control-allow-origin") != Some("*") {
            violation!("not-open", "{what}: no open cross-origin header: {:?}", r.get("access-control-allow-origin"));
        }
        if !r.whole && !site.hard {
            violation!("cut-off", "{what}: the answer was cut off although nothing failed");
        }
        let start = &site.files["index.html"];
        if self.method == "OPTIONS" {
            if r.status != 200 && r.status != 204 {
                violation!("wrong-answer", "{what}: a browser's question for permission was not granted");
            }
            return;
        }
        let success = (200..300).contains(&r.status);
        let redirect = (300..400).contains(&r.status) && r.status != 304;
        if let Want::Health = want {
            if r.status != 200 || !r.whole {
                violation!("wrong-answer", "{what}: the health route did not answer success");
            }
            return;
        }
        if let (304, Some((f, date))) = (r.status, &self.since) {
            let seen = site.seen.lock().unwrap();
            // (the date remembered may have been renewed by another client since: then nothing is said,
            // nor when the file was replaced within the same second, which dates cannot tell)
            if !site.hard && seen.get(f).is_some_and(|(d, at, b)| d == date && *at != changed(f) && *b != site.files[f]) {
                violation!("stale", "{what}: \"not modified\", but the contents are not those that were answered with this date");
            }
            ctx::count(if site.hard { "revalidations with failing storage" } else { "answers confirmed as still right" });
            return;
        }
        if let Some(e) = r.get("content-encoding").filter(|e| *e != "identity") {
            if !self.accept.is_some_and(|a| a.contains(e) || a.contains('*')) {
                violation!("wrong-contents", "{what}: the contents are {e}, which the client does not accept");
            }
            if e != "gzip" || self.method == "HEAD" || r.status == 206 {
                return;
            }
            let Some(body) = unzip(&r.body) else {
                if r.whole && success {
                    violation!("wrong-contents", "{what}: the contents announced as {e} are not");
                }
                return;
            };
            let head = r.head.iter().filter(|h| h.0 != "content-encoding" && h.0 != "content-length").cloned().collect();
            return self.judge(site, &Reply { status: r.status, head, body, whole: r.whole });
        }
        if success && r.whole {
            // complete by its own account: it must be what the address stands for
            let want_body: Option<&Vec<u8>> = match &want {
                Want::File(f) => Some(&site.files[f]),
                Want::Start => Some(start),
                _ => None,
            };
            let matches = |b: &Vec<u8>| match (self.method, r.status, self.range) {
                // with failing storage the announced length may be that of a directory (tower-http)
                ("HEAD", _, _) => site.hard || r.get("content-length").map_or(true, |l| l == b.len().to_string()),
                (_, 206, Some((a, z))) => {
                    // (only the start page in place of an unreadable file can be shorter than asked)
                    let z = z.min(b.len().saturating_sub(1));
                    let ok = a <= z && r.body == b[a..=z];
                    ok && r.get("content-range") == Some(&format!("bytes {a}-{z}/{}", b.len()))
                }
                (_, 200, _) => r.body == *b,
                _ => false,
            };
            let good = want_body.map_or(site.hard && self.method == "HEAD", |b| matches(b)) || (site.hard && matches(start));
            if let (true, false, "GET", 200, Want::File(f), Some(date)) = (good, site.hard, self.method, r.status, &want, r.get("last-modified")) {
                site.seen.lock().unwrap().insert(f.clone(), (date.to_string(), changed(f), r.body.clone()));
            }
            if good && self.since.is_some() && r.status == 200 {
                ctx::count("revalidations answered with contents");
            }
            if good && !site.hard {
                let name = match &want {
                    Want::File(f) => f.as_str(),
                    _ => "index.html",
                };
                let kind = r.get("content-type").unwrap_or("none");
                let fits = match name.rsplit('.').next().unwrap() {
                    "wasm" => kind == "application/wasm",
                    "js" | "mjs" => kind.contains("javascript"),
                    "html" => kind.starts_with("text/html"),
                    "json" => kind.contains("json"),
                    "txt" => kind.starts_with("text/plain"),
                    _ => true,
                };
                if !fits {
                    violation!("wrong-type", "{what}: {name} was announced as {kind}");
                }
            }
            if !good {
                violation!("wrong-contents", "{what}: success with contents that are not the {}", match &want {
                    Want::File(f) => format!("file {f} ({} bytes)", site.files[f].len()),
                    Want::Redirect => "directory's proper address".into(),
                    _ => format!("start page ({} bytes)", start.len()),
                });
            }
            return;
        }
        if success {
            // cut off by failing storage: what arrived must be a beginning of the right contents
            let ok = |b: &Vec<u8>| match self.range {
                Some((a, z)) if r.status == 206 => a < b.len() && b[a..=z.min(b.len() - 1)].starts_with(&r.body),
                _ => b.starts_with(&r.body),
            };
            if !(ok(start) || matches!(&want, Want::File(f) if ok(&site.files[f]))) {
                violation!("wrong-contents", "{what}: the part that arrived is not a beginning of the right contents");
            }
            return;
        }
        if redirect {
            let to = r.get("location").unwrap_or("");
            let (p, q) = self.target.split_once('?').map_or((self.target.as_str(), ""), |x| x);
            let good = format!("{p}/{}{q}", if q.is_empty() { "" } else { "?" });
            if matches!(want, Want::Redirect) && to.ends_with(&good) {
                return;
            }
            violation!("wrong-answer", "{what}: redirected to {to:?}");
        }
        if site.hard && (r.status >= 500 || r.status == 404) {
            ctx::count("requests refused because storage failed");
            return;
        }
        if r.status == 416 && self.range.is_some() && site.hard {
            return;
        }
        violation!("wrong-answer", "{what}: no success although nothing failed");
    }
}

fn client(site: &Site) {
    for _ in 0..ctx::range(1, 3) {
        if ctx::w(4) == 3 {
            sched::sleep_until(sched::now() + MS * ctx::draw(S::Work, 40));
        }
        let Some(c) = Client::connect() else { violation!("not-listening", "connection refused") };
        let pause = match ctx::draw(S::Fault, 5) {
            4 => MS * (1 + ctx::draw(S::Fault, 20)),
            _ => 0,
        };
        // every refused accept costs the server a second
        let patience = if site.lossy { PATIENCE * 20 } else { PATIENCE };
        let gulp = *ctx::pick(&[1 << 20, 1 << 14, 700, 3000]);
        let mut t = Talk { c, buf: vec![], gulp, pause, patience, dead: false };

        let (piece, gap) = match ctx::draw(S::Fault, 5) {
            3 => (1 + ctx::draw(S::Fault, 30) as usize, 0),
            4 => (5 + ctx::draw(S::Fault, 60) as usize, MS * ctx::draw(S::Fault, 30)),
            _ => (1 << 20, 0),
        };
        let k = ctx::range(1, 4);
        let asks: Vec<Ask> = (0..k).map(|i| Ask::draw(site, i + 1 == k)).collect();
        match ctx::draw(S::Fault, 14) {
            9 => {
                // sends part of a request and goes away
                let s = asks[0].text();
                let n = ctx::draw(S::Fault, s.len() as u64) as usize;
                ctx::fault("client gone in the middle of a request");
                t.say(s[..n].as_bytes(), piece, gap);
                if ctx::draw(S::Fault, 2) == 1 {
                    t.c.reset();
                } else {
                    sched::sleep_until(sched::now() + MS * ctx::draw(S::Fault, 200));
                }
                continue;
            }
            10 => {
                // takes part of an answer and goes away
                ctx::fault("client gone in the middle of an answer");
                t.say(asks[0].text().as_bytes(), piece, gap);
                let n = ctx::draw(S::Fault, 5000) as usize;
                while t.buf.len() < n && t.fill_within(MS * 300, false) {}
                if ctx::draw(S::Fault, 2) == 1 {
                    t.c.reset();
                }
                continue;
            }
            11 => {
                ctx::fault("malformed request");
                let junk: &[&[u8]] = &[b"\r\n\r\n", b"GET\r\n\r\n", b"GET / HTTP/9.9\r\n\r\n", b"\x16\x03\x01\x02\x00", b"GET /%zz HTTP/1.1\r\n\r\n", b"POST /app.mjs HTTP/1.1\r\nHost: a\r\nContent-Length: 5\r\n\r\nabcde", b"DELETE /app.mjs HTTP/1.1\r\nHost: a\r\n\r\n"];
                t.say(ctx::pick(junk), piece, gap);
                sched::sleep_until(sched::now() + MS * ctx::draw(S::Fault, 100));
                continue;
            }
            12 => {
                // opens a connection, stays silent while others are served
                ctx::fault("silent client");
                sched::sleep_until(sched::now() + MS * ctx::draw(S::Fault, 3000));
            }
            _ => {}
        }
        let pipelined = k > 1 && ctx::w(4) == 3;
        if pipelined {
            ctx::count("pipelined requests");
            let all: String = asks.iter().map(|a| a.text()).collect();
            // enough room, or the two sides wait for each other
            if all.len() < net::net().caps.0 {
                t.say(all.as_bytes(), piece, gap);
                for a in &asks {
                    if !answer(site, &mut t, a) {
                        break;
                    }
                }
                continue;
            }
        }
        for a in &asks {
            t.say(a.text().as_bytes(), piece, gap);
            if !answer(site, &mut t, a) {
                break;
            }
            if ctx::w(5) == 4 {
                sched::sleep_until(sched::now() + MS * ctx::draw(S::Work, 2000));
            }
        }
    }
}
/// Asks again and again and never waits for an answer.
fn impatient() {
    let k = ctx::range(5, 60);
    for _ in 0..k {
        let Some(mut c) = Client::connect() else { violation!("not-listening", "connection refused") };
        let s = format!("GET {} HTTP/1.1\r\nHost: viewer.test\r\n\r\n", target());
        c.send(s.as_bytes());
        if ctx::draw(S::Fault, 3) == 2 {
            c.send(s.as_bytes());
        }
        match ctx::draw(S::Fault, 4) {
            0 => {}
            1 => sched::sleep_until(sched::now() + 1000 * ctx::draw(S::Fault, 100)),
            2 => sched::sleep_until(sched::now() + MS / 10 * ctx::draw(S::Fault, 100)),
            _ => sched::sleep_until(sched::now() + MS * ctx::draw(S::Fault, 60)),
        }
        c.reset();
    }
    ctx::fault("client that never waits for answers");
}
/// False: the connection is over.
fn answer(site: &Site, t: &mut Talk, a: &Ask) -> bool {
    match t.reply(a.method == "HEAD") {
        Some(r) => {
            a.judge(site, &r);
            ctx::event_num(r.status as u64, r.body.len() as u64);
            ctx::count("answers checked");
            r.whole && !a.close && r.get("connection") != Some("close")
        }
        None if site.hard || site.lossy => false,
        None => violation!("cut-off", "{} {}: the connection ended without an answer although nothing failed", a.method, a.target),
    }
}

pub fn serving() {
    program::quiet();
    interpose::set_cpus(ctx::range(1, 4));
    net::start();
    fs::take_relative_paths();
    let n = net::net();
    n.caps = (*ctx::pick(&[65536usize, 300, 4096]), *ctx::pick(&[1usize << 20, 65536, 2000, 200]));
    let d = fs::fs();
    d.put("/simfs/cwd/secret.txt", b"SECRET beside the directory".to_vec());
    d.put("/simfs/secret.txt", b"SECRET above the directory".to_vec());
    let mut now = Arc::new(site(None, false, false));
    let put = |s: &Site| {
        let d = fs::fs();
        for k in d.list() {
            if k.strip_prefix(ROOT).is_some_and(|k| !s.files.contains_key(k)) {
                d.remove(&k);
            }
        }
        for (k, v) in &s.files {
            let p = format!("{ROOT}{k}");
            if d.get(&p) != Some(v) {
                d.put(&p, v.clone());
            }
        }
    };
    put(&now);
    std::thread::Builder::new().name("server".into()).spawn(|| program::server::run()).unwrap();
    if !net::wait_listener(60_000 * MS) {
        violation!("not-listening", "the server did not start to listen");
    }
    let at = net::listening();
    if at != [(u32::from(std::net::Ipv4Addr::UNSPECIFIED), 3000)] {
        violation!("not-listening", "the server listens on {at:?}, not on port 3000 of every address");
    }
    let phases = ctx::range(1, 3);
    for p in 0..=phases {
        let last = p == phases;
        // without disturbance at first and at last
        let kind = if last { 0 } else { ctx::draw(S::Fault, 4) };
        let hard = kind >= 2;
        let net_faults = !last && ctx::draw(S::Fault, 3) == 2;
        if p > 0 {
            if ctx::w(3) > 0 {
                sched::sleep_until(sched::now() + MS * ctx::draw(S::Work, 100_000));
            }
            now = Arc::new(site(Some(&now), hard, net_faults));
            put(&now);
            ctx::nontrivial();
        } else {
            now = Arc::new(Site { files: now.files.clone(), hard, lossy: net_faults, seen: now.seen.clone() });
        }
        let mut f = Faults::default();
        if kind >= 1 {
            f.eintr = 3 + ctx::draw(S::Fault, 10);
            f.short = 2 + ctx::draw(S::Fault, 6);
            f.slow = if ctx::draw(S::Fault, 2) == 1 { 2 + ctx::draw(S::Fault, 8) } else { 0 };
        }
        if hard {
            match ctx::draw(S::Fault, 6) {
                0 => f.eio_read = 2 + ctx::draw(S::Fault, 6),
                1 => f.open_err = 2 + ctx::draw(S::Fault, 4),
                2 => f.eio_meta = 2 + ctx::draw(S::Fault, 4),
                3 => f.bad_from = Some(ctx::draw(S::Fault, 80_000)),
                4 => f.cut_at = Some(ctx::draw(S::Fault, 80_000)),
                _ => {
                    f.eio_read = 4 + ctx::draw(S::Fault, 20);
                    f.open_err = 4 + ctx::draw(S::Fault, 20);
                    f.eio_meta = 4 + ctx::draw(S::Fault, 20);
                }
            }
        }
        if f.cut_at.is_some() {
            // a shorter file is a different file: the model does not know its length
            f.cut_at = None;
            f.bad_from = Some(ctx::draw(S::Fault, 3000));
        }
        fs::fs().faults = f;
        net::net().faults = if net_faults {
            net::Faults {
                accept_err: 2 + ctx::draw(S::Fault, 6),
                epoll_eintr: 2 + ctx::draw(S::Fault, 20),
                short_recv: 2 + ctx::draw(S::Fault, 6),
                short_send: 2 + ctx::draw(S::Fault, 6),
                late_wake: [0, 5, 20][ctx::draw(S::Fault, 3) as usize],
            }
        } else {
            net::Faults::default()
        };
        ev!("phase {p}: {} files, disk {f:?}, net {:?}", now.files.len(), net::net().faults);
        if kind > 0 || net_faults {
            ctx::nontrivial();
        }
        let k = ctx::range(1, 4);
        let mut hs: Vec<_> = (0..k)
            .map(|_| {
                let s = now.clone();
                std::thread::spawn(move || client(&s))
            })
            .collect();
        if !last && ctx::draw(S::Fault, 4) == 3 {
            hs.push(std::thread::spawn(impatient));
        }
        if k > 1 {
            ctx::count("phases with several clients");
        }
        for h in hs {
            if h.join().is_err() {
                violation!("harness", "a client failed: {}", ctx::shm().panic());
            }
        }
        ctx::state(p as u64 * 100 + k as u64);
    }
    fs::fs().faults = Faults::default();
    net::net().faults = net::Faults::default();
    // whatever is gone is let go of in the end
    let end = sched::now() + 20_000 * MS;
    while fs::fs().open_count() > 0 {
        if sched::now() > end {
            violation!("descriptor-leak", "{} files are still open after all connections have ended", fs::fs().open_count());
        }
        sched::sleep_until(sched::now() + 200 * MS);
    }
}
