//! C07: whatever the history, the HTTP cache only returns what may be returned.
use crate::common::*;
use crate::srv::*;
use posy::verif::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Seek, SeekFrom};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// How the current version of a resource may be re-used.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Reuse {
    /// explicit lifetime of many minutes
    Fresh,
    /// may not be used without asking the server
    Stale,
    /// lifetime of so many seconds from now
    Expires(u64),
    /// up to the implementation
    Either,
    /// no-store
    Never,
}

#[derive(Clone, Debug)]
struct Resource {
    status: u16,
    headers: Vec<(String, String)>,
    reuse: Reuse,
    etag: Option<String>,
    modified: Option<String>,
    vary: Option<&'static str>, // header name, or "*"
    body_len: usize,
    framing: Framing,
    cut: bool,
    location: Option<String>,
    /// headers of a 304 (None: repeats the original ones)
    refreshed: Option<(Vec<(String, String)>, Reuse)>,
}

#[derive(Clone, Debug)]
struct Given {
    id: u64,
    path: String,
    method: String,
    not_modified: bool,
    res: Resource,
    body: Vec<u8>,
    asked: HashMap<String, String>, // lower-case request headers
    at: Instant,
}

#[derive(Default)]
struct World {
    table: HashMap<String, Resource>,
    given: Vec<Given>,
    seq: u64,
}

type Shared = Arc<Mutex<BTreeMap<usize, World>>>;

fn handle(w: &Shared, r: &Req) -> Act {
    // /<thread>/...
    let thread: usize = match r.path()[1..].split('/').next().and_then(|s| s.parse().ok()) {
        Some(t) => t,
        None => return Act::Reply(Reply::new(404, "?")),
    };
    let mut ws = w.lock().unwrap();
    let world = ws.entry(thread).or_default();
    world.seq += 1;
    let id = world.seq;
    let res = match world.table.get(&r.target) {
        Some(x) => x.clone(),
        None => return Act::Reply(Reply::new(404, "unknown")),
    };
    let mut conditional = false;
    if let Some(inm) = r.header("If-None-Match") {
        conditional = res.etag.as_ref().map_or(false, |e| inm.split(',').any(|x| x.trim() == e));
    } else if let Some(ims) = r.header("If-Modified-Since") {
        conditional = res.modified.as_deref() == Some(ims);
    }
    let nm = conditional && res.status == 200;
    let mut body = if res.body_len == 0 { vec![] } else { format!("<<R{thread}.{id}>>").into_bytes() };
    while body.len() < res.body_len {
        body.push((id as usize * 31 + body.len() * 7 % 253) as u8);
    }
    world.given.push(Given {
        id,
        path: r.target.clone(),
        method: r.method.clone(),
        not_modified: nm,
        res: res.clone(),
        body: body.clone(),
        asked: r.headers.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect(),
        at: Instant::now(),
    });
    drop(ws);
    let mut rep = Reply::new(if nm { 304 } else { res.status }, if nm { &b""[..] } else { &body[..] });
    let hs = if nm { res.refreshed.as_ref().map_or(&res.headers, |x| &x.0) } else { &res.headers };
    for (k, v) in hs {
        rep = rep.h(k, v);
    }
    if let Some(e) = &res.etag {
        rep = rep.h("ETag", e);
    }
    if let Some(m) = &res.modified {
        rep = rep.h("Last-Modified", m);
    }
    if let Some(v) = res.vary {
        rep = rep.h("Vary", v);
    }
    if !nm {
        rep = rep.h("X-Resp", &format!("<<R{thread}.{id}>>"));
        if let Some(l) = &res.location {
            rep = rep.h("Location", l);
        }
        rep.framing = res.framing.clone();
        if res.cut && !body.is_empty() {
            rep.framing = Framing::Length; // (cut chunked bodies: see `cut_chunked`)
            rep.cut = Some(body.len() / 2);
        }
    }
    Act::Reply(rep)
}

pub fn http_date(secs: i64) -> String {
    // days/civil conversion, good enough for years around now
    let days = secs.div_euclid(86400);
    let t = secs.rem_euclid(86400);
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + (m <= 2) as i64;
    let wd = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][days.rem_euclid(7) as usize];
    let mon = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize - 1];
    format!("{wd}, {d:02} {mon} {y} {:02}:{:02}:{:02} GMT", t / 3600, t / 60 % 60, t % 60)
}

pub fn now() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64
}

pub fn cache_headers(r: &fastrand::Rng) -> (Vec<(String, String)>, Reuse) {
    let h = |xs: &[(&str, &str)]| xs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    match r.u8(0..22) {
        0 | 1 => (h(&[("Cache-Control", "max-age=3600")]), Reuse::Fresh),
        2 => (h(&[("Cache-Control", "public, max-age=600, must-revalidate")]), Reuse::Fresh),
        3 => (h(&[("cache-control", "max-age=86400, immutable")]), Reuse::Fresh),
        4 => (h(&[("Cache-Control", "max-age=1000"), ("Age", "100")]), Reuse::Fresh),
        5 => (
            vec![("Date".into(), http_date(now())), ("Expires".into(), http_date(now() + 7200))],
            Reuse::Fresh,
        ),
        6 => (h(&[("Cache-Control", "max-age=0")]), Reuse::Stale),
        7 => (h(&[("Cache-Control", "no-cache")]), Reuse::Stale),
        8 => (h(&[("Cache-Control", "max-age=3600, no-cache")]), Reuse::Stale),
        9 => (h(&[("Cache-Control", "max-age=1000"), ("Age", "5000")]), Reuse::Stale),
        10 => (
            vec![("Date".into(), http_date(now())), ("Expires".into(), http_date(now() - 10))],
            Reuse::Stale,
        ),
        11 => (h(&[("Cache-Control", "max-age=0, must-revalidate")]), Reuse::Stale),
        12 => (h(&[]), Reuse::Either),
        13 => (h(&[("Cache-Control", "private, max-age=1000")]), Reuse::Either),
        14 | 15 => (h(&[("Cache-Control", "no-store")]), Reuse::Never),
        16 => (h(&[("Cache-Control", "no-store, max-age=3600")]), Reuse::Never),
        17 => (h(&[("cache-control", "Max-Age=3600, No-Store")]), Reuse::Never),
        18 => (h(&[("Cache-Control", "max-age=3600"), ("Cache-Control", "no-store")]), Reuse::Never),
        19 => (h(&[("Cache-Control", "max-age=2")]), Reuse::Expires(2)),
        20 => (h(&[("Cache-Control", "max-age=1")]), Reuse::Expires(1)),
        _ => (h(&[("Cache-Control", "no-cache, no-store, max-age=0")]), Reuse::Never),
    }
}

fn resource(r: &fastrand::Rng, thread: usize, version: u64, redirect_to: Option<String>) -> Resource {
    let (headers, reuse) = cache_headers(r);
    let refreshed = if r.u8(0..3) == 0 {
        // a 304 may renew the freshness, but not forbid storing
        Some(loop {
            let x = cache_headers(r);
            if x.1 != Reuse::Never {
                break x;
            }
        })
    } else {
        None
    };
    let status = if redirect_to.is_some() {
        *pick(r, &[301, 302, 303, 307, 308])
    } else {
        *pick(r, &[200, 200, 200, 200, 200, 200, 200, 404, 410, 403, 204, 203, 501])
    };
    let mut res = Resource {
        status,
        headers,
        reuse,
        etag: match r.u8(0..4) {
            0 | 1 => Some(format!("\"e{thread}-{version}\"")),
            2 => Some(format!("W/\"w{thread}-{version}\"")),
            _ => None,
        },
        modified: if r.u8(0..3) == 0 { Some(http_date(1_600_000_000 + version as i64 * 1000)) } else { None },
        vary: match r.u8(0..12) {
            0 | 1 => Some("Accept"),
            2 => Some("accept, x-other"),
            3 => Some("*"),
            _ => None,
        },
        body_len: if status == 204 { 0 } else { *pick(r, &[0, 20, 100, 100, 1000, 9000]) },
        framing: pick(r, &[Framing::Length, Framing::Length, Framing::Chunked]).clone(),
        cut: r.u8(0..15) == 0,
        location: redirect_to,
        refreshed,
    };
    if r.u8(0..7) == 0 && res.location.is_none() {
        // always asked again, until a confirmation makes it fresh
        let h = |v: &str| vec![("Cache-Control".to_string(), v.to_string())];
        let (stale, fresh) = (*pick(r, &["max-age=0", "no-cache", "max-age=0, must-revalidate"]), *pick(r, &["max-age=3600", "public, max-age=600"]));
        (res.headers, res.reuse, res.refreshed) = (h(stale), Reuse::Stale, Some((h(fresh), Reuse::Fresh)));
        res.etag = Some(format!("\"e{thread}-{version}\""));
        (res.status, res.vary, res.cut) = (200, None, false);
    }
    res
}

/// What the cache may hold for one (method, URL).
#[derive(Clone, Debug)]
struct Held {
    g: Given,
    reuse: Reuse,
    since: Instant,
    sure: bool, // certainly stored
    // for requests with which Accept it was given or confirmed
    accept: Vec<Option<String>>,
}

fn hdr<'a>(m: &'a HashMap<String, String>, k: &str) -> Option<&'a str> {
    m.get(k).map(|s| s.as_str())
}

pub fn run_(mut c: Ctx) -> ! {
    c.rule = "random histories: resources change their body, status, validators, cache headers, Vary and redirects \
        between requests made in random cache modes with random request headers, by several cache users in a row; each \
        answer is judged against the server's log and a shadow of what the cache may hold. Non-trivial: request \
        (resource state, request headers, mode, whether the server was contacted)."
        .into();
    c.assumptions = vec![
        "Where HTTP leaves re-use to the implementation (heuristic lifetimes, private responses, within a second of expiry) both answers are accepted.".into(),
        "Freshness is judged with headers that put the age far from the lifetime, plus lifetimes of 1-2 s with real waiting.".into(),
    ];
    let w: Shared = Default::default();
    let w2 = w.clone();
    let srv = Server::start(Arc::new(move |r| handle(&w2, r)));
    let port = srv.port;
    let rounds = c.n(20, 400);
    parallel(&mut c, 8, 40, 500, |p| {
        let rng = fastrand::Rng::with_seed(p.rng.u64(..));
        for k in 0..rounds {
            if !p.within() {
                break;
            }
            p.begin("a history of HTTP requests");
            history(p, &rng, &w, port, k);
            p.end();
        }
    });
    redirect_chains(&mut c);
    cut_bodies(&mut c);
    drop(srv);
    c.finish()
}

fn open(dir: &std::path::Path) -> Http {
    Http::new(KVFileStore::new(&dir.join("http")).unwrap(), KVFileStore::new(&dir.join("hashed")).unwrap())
}

/// Tokens of all responses found anywhere in the cache directory.
fn tokens(dir: &std::path::Path, out: &mut BTreeSet<String>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let ft = e.file_type().unwrap();
        if ft.is_dir() {
            tokens(&e.path(), out);
        } else if ft.is_file() {
            let d = std::fs::read(e.path()).unwrap_or_default();
            let mut i = 0;
            while i + 3 < d.len() {
                if &d[i..i + 3] == b"<<R" {
                    if let Some(j) = d[i..].windows(2).take(40).position(|w| w == b">>") {
                        out.insert(String::from_utf8_lossy(&d[i..i + j + 2]).into_owned());
                    }
                    i += 3;
                } else if d[i] == b'<' && d.get(i..i + 3).is_none() {
                    break;
                } else {
                    i += 1;
                }
            }
        }
    }
}

fn history(p: &mut Part, rng: &fastrand::Rng, w: &Shared, port: u16, round: usize) {
    let t = p.thread;
    let dir = scratch();
    let mut https = vec![open(dir.path()), open(dir.path())];
    let paths: Vec<String> = (0..5)
        .map(|i| match i {
            0 => format!("/{t}/{round}/a"),
            1 => format!("/{t}/{round}/a?q=1"),
            2 => format!("/{t}/{round}/a?q=2"),
            3 => format!("/{t}/{round}/A"),
            _ => format!("/{t}/{round}/dir/"),
        })
        .collect();
    let mut version = 0;
    let mut new_version = |rng: &fastrand::Rng, ws: &mut World, i: usize| {
        version += 1;
        // redirects only lead "up", so they always end
        let to = if i + 1 < paths.len() && rng.u8(0..7) == 0 {
            Some(paths[rng.usize(i + 1..paths.len())].clone())
        } else {
            None
        };
        let r = resource(rng, t, version + round as u64 * 1000, to);
        ws.table.insert(paths[i].clone(), r);
    };
    {
        let mut ws = w.lock().unwrap();
        let world = ws.entry(t).or_default();
        world.table.clear();
        world.given.clear();
        for i in 0..paths.len() {
            new_version(rng, world, i);
        }
    }
    let mut held: HashMap<(String, String), Held> = HashMap::new();
    let mut forbidden: BTreeMap<String, &'static str> = BTreeMap::new();
    let mut log: Vec<String> = vec![];
    let steps = 90;
    for step in 0..steps {
        let i = if rng.bool() { 0 } else { rng.usize(..paths.len()) };
        match rng.u8(0..12) {
            0..=2 => {
                let mut ws = w.lock().unwrap();
                new_version(rng, ws.get_mut(&t).unwrap(), i);
                log.push(format!("{} changes: {:?}", paths[i], ws[&t].table[&paths[i]]));
                continue;
            }
            3 if step % 3 == 0 => {
                https[rng.usize(..2)] = open(dir.path());
                continue;
            }
            4 if held.values().any(|h| matches!(h.reuse, Reuse::Expires(_))) && rng.u8(0..4) == 0 => {
                std::thread::sleep(Duration::from_millis(*pick(rng, &[1100, 3200])));
                log.push("time passes".into());
                continue;
            }
            _ => {}
        }
        let http = &https[rng.usize(..2)];
        let mode = *pick(rng, &[CacheMode::Default, CacheMode::Default, CacheMode::Default, CacheMode::OnlyIfCached, CacheMode::NoStore]);
        let method = if rng.u8(0..8) == 0 { "HEAD" } else { "GET" };
        let accept = match rng.u8(0..4) {
            0 => Some("text/html"),
            1 => Some("application/json"),
            _ => None,
        };
        let cc = match rng.u8(0..12) {
            0 => Some("max-age=0"),
            1 => Some("no-cache"),
            _ => None,
        };
        let mut b = http::Request::builder().method(method).uri(format!("http://127.0.0.1:{port}{}", paths[i]));
        if let Some(a) = accept {
            b = b.header("Accept", a);
        }
        if let Some(cc) = cc {
            b = b.header("Cache-Control", cc);
        }
        let req = b.body(()).unwrap();
        let before = w.lock().unwrap()[&t].given.len();
        let asked_at = Instant::now();
        let mut seekable = None;
        let out = run(|| -> eyre::Result<(u16, String, Vec<u8>, String)> {
            let mut r = http.request(req, mode)?;
            let mut body = vec![];
            r.body_mut().read_to_end(&mut body)?;
            let tok = r.headers().get("x-resp").map_or(String::new(), |v| v.to_str().unwrap_or("").into());
            let url = r.extensions().get::<url::Url>().map_or(String::new(), |u| u.to_string());
            let st = r.status().as_u16();
            if let ReadPlusMaybeSeek::CanSeek(f) = r.into_body() {
                seekable = Some(f);
            }
            Ok((st, tok, body, url))
        });
        let given: Vec<Given> = w.lock().unwrap()[&t].given[before..].to_vec();
        log.push(format!(
            "{method} {} accept={accept:?} cc={cc:?} {mode:?} -> {} server gave {:?}",
            paths[i],
            match &out {
                Out::Ok((s, tok, b, _)) => format!("{s} {tok} {} bytes", b.len()),
                o => o.describe(),
            },
            given.iter().map(|g| format!("{}:{}{}", g.path, g.id, if g.not_modified { " 304" } else { "" })).collect::<Vec<_>>()
        ));
        let show = |log: &Vec<String>| log.iter().rev().take(14).rev().cloned().collect::<Vec<_>>().join("\n");
        if out.is_panic() {
            p.violate("panic", show(&log));
            return;
        }
        if mode == CacheMode::OnlyIfCached && !given.is_empty() {
            p.violate("cache-only-contacts-server", show(&log));
            return;
        }
        // ---- follow the chain in the shadow
        let mut cur = paths[i].clone();
        let mut gi = given.iter().peekable();
        let mut verdict: Option<(&str, String)> = None;
        let mut expected: Option<Given> = None; // the response the caller must see
        let mut not_cached = false;
        let mut broken = false; // the body was cut: an error is right
        let mut contacted = false;
        loop {
            let key = (method.to_string(), cur.clone());
            let h = held.get(&key).cloned();
            let vary_ok = |h: &Held| match h.g.res.vary {
                None => true,
                Some("*") => false,
                Some(_) => h.accept.iter().any(|a| a.as_deref() == accept),
            };
            // may / must the held response be used without asking?
            let (may, must) = match &h {
                None => (false, false),
                Some(h) => {
                    let age = asked_at.saturating_duration_since(h.since).as_secs_f64();
                    let ok = vary_ok(h) && cc.is_none();
                    match h.reuse {
                        Reuse::Never | Reuse::Stale => (false, false),
                        Reuse::Fresh => (ok, ok && h.sure),
                        Reuse::Either => (ok, false),
                        Reuse::Expires(n) => (ok && age < n as f64 + 1.0, false),
                    }
                }
            };
            let next_is_cur = gi.peek().map_or(false, |g| g.path == cur && g.method == method);
            let resp: Given;
            if mode != CacheMode::NoStore && !next_is_cur {
                // not asked: served from the cache, or an error
                match (&out, &h) {
                    (Out::Err(_), _) if mode == CacheMode::OnlyIfCached && !must => {
                        not_cached = true;
                        break;
                    }
                    (Out::Err(e), _) if mode == CacheMode::OnlyIfCached => {
                        verdict = Some(("cached-but-not-served", format!("{cur}: {e}")));
                        break;
                    }
                    (_, Some(h)) if may => resp = h.g.clone(),
                    (Out::Ok(_), _) => {
                        verdict = Some(("served-without-asking", format!("{cur} must be asked for; held {h:?}")));
                        break;
                    }
                    (Out::Err(e), _) => {
                        verdict = Some(("failed-without-asking", format!("{cur}: {e}; held {h:?}")));
                        break;
                    }
                    (Out::Panic(_), _) => unreachable!(),
                }
            } else {
                let g = match gi.next() {
                    Some(g) if g.path == cur => g,
                    g => {
                        verdict = Some(("unexpected-request", format!("expected a request for {cur}, server saw {:?}", g.map(|g| &g.path))));
                        break;
                    }
                };
                contacted = true;
                let conditional = hdr(&g.asked, "if-none-match").is_some() || hdr(&g.asked, "if-modified-since").is_some();
                if mode == CacheMode::NoStore {
                    if conditional {
                        verdict = Some(("nostore-reads-cache", format!("{cur} was asked for conditionally")));
                        break;
                    }
                    forbidden.insert(format!("<<R{t}.{}>>", g.id), "given to a no-store request");
                    resp = g.clone();
                } else {
                    if must {
                        verdict = Some(("fresh-but-asked", format!("{cur}; held {h:?}")));
                        break;
                    }
                    if let Some(h) = &h {
                        if h.sure && vary_ok(h) && method == "GET" && h.g.res.status == 200 {
                            if let Some(e) = &h.g.res.etag {
                                if hdr(&g.asked, "if-none-match").map_or(true, |x| !x.contains(e.as_str())) {
                                    verdict = Some(("not-revalidated", format!("{cur}: stored ETag {e}, asked with {:?}", g.asked)));
                                    break;
                                }
                                p.count("revalidated with the stored ETag", 1);
                            }
                        }
                    }
                    if g.not_modified {
                        match &h {
                            None => {
                                verdict = Some(("conditional-without-entry", format!("{cur} asked with {:?}", g.asked)));
                                break;
                            }
                            Some(h) => {
                                let mut h = h.clone();
                                if let Some(x) = &g.res.refreshed {
                                    // whether the new headers replace or join the old ones is left open
                                    // (http_cache_semantics drops new headers, e.g. Age)
                                    let same = |(k, _): &(String, String)| h.g.res.headers.iter().any(|(j, _)| j.eq_ignore_ascii_case(k));
                                    let known = x.0.iter().all(same) && !h.g.res.headers.iter().any(|(k, _)| k == "Expires" || k == "Age");
                                    h.reuse = if known && x.1 == Reuse::Stale && h.reuse == Reuse::Stale { x.1 } else { Reuse::Either };
                                } else {
                                    h.reuse = g.res.reuse;
                                }
                                h.since = Instant::now();
                                // An answer that only has a max-age, and is confirmed with a longer one,
                                // is fresh from then on.
                                let plain = |hs: &[(String, String)]| hs.len() == 1 && hs[0].0.eq_ignore_ascii_case("Cache-Control");
                                h.sure = method == "GET"
                                    && h.g.res.status == 200
                                    && h.g.res.vary.is_none()
                                    && g.res.vary.is_none()
                                    && plain(&h.g.res.headers)
                                    && g.res.refreshed.as_ref().map_or(false, |x| plain(&x.0) && x.1 == Reuse::Fresh)
                                    && !h.g.res.cut;
                                if h.sure {
                                    p.count("304 answers that make the entry fresh", 1);
                                    h.reuse = Reuse::Fresh;
                                }
                                h.accept.push(accept.map(|s| s.to_string()));
                                resp = h.g.clone();
                                p.count("304 answers", 1);
                                held.insert(key.clone(), h);
                            }
                        }
                    } else {
                        resp = g.clone();
                        if g.res.reuse == Reuse::Never {
                            forbidden.insert(format!("<<R{t}.{}>>", g.id), "no-store response");
                        }
                        if g.res.cut && method == "GET" && !g.body.is_empty() {
                            // the old entry may have survived, but nothing is certain
                            if let Some(h) = held.get_mut(&key) {
                                h.sure = false;
                                if h.reuse == Reuse::Fresh {
                                    h.reuse = Reuse::Either;
                                }
                            }
                            forbidden.insert(format!("<<R{t}.{}>>", g.id), "incomplete response");
                        } else {
                            held.insert(
                                key.clone(),
                                Held {
                                    g: g.clone(),
                                    reuse: g.res.reuse,
                                    since: g.at,
                                    sure: g.res.reuse != Reuse::Never && g.res.reuse != Reuse::Either
                                        && g.res.status == 200 && g.res.vary != Some("*"),
                                    accept: vec![accept.map(|s| s.to_string())],
                                },
                            );
                        }
                    }
                }
            }
            if resp.res.cut && !resp.body.is_empty() && method == "GET" && !resp.not_modified {
                broken = true;
                // a redirect with a broken body may or may not be followed
                if resp.res.location.is_some() {
                    match gi.peek() {
                        Some(_) => {}
                        None => {
                            if out.is_ok() {
                                // followed into the cache
                            } else {
                                break;
                            }
                        }
                    }
                }
            }
            if let Some(to) = &resp.res.location {
                if (300..400).contains(&resp.res.status) {
                    cur = to.clone();
                    p.count("redirects followed", 1);
                    if broken && resp.res.location.is_some() {
                        broken = false;
                    }
                    continue;
                }
            }
            expected = Some(resp);
            break;
        }
        if verdict.is_none() {
            if let Some(g) = gi.next() {
                verdict = Some(("unexpected-request", format!("{}", g.path)));
            }
        }
        if verdict.is_none() {
            verdict = match (&out, &expected) {
                (Out::Err(e), _) if not_cached => {
                    p.count("not cached", 1);
                    if e.contains("OnlyIfCached") { None } else { Some(("wrong-error", e.clone())) }
                }
                (Out::Err(_), _) if broken => {
                    p.count("cut bodies reported", 1);
                    None
                }
                (Out::Err(e), _) => Some(("request-failed", e.clone())),
                (Out::Ok(_), Some(g)) if broken && !g.body.is_empty() => {
                    Some(("cut-body-accepted", format!("response {}", g.id)))
                }
                (Out::Ok((st, tok, body, url)), Some(g)) => {
                    let want_body: &[u8] = if method == "HEAD" { b"" } else { &g.body };
                    if *st != g.res.status {
                        Some(("wrong-status", format!("expected {}, got {st}", g.res.status)))
                    } else if body != want_body {
                        Some(("wrong-body", format!("expected {} bytes of response {}, got {} bytes {}", want_body.len(), g.id, body.len(), truncate(&String::from_utf8_lossy(body), 60))))
                    } else if *tok != format!("<<R{t}.{}>>", g.id) {
                        Some(("wrong-headers", format!("expected those of response {}, got {tok}", g.id)))
                    } else if !url.ends_with(&cur) {
                        Some(("wrong-final-url", format!("expected {cur}, got {url}")))
                    } else {
                        None
                    }
                }
                (o, None) => Some(("unexplained", o.describe())),
                (Out::Panic(_), _) => unreachable!(),
            };
        }
        if let Some((sig, d)) = verdict {
            p.violate(sig, format!("{d}\n\nlast steps:\n{}", show(&log)));
            return;
        }
        if let (Some(mut f), Out::Ok((_, _, body, _))) = (seekable, &out) {
            p.count("seekable bodies", 1);
            if let Some(d) = seek_test(rng, &mut *f, body) {
                p.violate("cached-body-seek", format!("{d}\n{}", show(&log)));
                return;
            }
        }
        p.count(&format!("{mode:?} {}", if contacted { "asked the server" } else if not_cached { "not cached" } else { "from the cache" }), 1);
        let e = expected.as_ref();
        p.case(
            (method, accept, cc, format!("{mode:?}"), contacted, e.map(|g| (g.res.status, g.res.reuse, g.res.vary, g.res.etag.is_some(), g.res.modified.is_some(), g.body.len())), held.len(), given.len()),
            true,
        );
        if step == 40 && round < 2 {
            p.sample(json!({"steps": log.iter().rev().take(4).collect::<Vec<_>>()}));
        }
    }
    let mut found = BTreeSet::new();
    tokens(dir.path(), &mut found);
    p.count("responses found on disk", found.len() as u64);
    p.count("responses that must not be on disk", forbidden.len() as u64);
    for f in &found {
        if let Some(why) = forbidden.get(f) {
            p.violate("stored-on-disk", format!("{f}: {why}, but it is in the cache directory\n{}", log.iter().rev().take(30).rev().cloned().collect::<Vec<_>>().join("\n")));
            break;
        }
    }
}

/// Any pattern of seeks and reads gives the bytes of the body.
pub fn seek_test<F: Read + Seek + ?Sized>(rng: &fastrand::Rng, f: &mut F, body: &[u8]) -> Option<String> {
    let len = body.len() as i64;
    let mut pos: i64;
    match f.seek(SeekFrom::Start(0)) {
        Ok(0) => pos = 0,
        o => return Some(format!("rewind: {o:?}")),
    }
    let mut trace = vec![];
    for _ in 0..rng.usize(1..8) {
        let goal = *pick(rng, &[0, len, len / 2, (len - 1).max(0), rng.i64(0..=len), rng.i64(0..=len)]);
        let s = match rng.u8(0..3) {
            0 => SeekFrom::Start(goal as u64),
            1 => SeekFrom::End(goal - len),
            _ => SeekFrom::Current(goal - pos),
        };
        trace.push(format!("{s:?}"));
        match f.seek(s) {
            Ok(g) if g as i64 == goal => pos = goal,
            o => return Some(format!("{} bytes, {trace:?}: expected {goal}, got {o:?}", body.len())),
        }
        if rng.u8(0..4) == 0 {
            let s = *pick(rng, &[SeekFrom::Current(-pos - 1), SeekFrom::End(-len - 1), SeekFrom::Current(i64::MIN + 1)]);
            if let Ok(g) = f.seek(s) {
                return Some(format!("{} bytes, {trace:?}: {s:?} gave {g}", body.len()));
            }
        }
        if rng.u8(0..4) == 0 {
            // past the end: either refused, or there is nothing there
            let goal = len + *pick(rng, &[1i64, 2, 100, 1 << 40]);
            let s = *pick(rng, &[SeekFrom::Start(goal as u64), SeekFrom::Current(goal - pos), SeekFrom::End(goal - len)]);
            trace.push(format!("{s:?}"));
            if let Ok(g) = f.seek(s) {
                let mut b = [0u8; 8];
                let got = f.read(&mut b);
                if g as i64 != goal || !matches!(got, Ok(0)) {
                    return Some(format!("{} bytes, {trace:?}: position {g}, read gave {got:?}", body.len()));
                }
                match f.seek(SeekFrom::Start(pos as u64)) {
                    Ok(g) if g as i64 == pos => {}
                    o => return Some(format!("{} bytes, {trace:?}: back to {pos}: {o:?}", body.len())),
                }
            }
        }
        match f.stream_position() {
            Ok(g) if g as i64 == pos => {}
            o => return Some(format!("{} bytes, {trace:?}: position is {o:?}", body.len())),
        }
        let n = *pick(rng, &[0usize, 1, 10, 500, 20_000]);
        let mut v = vec![];
        trace.push(format!("read {n}"));
        match (&mut *f).take(n as u64).read_to_end(&mut v) {
            Ok(_) => {}
            Err(e) => return Some(format!("{} bytes, {trace:?}: {e}", body.len())),
        }
        let want = &body[pos as usize..(pos as usize + n).min(body.len())];
        if v != want {
            return Some(format!("{} bytes, {trace:?}: wrong bytes", body.len()));
        }
        pos += v.len() as i64;
    }
    None
}

/// Bodies that end too early are errors, and are not stored.
fn cut_bodies(c: &mut Ctx) {
    let srv = Server::start(Arc::new(|r: &Req| {
        // /<framing>/<cut>
        let mut it = r.path()[1..].split('/');
        let framing = it.next().unwrap_or("");
        let cut: usize = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
        let mut rep = Reply::new(200, vec![b'x'; 3000]).h("Cache-Control", "max-age=1000");
        if framing == "chunked" {
            rep.framing = Framing::Chunked;
        }
        rep.cut = Some(cut);
        rep.reset = cut % 2 == 1;
        Act::Reply(rep)
    }));
    // three chunks of 1001, 1001 and 998 bytes, each with a size line (5) and a line end (2)
    let ends = [1008usize, 2016, 3021];
    for framing in ["length", "chunked"] {
        for cut in [0, 1, 2, 4, 5, 6, 500, 1005, 1006, 1007, 1008, 1010, 1013, 1500, 2014, 2016, 2021, 2900, 2999, 3018, 3019, 3020, 3021, 3022, 3024] {
            if framing == "length" && cut >= 3000 {
                continue;
            }
            let dir = scratch();
            let http = open(dir.path());
            let ask = |mode| {
                run(|| -> eyre::Result<usize> {
                    let req = http::Request::builder().uri(srv.url(&format!("/{framing}/{cut}"))).body(())?;
                    let mut v = vec![];
                    Ok(http.request(req, mode)?.into_body().read_to_end(&mut v)?)
                })
            };
            let inside_chunk = framing == "chunked" && {
                let start = ends.iter().rev().find(|e| **e <= cut).copied().unwrap_or(0);
                let data = if start == 2016 { 998 } else { 1001 };
                start < 3021 && cut >= start + 5 && cut < start + 5 + data
            };
            let sig = if inside_chunk { "cut-inside-chunk-accepted".to_string() } else { format!("cut-body-accepted-{framing}") };
            for mode in [CacheMode::NoStore, CacheMode::Default] {
                let got = ask(mode);
                c.case(("cut", framing, cut, format!("{mode:?}")), true);
                c.count("cut bodies", 1);
                match got {
                    // a reset may overtake the data, an error is always right
                    Out::Err(_) => {
                        if let Out::Ok(n) = ask(CacheMode::OnlyIfCached) {
                            c.violate("cut-body-stored", format!("{framing} body of 3000 bytes cut after {cut}: {n} bytes are in the cache"));
                        }
                    }
                    Out::Ok(3000) if framing == "chunked" && cut >= 3019 => {}
                    Out::Ok(n) => c.violate(&sig, format!("a body with {framing} framing that was cut off after {n} of 3000 bytes is taken for complete ({mode:?})")),
                    Out::Panic(m) => c.violate("cut-body-panic", m),
                }
            }
        }
    }
}

/// At most five redirects are followed in a row.
fn redirect_chains(c: &mut Ctx) {
    let srv = Server::start(Arc::new(|r: &Req| {
        let mut it = r.path()[1..].split('/');
        let n: u32 = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
        let style = it.next().unwrap_or("").to_string();
        if r.path() == "/cycle" {
            return Act::Reply(Reply::redirect(302, "/cycle"));
        }
        if r.path() == "/noloc" {
            return Act::Reply(Reply::new(302, "no location"));
        }
        if n == 0 {
            return Act::Reply(Reply::new(200, "done").h("Cache-Control", if style == "cached" { "max-age=1000" } else { "no-store" }));
        }
        let mut rep = Reply::redirect([301, 302, 303, 307, 308][n as usize % 5], &format!("/{}/{style}", n - 1));
        if style == "cached" {
            rep = rep.h("Cache-Control", "max-age=1000");
        }
        Act::Reply(rep)
    }));
    let dir = scratch();
    let http = open(dir.path());
    for mode in [CacheMode::NoStore, CacheMode::Default] {
        for style in ["plain", "cached"] {
            for n in 0..9u32 {
                for again in 0..2 {
                    srv.take();
                    let req = http::Request::builder().uri(srv.url(&format!("/{n}/{style}"))).body(()).unwrap();
                    let got = run(|| -> eyre::Result<String> {
                        let r = http.request(req, mode)?;
                        let mut s = format!("{} ", r.status().as_u16());
                        r.into_body().read_to_string(&mut s)?;
                        Ok(s)
                    });
                    let seen = srv.count();
                    let bad = match &got {
                        Out::Ok(s) => n > 5 || s != "200 done",
                        Out::Err(_) => n <= 5,
                        Out::Panic(_) => true,
                    } || seen > 6
                        || (again == 1 && style == "cached" && mode == CacheMode::Default && n <= 5 && seen > 0);
                    if bad {
                        c.violate("redirect-chain", format!("{n} redirects ({style}, {mode:?}, repeat {again}): {}, {seen} requests", match &got { Out::Ok(s) => s.clone(), o => o.describe() }));
                    }
                    c.case(("chain", n, style, format!("{mode:?}"), again), true);
                    c.count("redirect chains", 1);
                }
            }
        }
        for path in ["/cycle", "/noloc"] {
            srv.take();
            let req = http::Request::builder().uri(srv.url(path)).body(()).unwrap();
            let got = run(|| http.request(req, mode).map(|r| r.status().as_u16()));
            let bad = match (&got, path) {
                (Out::Err(_), "/cycle") => srv.count() > 6,
                (Out::Ok(302), "/noloc") | (Out::Err(_), "/noloc") => srv.count() != 1,
                _ => true,
            };
            if bad {
                c.violate("redirect-special", format!("{path} {mode:?}: {} after {} requests", got.describe(), srv.count()));
            }
        }
    }
}
