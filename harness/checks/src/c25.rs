//! C25: transient failures are retried a bounded number of times, nothing else is.
use crate::common::*;
use crate::srv::*;
use posy::verif::*;
use serde_json::json;
use std::collections::{HashMap, VecDeque};
use std::io::Read;
use std::net::TcpListener;
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// what posy documents (src/package_db/http/ureq_glue.rs) as retryable
const RETRYABLE: [u16; 4] = [500, 503, 520, 527];
/// never to be retried: success, redirects, client errors
const FINAL: [u16; 22] = [200, 201, 203, 204, 206, 300, 301, 302, 304, 307, 400, 401, 403, 404, 405, 408, 409, 410, 416, 418, 429, 451];
/// failures the client survives within its budget
const BUDGET: usize = 5;

#[derive(Clone, Debug, PartialEq)]
enum Say {
    Status(u16),
    Redirect(u16),
    Hangup,
    Partial, // cut inside the head
    Garbage,
    Stall, // longer than the read timeout
    Slow,  // slowly, but steadily
}

impl Say {
    fn transient(&self) -> bool {
        matches!(self, Say::Hangup | Say::Stall) || matches!(self, Say::Status(s) if RETRYABLE.contains(s))
    }
    fn unclear(&self) -> bool {
        matches!(self, Say::Partial | Say::Garbage)
            || matches!(self, Say::Status(s) if *s >= 500 && !RETRYABLE.contains(s))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Via {
    Get,
    GetStale, // something stale is in the cache, the failure happens while revalidating
    Head,
    NoStore,
    Hashed,
    Index,
    Lazy,
}

struct Script {
    say: VecDeque<Say>,
    given: Vec<(Say, Instant)>,
    via: Via,
}
type Table = Arc<Mutex<HashMap<String, Script>>>;

const PAGE: &str = r#"<html><head><title>x</title></head><body><a href="foo-1.0.zip">foo-1.0.zip</a></body></html>"#;
const DATA: &[u8] = b"these are the bytes of the artifact";

fn body(say: &Say, via: Via, n: usize) -> Vec<u8> {
    match (say, via) {
        (Say::Status(200) | Say::Slow, Via::Hashed | Via::Lazy) => DATA.to_vec(),
        (Say::Status(200) | Say::Slow, Via::Index) => PAGE.into(),
        _ => format!("answer {n} to this request {}", "x".repeat(n % 2 * 3000)).into_bytes(),
    }
}

fn handle(t: &Table, r: &Req) -> Act {
    let mut it = r.path()[1..].split('/');
    let id = it.next().unwrap_or("").to_string();
    let mut t = t.lock().unwrap();
    let s = match t.get_mut(&id) {
        Some(s) => s,
        None => return Act::Reply(Reply::new(404, "no")),
    };
    let say = if s.say.len() > 1 { s.say.pop_front().unwrap() } else { s.say[0].clone() };
    let n = s.given.len();
    s.given.push((say.clone(), Instant::now()));
    let via = s.via;
    drop(t);
    let hop: usize = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    let mut rep = match &say {
        Say::Status(s) => Reply::new(*s, body(&say, via, n)),
        Say::Redirect(s) => Reply::redirect(*s, &format!("/{id}/{}/", hop + 1)),
        Say::Hangup => return Act::Hangup,
        Say::Partial => return Act::Raw(b"HTTP/1.1 200 OK\r\nContent-Le".to_vec()),
        Say::Garbage => return Act::Raw(b"NICE/9 hello\r\n\r\n".to_vec()),
        Say::Stall => {
            std::thread::sleep(Duration::from_secs(16));
            return Act::Hangup;
        }
        Say::Slow => {
            let mut r = Reply::new(200, body(&say, via, n));
            r.dribble = Some((r.body.len() / 12 + 1, Duration::from_millis(60)));
            r.delay = Duration::from_millis(300);
            r
        }
    };
    rep = rep.h("X-Attempt", &n.to_string());
    if via == Via::Index {
        rep = rep.h("Content-Type", "text/html");
    }
    if !matches!(say, Say::Redirect(_)) && via == Via::Get {
        rep = rep.h("Cache-Control", "max-age=500");
    }
    Act::Reply(rep)
}

fn open(dir: &Path) -> Http {
    Http::new(KVFileStore::new(&dir.join("http")).unwrap(), KVFileStore::new(&dir.join("by-hash")).unwrap())
}

#[derive(Debug)]
struct Got {
    status: u16,
    attempt: Option<usize>,
    body: Vec<u8>,
}

fn ask(http: &Http, url: &str, via: Via) -> Out<Got> {
    let plain = |method: &str, mode| -> eyre::Result<Got> {
        let r = http.request(http::Request::builder().method(method).uri(url).body(())?, mode)?;
        let status = r.status().as_u16();
        let attempt = r.headers().get("X-Attempt").and_then(|v| v.to_str().ok()?.parse().ok());
        let mut body = vec![];
        r.into_body().read_to_end(&mut body)?;
        Ok(Got { status, attempt, body })
    };
    run(|| -> eyre::Result<Got> {
        Ok(match via {
            Via::Get | Via::GetStale => plain("GET", CacheMode::Default)?,
            Via::Head => plain("HEAD", CacheMode::Default)?,
            Via::NoStore => plain("GET", CacheMode::NoStore)?,
            Via::Hashed => {
                let hash = ArtifactHash::from_hex("sha256", &sha256_hex(DATA))?;
                let mut body = vec![];
                http.get_hashed(&url.try_into()?, Some(&hash), CacheMode::Default)?.read_to_end(&mut body)?;
                Got { status: 200, attempt: None, body }
            }
            Via::Index => match fetch_simple_api(http, &url.try_into()?)? {
                None => Got { status: 404, attempt: None, body: vec![] },
                Some(pi) => Got { status: 200, attempt: None, body: if pi.artifacts.len() == 1 { PAGE.into() } else { vec![] } },
            },
            Via::Lazy => {
                let ai = ArtifactInfo {
                    name: "foo-1.0.zip".try_into()?,
                    url: url.try_into()?,
                    hash: Some(ArtifactHash::from_hex("sha256", &sha256_hex(DATA))?),
                    requires_python: None,
                    dist_info_metadata: Default::default(),
                    yanked: Default::default(),
                };
                let mut body = vec![];
                http.get_lazy(&ai)?.read_to_end(&mut body)?;
                Got { status: 200, attempt: None, body }
            }
        })
    })
}

fn gen_transient(rng: &fastrand::Rng) -> Say {
    match rng.u8(0..6) {
        0 => Say::Hangup,
        _ => Say::Status(*pick(rng, &RETRYABLE)),
    }
}

fn case(p: &mut Part, srv: &Server, table: &Table, i: usize) {
    let rng = fastrand::Rng::with_seed(p.rng.u64(..));
    let id = format!("t{}-{i}", p.thread);
    let via = *pick(&rng, &[Via::Get, Via::Get, Via::NoStore, Via::Head, Via::Hashed, Via::Index, Via::Lazy, Via::GetStale]);
    // ---- k transient failures, then something; per redirect hop
    let mut say: Vec<Say> = vec![];
    let k = match rng.u8(0..10) {
        0 => 0,
        1..=4 => rng.usize(1..3),
        5 | 6 => 3,
        7 => 4,
        8 => 5,
        _ => 7,
    };
    let stall = p.thread == 0 && i == 0;
    say.extend((0..k).map(|_| gen_transient(&rng)));
    if stall {
        say = vec![Say::Stall];
    }
    let mut k = say.len();
    let mut judged = true;
    if via != Via::Lazy && chance(&rng, 25) && k <= 3 {
        // a redirect after the failures; the next hop has its own failures
        say.push(Say::Redirect(*pick(&rng, &[301, 302, 307])));
        k = rng.usize(0..3);
        say.extend((0..k).map(|_| gen_transient(&rng)));
    }
    if chance(&rng, 12) && k < BUDGET {
        let s = match rng.u8(0..3) {
            0 => Say::Partial,
            1 => Say::Garbage,
            _ => Say::Status(*pick(&rng, &[501, 502, 504, 505, 599])),
        };
        judged = false;
        let at = rng.usize(0..say.len() + 1);
        say.insert(at, s);
    }
    say.push(match rng.u8(0..10) {
        0..=4 => Say::Status(200),
        5 => Say::Slow,
        6 => Say::Status(404),
        _ => Say::Status(*pick(&rng, &FINAL)),
    });
    let last = say.last().unwrap().clone();
    // a redirect status without a Location is given to the caller as it is
    let dir = scratch();
    let http = open(dir.path());
    let url = srv.url(&format!("/{id}/0/"));
    let s = Script { say: [Say::Status(200)].into(), given: vec![], via };
    table.lock().unwrap().insert(id.clone(), s);
    if via == Via::GetStale {
        let _ = ask(&http, &url, via); // stored without a lifetime
    }
    {
        let mut t = table.lock().unwrap();
        let s = t.get_mut(&id).unwrap();
        s.say = say.clone().into();
        s.given.clear();
    }
    let t0 = Instant::now();
    let got = ask(&http, &url, via);
    let took = t0.elapsed();
    let given = table.lock().unwrap().remove(&id).unwrap().given;
    let what = format!("{via:?}: server says {say:?}; it was asked {} times over {took:?}", given.len());
    let desc = match &got {
        Out::Ok(g) => format!("{} (answer {:?}) {}", g.status, g.attempt, truncate(&String::from_utf8_lossy(&g.body), 60)),
        o => o.describe(),
    };
    if let Out::Panic(m) = &got {
        p.violate("panic", format!("{what}: {m}"));
    }
    // ---- attempts: the trace the server saw
    // (a lazy reader may add requests of its own after the first answer)
    let mut tail = 0; // transient failures in a row
    for (j, w) in given.windows(2).enumerate() {
        let gap = w[1].1 - w[0].1;
        let prev = &w[0].0;
        if let Say::Status(s) = prev {
            if FINAL.contains(s) && via != Via::Lazy {
                p.violate("retried-final", format!("{what}: asked again after a {s}"));
            }
            // pauses: 250 ms and more; hang-ups may be repeated at once on a stale pooled connection
            if RETRYABLE.contains(s) && gap < Duration::from_millis(120) {
                p.violate("no-pause", format!("{what}: only {gap:?} between attempts {j} and {}", j + 1));
            }
        }
        tail = if prev.transient() || prev.unclear() { tail + 1 } else { 0 };
        if tail > 3 * BUDGET {
            p.violate("unbounded", what.clone());
        }
    }
    if took > Duration::from_secs(100) && !stall {
        p.violate("takes-for-ever", what.clone());
    }
    // ---- the result
    if judged {
        let survives = k <= BUDGET;
        if survives && given.len() < say.len() && !(via == Via::Lazy && last.transient()) {
            p.violate("gave-up", format!("{what}: {desc}"));
        } else if survives {
            match (&got, &last) {
                (Out::Ok(g), Say::Status(200) | Say::Slow) => {
                    let n = say.len() - 1;
                    let right = match via {
                        Via::Hashed | Via::Lazy => g.body == DATA,
                        Via::Index => g.body == PAGE.as_bytes(),
                        Via::Head => g.status == 200 && g.attempt == Some(n) && g.body.is_empty(),
                        _ => g.status == 200 && g.attempt == Some(n) && g.body == body(&last, via, n),
                    };
                    if !right {
                        p.violate("wrong-response", format!("{what}: {desc}"));
                    }
                    p.count("recovered", (say.len() > 1) as u64);
                    if via == Via::Get && !say.iter().any(|s| matches!(s, Say::Redirect(_))) {
                        // and what was kept is that response, too
                        let again = ask(&http, &url, via);
                        match &again {
                            Out::Ok(a) if a.attempt == g.attempt && a.body == g.body => {}
                            o => p.violate("wrong-response-kept", format!("{what}: later {}", o.describe())),
                        }
                    }
                }
                (Out::Ok(g), Say::Status(s)) if matches!(via, Via::Get | Via::GetStale | Via::Head | Via::NoStore) => {
                    let revalidated = *s == 304 && via == Via::GetStale;
                    if !revalidated && (g.status != *s || g.attempt != Some(say.len() - 1)) {
                        p.violate("wrong-response", format!("{what}: {desc}"));
                    }
                }
                (Out::Err(_), Say::Status(200) | Say::Slow) => p.violate("recovered-but-failed", format!("{what}: {desc}")),
                (Out::Err(_), Say::Status(_)) if matches!(via, Via::Get | Via::GetStale | Via::Head | Via::NoStore) => {
                    p.violate("answer-lost", format!("{what}: {desc}"))
                }
                (Out::Ok(g), Say::Status(s)) if via == Via::Hashed && g.body != DATA => {
                    p.violate("wrong-response", format!("{what}: {s}: {desc}"))
                }
                _ => {}
            }
        } else {
            // more failures than the budget: either the client is more patient than
            // documented (then it must have got the final answer) or the failure shows
            if given.len() < BUDGET + 1 {
                p.violate("gave-up", format!("{what}: {desc}"));
            }
            if let Out::Ok(g) = &got {
                if given.len() < say.len() && !RETRYABLE.contains(&g.status) {
                    p.violate("failure-hidden", format!("{what}: {desc}"));
                }
            }
            p.count("gave up after the budget", 1);
        }
    }
    p.count(&format!("via {via:?}"), 1);
    p.count("attempts seen by the server", given.len() as u64);
    p.case((format!("{say:?}"), via), say.len() > 1);
    if i % 9 == 1 {
        p.sample(json!({"server": format!("{say:?}"), "via": format!("{via:?}"), "attempts": given.len(), "seconds": took.as_secs_f64(), "result": truncate(&desc, 120)}));
    }
}

/// Failing for ever: bounded.
fn for_ever(p: &mut Part, srv: &Server, table: &Table, i: usize) {
    let rng = fastrand::Rng::with_seed(p.rng.u64(..));
    let id = format!("e{}-{i}", p.thread);
    let via = *pick(&rng, &[Via::Get, Via::Head, Via::NoStore, Via::Hashed, Via::Index, Via::Lazy, Via::GetStale]);
    let say = gen_transient(&rng);
    table.lock().unwrap().insert(id.clone(), Script { say: [say.clone()].into(), given: vec![], via });
    let dir = scratch();
    let http = open(dir.path());
    let got = ask(&http, &srv.url(&format!("/{id}/0/")), via);
    let given = table.lock().unwrap().remove(&id).unwrap().given;
    let what = format!("{via:?}: server always says {say:?}; asked {} times: {}", given.len(), match &got { Out::Ok(g) => g.status.to_string(), o => o.describe() });
    let bad = match &got {
        Out::Ok(g) => !matches!(say, Say::Status(s) if s == g.status),
        Out::Err(_) => false,
        Out::Panic(_) => true,
    };
    if bad {
        p.violate("failure-hidden", what.clone());
    }
    // the lazy reader makes at most two requests (probe, then the whole file)
    if given.len() > 4 * (BUDGET + 1) {
        p.violate("unbounded", what.clone());
    }
    if given.len() < BUDGET + 1 {
        p.violate("gave-up", what.clone());
    }
    p.count("permanent failures", 1);
    p.case((format!("{say:?}"), via, "ever"), true);
}

/// Connections are refused at first.
fn refused(p: &mut Part, i: usize) {
    use std::os::fd::FromRawFd;
    let rng = fastrand::Rng::with_seed(p.rng.u64(..));
    let (fd, port) = unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        a.sin_family = libc::AF_INET as u16;
        a.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
        let mut l = std::mem::size_of_val(&a) as u32;
        let r = libc::bind(fd, &a as *const _ as *const _, l);
        libc::getsockname(fd, &mut a as *mut _ as *mut _, &mut l);
        if fd < 0 || r != 0 {
            p.problem("cannot bind");
            return;
        }
        (fd, u16::from_be(a.sin_port))
    };
    let listener = unsafe { TcpListener::from_raw_fd(fd) };
    let wait = match rng.u8(0..4) {
        0 => None,
        _ => Some(Duration::from_millis(rng.u64(50..5500))),
    };
    let via = *pick(&rng, &[Via::Get, Via::Head, Via::NoStore, Via::Hashed, Via::Index]);
    let dir = scratch();
    let http = open(dir.path());
    let table: Table = Default::default();
    let t2 = table.clone();
    table.lock().unwrap().insert("r".into(), Script { say: [Say::Status(200)].into(), given: vec![], via });
    let t0 = Instant::now();
    let got = std::thread::scope(|s| {
        let h = s.spawn(move || match wait {
            Some(w) => {
                std::thread::sleep(w);
                unsafe { libc::listen(fd, 16) };
                Some(Server::on(listener, Arc::new(move |r: &Req| handle(&t2, r))))
            }
            None => {
                // never; keep the port reserved meanwhile
                std::thread::sleep(Duration::from_secs(12));
                drop(listener);
                None
            }
        });
        let got = ask(&http, &format!("http://127.0.0.1:{port}/r/0/"), via);
        let took = t0.elapsed();
        let srv = h.join().unwrap();
        (got, took, srv)
    });
    let (got, took, srv) = got;
    let what = format!("{via:?}: connections refused for {wait:?}, took {took:?}: {}", match &got { Out::Ok(g) => g.status.to_string(), o => o.describe() });
    match (&got, wait) {
        (Out::Ok(_), Some(_)) => p.count("recovered after refused connections", 1),
        (Out::Err(_), None) => {
            p.count("gave up on refused connections", 1);
            if took < Duration::from_millis(1000) {
                p.violate("gave-up", what.clone());
            }
        }
        (Out::Panic(_), _) => p.violate("panic", what.clone()),
        (Out::Err(_), Some(_)) => p.violate("recovered-but-failed", what.clone()),
        (Out::Ok(_), None) => p.violate("failure-hidden", what.clone()),
    }
    drop(srv);
    p.case(("refused", wait, via, i), true);
}

pub fn run_(mut c: Ctx) {
    c.rule = "cases with at least one failure before the final answer, distinct by what the server says and by the request made".into();
    c.assumptions = vec![
        "the retry budget is the one in the code's comment and table: five retries".into(),
        "5xx statuses outside posy's table and malformed answers may be retried or not (only bounded)".into(),
        "an answer cut off in its body is not a failed request here (C03 and C07 judge those)".into(),
    ];
    let table: Table = Default::default();
    let t2 = table.clone();
    let srv = Server::start(Arc::new(move |r: &Req| handle(&t2, r)));
    let max = c.n(14, 100_000);
    parallel(&mut c, 80, 28, 800, |p| {
        let mut i = 0;
        while i < max && p.within() {
            p.begin(&format!("thread {} case {i}", p.thread));
            match (p.thread % 8, i % 4) {
                (0, 1) => for_ever(p, &srv, &table, i),
                (1, 0) => refused(p, i),
                _ => case(p, &srv, &table, i),
            }
            p.end();
            srv.take();
            i += 1;
        }
    });
    c.finish()
}
