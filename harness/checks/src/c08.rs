//! C08: a file opened lazily behaves like the complete file, for honest and lying servers.
use crate::common::*;
use crate::srv::*;
use posy::verif::*;
use serde_json::json;
use std::collections::HashMap;
use std::io::{Read, Seek, SeekFrom};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Fault {
    OtherOffset,     // truthful data of some other range
    EarlierOffset,   // truthful data, starting before the requested range
    CutShort,        // declared length, connection cut
    CloseShort,      // no declared length, ends early (truthful prefix)
    Empty,           // 206 without data
    GarbageAfter,    // more bytes than Content-Range declares
    DeclaresLess,    // Content-Range (and truth) shorter than the body
    NoContentRange,
    BadContentRange(u8),
    Whole200,
    Code(u16),
    OtherFile,       // the file was replaced by one of another length
    Loop,            // redirects for ever
    Recover503,
    Hangup,
}

#[derive(Clone, Debug)]
struct Behaviour {
    ranges: bool,
    framing: Framing,
    no_store: bool,
    short: Option<usize>, // at most so many bytes per range response (truthfully declared)
    fault: Option<(usize, Fault)>, // at the n-th range GET
    sticky: bool,         // and at all later ones
    whole: Option<Whole>, // how the whole file is answered, if it is
}

/// Whole files that are not there, or not whole.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Whole {
    Code(u16, bool), // with a body as long as the file
    Cut(u8),
}

struct Entry {
    data: Vec<u8>,
    b: Behaviour,
    st: Mutex<St>,
}

#[derive(Default)]
struct St {
    range_gets: usize,
    plain_gets: usize,
    heads: usize,
    faulted: bool,
    served: Vec<(u64, u64)>,
    runaway: bool,
    bad_request: Option<String>,
    recovered: bool,
}

type Table = Arc<Mutex<HashMap<String, Arc<Entry>>>>;

fn garbage(n: usize) -> Vec<u8> {
    b"GARBAGE!".iter().cycle().take(n).copied().collect()
}

fn handle(t: &Table, r: &Req) -> Act {
    // /hop/N/<rest> redirects N times before <rest>
    if let Some(rest) = r.path().strip_prefix("/hop/") {
        let (n, rest) = rest.split_once('/').unwrap();
        let n: u32 = n.parse().unwrap();
        let to = if n <= 1 { format!("/{rest}") } else { format!("/hop/{}/{rest}", n - 1) };
        return Act::Reply(Reply::redirect([301, 302, 303, 307, 308][n as usize % 5], &to));
    }
    if r.path().starts_with("/loop") {
        return Act::Reply(Reply::redirect(302, "/loop"));
    }
    let e = match t.lock().unwrap().get(r.path()) {
        Some(e) => e.clone(),
        None => return Act::Reply(Reply::new(404, "no")),
    };
    let mut st = e.st.lock().unwrap();
    let total = e.data.len() as u64;
    let head = r.method == "HEAD";
    let faulty_whole = e.b.whole.filter(|_| !head);
    if faulty_whole.is_some() {
        st.faulted = true;
    }
    let full = || {
        let mut rep = Reply::new(200, &e.data);
        match faulty_whole {
            Some(Whole::Code(c, same)) => {
                return Act::Reply(Reply::new(c, garbage(if same { e.data.len() } else { 37 })));
            }
            Some(Whole::Cut(k)) => {
                // (cut chunked bodies: see C07)
                rep.framing = Framing::Length;
                rep.cut = Some((e.data.len() * k as usize / 256).min(e.data.len().saturating_sub(1)));
                return Act::Reply(rep);
            }
            None => {}
        }
        rep.framing = e.b.framing.clone();
        if e.b.no_store {
            rep = rep.h("Cache-Control", "no-store");
        }
        Act::Reply(rep)
    };
    if head {
        st.heads += 1;
    }
    if st.heads + st.range_gets + st.plain_gets > 3000 {
        st.runaway = true;
        return Act::Reply(Reply::new(404, "enough"));
    }
    let range = r.header("Range").map(|s| s.to_string());
    let range = match (&range, e.b.ranges) {
        (Some(s), true) => s.clone(),
        _ => {
            if !head {
                st.plain_gets += 1;
            }
            return full();
        }
    };
    let parsed = range.strip_prefix("bytes=").and_then(|s| s.split_once('-')).and_then(|(a, b)| {
        Some((a.parse::<u64>().ok()?, b.parse::<u64>().ok()?))
    });
    let (a, b) = match parsed {
        Some((a, b)) if a <= b => (a, b),
        _ => {
            st.bad_request = Some(range);
            return full();
        }
    };
    if a >= total {
        return Act::Reply(Reply::new(416, "").h("Content-Range", &format!("bytes */{total}")));
    }
    let mut last = b.min(total - 1);
    if head {
        return Act::Reply(
            Reply::new(206, &e.data[a as usize..=last as usize])
                .h("Content-Range", &format!("bytes {a}-{last}/{total}")),
        );
    }
    let n = st.range_gets;
    st.range_gets += 1;
    if let Some(m) = e.b.short {
        // allowed by HTTP, but not what was asked for: an error is fine, wrong data is not
        last = last.min(a + m as u64 - 1);
        st.faulted = true;
    }
    let honest = |a: u64, last: u64| {
        let mut rep = Reply::new(206, &e.data[a as usize..=last as usize])
            .h("Content-Range", &format!("bytes {a}-{last}/{total}"));
        rep.framing = e.b.framing.clone();
        rep
    };
    let fault = e.b.fault.filter(|(k, _)| n == *k || (e.b.sticky && n > *k));
    let mut cr = |s: &str, body: &[u8]| {
        st.faulted = true;
        Act::Reply(Reply::new(206, body).h("Content-Range", s))
    };
    let piece = &e.data[a as usize..=last as usize];
    match fault.map(|f| f.1) {
        None => {
            st.served.push((a, last));
            Act::Reply(honest(a, last))
        }
        Some(Fault::OtherOffset) => {
            st.faulted = true;
            let o = (a + 7 + n as u64 * 13) % total;
            Act::Reply(honest(o, (o + (last - a)).min(total - 1)))
        }
        Some(Fault::EarlierOffset) => {
            st.faulted = true;
            Act::Reply(honest(a.saturating_sub(1 + (n as u64 % 3) * 500), last))
        }
        Some(Fault::CutShort) => {
            st.faulted = true;
            let mut rep = honest(a, last);
            rep.framing = if n % 2 == 0 { Framing::Length } else { Framing::Chunked };
            rep.cut = Some(piece.len() * (n % 4) / 4);
            rep.reset = n % 3 == 0;
            Act::Reply(rep)
        }
        Some(Fault::CloseShort) => {
            st.faulted = true;
            let mut rep = honest(a, last);
            rep.framing = Framing::Close;
            rep.cut = Some(piece.len() * (n % 4) / 4);
            Act::Reply(rep)
        }
        Some(Fault::Empty) => cr(&format!("bytes {a}-{last}/{total}"), b""),
        Some(Fault::GarbageAfter) => {
            let body = [piece, &garbage(1 + n * 100)[..]].concat();
            cr(&format!("bytes {a}-{last}/{total}"), &body)
        }
        Some(Fault::DeclaresLess) => {
            let k = 1 + (last - a) / 2;
            let body = [&piece[..k as usize], &garbage(piece.len() - k as usize)[..]].concat();
            cr(&format!("bytes {a}-{}/{total}", a + k - 1), &body)
        }
        Some(Fault::NoContentRange) => {
            st.faulted = true;
            Act::Reply(Reply::new(206, garbage(piece.len())))
        }
        Some(Fault::BadContentRange(k)) => {
            let s = match k % 8 {
                0 => "bytes */*".to_string(),
                1 => format!("octets {a}-{last}/{total}"),
                2 => format!("bytes {a}-{last}/*"),
                3 => "bytes 99999999999999999999999-99999999999999999999999/99999999999999999999999".into(),
                4 => format!("bytes {a}-{last}"),
                5 => format!("bytes -{a}-{last}/{total}"),
                6 => format!("bytes {a}.0-{last}/{total}"),
                _ => "".into(),
            };
            cr(&s, &garbage(piece.len()))
        }
        Some(Fault::Whole200) => {
            st.faulted = true;
            full()
        }
        Some(Fault::Code(c)) => {
            st.faulted = true;
            let mut rep = Reply::new(c, garbage(piece.len()));
            if c == 416 && n % 2 == 0 {
                rep = rep.h("Content-Range", &format!("bytes */{total}"));
            }
            if c == 204 {
                rep.body.clear();
            }
            Act::Reply(rep)
        }
        Some(Fault::OtherFile) => cr(&format!("bytes {a}-{last}/{}", total + 1), &garbage(piece.len())),
        Some(Fault::Loop) => {
            st.faulted = true;
            Act::Reply(Reply::redirect(302, "/loop"))
        }
        Some(f @ (Fault::Recover503 | Fault::Hangup)) => {
            if st.recovered {
                st.served.push((a, last));
                return Act::Reply(honest(a, last));
            }
            // the retried request comes as the next one
            st.recovered = true;
            if f == Fault::Hangup { Act::Hangup } else { Act::Reply(Reply::new(503, "later")) }
        }
    }
}

fn size(r: &fastrand::Rng) -> usize {
    match r.u8(0..10) {
        0 => r.usize(0..4),
        1 => r.usize(4..200),
        2 | 3 => (10_000 * r.usize(1..5)).saturating_add_signed(r.isize(-3..4)),
        4 | 5 => r.usize(200..30_000),
        6 | 7 => r.usize(30_000..120_000),
        _ => r.usize(120_000..600_000),
    }
}

fn behaviour(r: &fastrand::Rng) -> Behaviour {
    let mut b = Behaviour {
        ranges: true,
        no_store: r.bool(),
        framing: pick(r, &[Framing::Length, Framing::Length, Framing::Chunked, Framing::Close]).clone(),
        short: None,
        fault: None,
        sticky: false,
        whole: None,
    };
    match r.u8(0..10) {
        0 => {
            b.ranges = false;
            if b.framing == Framing::Close {
                b.framing = Framing::Length;
            }
            b.whole = match r.u8(0..8) {
                0 | 1 => Some(Whole::Code(*pick(r, &[404, 403, 401, 410, 400, 302, 405, 451]), r.bool())),
                2 => Some(Whole::Cut(r.u8(..))),
                _ => None,
            };
        }
        1 => b.short = Some(*pick(r, &[500, 1000, 3000, 9_999])),
        2..=6 => {
            let k = r.u8(..);
            let f = *pick(
                r,
                &[
                    Fault::OtherOffset,
                    Fault::EarlierOffset,
                    Fault::CutShort,
                    Fault::CloseShort,
                    Fault::Empty,
                    Fault::GarbageAfter,
                    Fault::DeclaresLess,
                    Fault::NoContentRange,
                    Fault::BadContentRange(k),
                    Fault::BadContentRange(k),
                    Fault::Whole200,
                    Fault::Code([416, 404, 403, 204, 304, 416][k as usize % 6]),
                    Fault::OtherFile,
                    Fault::Loop,
                ],
            );
            let f = match k {
                0..=5 => Fault::Recover503,
                6..=11 => Fault::Hangup,
                _ => f,
            };
            b.fault = Some((r.usize(0..4), f));
            b.sticky = r.bool();
        }
        _ => {}
    }
    b
}

pub fn run_(mut c: Ctx) -> ! {
    c.rule = "remote files of 0..600 kB behind servers that are honest in various ways or lie about ranges; random \
        sequences of seeks and reads through Http::get_lazy, compared byte by byte and position by position with the \
        true file; request log of the server. Non-trivial: (size, behaviour, operations) of files of which at least one \
        read was compared."
        .into();
    c.assumptions = vec![
        "Servers whose lies cannot be told from the truth (wrong data under a plausible Content-Range and length) are excluded.".into(),
    ];
    let table: Table = Default::default();
    let t2 = table.clone();
    let srv = Server::start(Arc::new(move |r| handle(&t2, r)));
    let port = srv.port;
    let n = c.n(1500, 40000);
    parallel(&mut c, 8, 40, 500, |p| {
        let rng = fastrand::Rng::with_seed(p.rng.u64(..));
        let dir = scratch();
        let http = Http::new(
            KVFileStore::new(&dir.path().join("http")).unwrap(),
            KVFileStore::new(&dir.path().join("hashed")).unwrap(),
        );
        for i in 0..n {
            if !p.within() {
                break;
            }
            one(p, &rng, &http, &table, port, i);
        }
    });
    drop(srv);
    c.finish()
}

fn one(p: &mut Part, rng: &fastrand::Rng, http: &Http, table: &Table, port: u16, i: usize) {
    let len = size(rng);
    let mut data = vec![0u8; len];
    for b in data.iter_mut() {
        *b = rng.u8(..);
    }
    let b = behaviour(rng);
    let faulty = b.fault.is_some() || b.short.is_some() || b.whole.is_some();
    let path = format!("/t{}/{i}/foo-1.0.tar.gz", p.thread);
    let hops = if rng.u8(0..5) == 0 { rng.u32(1..6) } else { 0 };
    let url = if hops > 0 {
        format!("http://127.0.0.1:{port}/hop/{hops}{path}")
    } else {
        format!("http://127.0.0.1:{port}{path}")
    };
    let hash = if rng.bool() { Some(ArtifactHash::from_hex("sha256", &sha256_hex(&data)).unwrap()) } else { None };
    let what = format!("{len} bytes, {b:?}, hops={hops}, hash={}", hash.is_some());
    let e = Arc::new(Entry { data: data.clone(), b: b.clone(), st: Default::default() });
    table.lock().unwrap().insert(path.clone(), e.clone());
    p.begin(&what);
    let ai = ArtifactInfo {
        name: ArtifactName::try_from("foo-1.0.tar.gz").unwrap(),
        url: url::Url::parse(&url).unwrap(),
        hash,
        requires_python: None,
        dist_info_metadata: Default::default(),
        yanked: Default::default(),
    };
    let kind = match (&b.fault, b.ranges) {
        (Some((_, f)), _) => format!("{f:?}").split('(').next().unwrap().to_string(),
        (None, false) => match b.whole {
            Some(w) => format!("whole-{w:?}").split('(').next().unwrap().to_string(),
            None => "no-ranges".into(),
        },
        (None, true) => if b.short.is_some() { "short-ranges".into() } else { "honest".into() },
    };
    let mut f = match run(|| http.get_lazy(&ai)) {
        Out::Ok(f) => f,
        Out::Err(_) if b.whole.is_some() => {
            p.count("whole files refused", 1);
            return;
        }
        o => {
            p.violate(&format!("open-{}-{kind}", o.kind()), format!("{what}: {}", o.describe()));
            return;
        }
    };
    // the model
    let mut pos: u64 = 0;
    let total = len as u64;
    let mut trace: Vec<String> = vec![];
    let mut read_ops = 0u64;
    let mut wanted = 0u64;
    let mut compared = 0u64;
    let ops = rng.usize(3..25);
    let mut err_seen = false;
    for _ in 0..ops {
        // ---- seek
        if rng.u8(0..4) != 0 || err_seen {
            let around = |r: &fastrand::Rng| -> i64 {
                match r.u8(0..8) {
                    0 => total as i64,
                    1 => 0,
                    2 => (total as i64 - r.i64(0..20)).max(0),
                    3 => (total as i64 - 22).max(0),
                    4 => 10_000 * r.i64(0..8) + r.i64(-2..3),
                    5 => total as i64 + r.i64(0..50),
                    _ => r.i64(0..=total as i64),
                }
            };
            let goal = around(rng).max(0);
            let s = match rng.u8(0..10) {
                0..=3 => SeekFrom::Start(goal as u64),
                4..=6 => SeekFrom::End(goal - total as i64),
                7 | 8 => SeekFrom::Current(goal - pos as i64),
                _ => *pick(rng, &[SeekFrom::End(-(total as i64) - 1), SeekFrom::Current(-(pos as i64) - 1), SeekFrom::End(i64::MIN), SeekFrom::Current(i64::MIN)]),
            };
            let s = if err_seen { SeekFrom::Start(goal as u64) } else { s };
            let want: Option<u64> = match s {
                SeekFrom::Start(n) => Some(n),
                SeekFrom::End(n) => u64::try_from(total as i128 + n as i128).ok(),
                SeekFrom::Current(n) => u64::try_from(pos as i128 + n as i128).ok(),
            };
            trace.push(format!("{s:?}"));
            match (run(|| f.seek(s)), want) {
                (Out::Ok(g), Some(w)) if g == w => {
                    pos = w;
                    err_seen = false;
                }
                (Out::Err(_), None) => {}
                // the whole-file form doesn't support positions after the end
                (Out::Err(_), Some(w)) if w > total && !b.ranges => {}
                (o, w) => {
                    let d = match o {
                        Out::Ok(g) => format!("position {g}"),
                        o => o.describe(),
                    };
                    p.violate(&format!("seek-{kind}"), format!("{what}\n{trace:?}: expected {w:?}, got {d}"));
                    return;
                }
            }
            if err_seen {
                continue;
            }
        }
        // ---- read
        let here = &data[(pos.min(total)) as usize..];
        read_ops += 1;
        let how = rng.u8(0..10);
        let n = match rng.u8(0..6) {
            0 => 0,
            1 => 1,
            2 => rng.usize(1..100),
            3 => rng.usize(100..12_000),
            4 => 22,
            _ => rng.usize(1..4000),
        };
        let res: Out<usize>;
        let mut buf = vec![0xEEu8; n];
        match how {
            0..=5 => {
                trace.push(format!("read({n})"));
                wanted += n as u64;
                res = run(|| f.read(&mut buf));
                if let Out::Ok(k) = &res {
                    let k = *k;
                    if k > n || (n > 0 && !here.is_empty() && k == 0) || (here.is_empty() && k > 0) || here.get(..k) != Some(&buf[..k]) {
                        p.violate(&format!("wrong-read-{kind}"), format!("{what}\n{trace:?} at {pos}: {k} bytes, not those of the file"));
                        return;
                    }
                    pos += k as u64;
                    compared += k as u64;
                }
            }
            6 | 7 => {
                trace.push(format!("read_exact({n})"));
                wanted += n as u64;
                res = run(|| f.read_exact(&mut buf).map(|_| n));
                match &res {
                    Out::Ok(_) => {
                        if here.get(..n) != Some(&buf[..]) {
                            p.violate(&format!("wrong-read-{kind}"), format!("{what}\n{trace:?} at {pos}: wrong bytes"));
                            return;
                        }
                        pos += n as u64;
                        compared += n as u64;
                    }
                    Out::Err(_) if here.len() < n => {
                        err_seen = true;
                        continue;
                    }
                    _ => {}
                }
            }
            _ if len < 150_000 || how == 8 => {
                let lim = if how == 8 { rng.u64(0..30_000) } else { u64::MAX };
                let mut v = vec![];
                trace.push(format!("read_to_end(limit {lim})"));
                wanted += lim.min(here.len() as u64);
                res = run(|| (&mut f).take(lim).read_to_end(&mut v));
                let expect = &here[..here.len().min(lim.min(1 << 40) as usize)];
                match &res {
                    Out::Ok(k) => {
                        if *k != v.len() || v != expect {
                            p.violate(&format!("wrong-read-{kind}"), format!("{what}\n{trace:?} at {pos}: {} bytes, expected {}", v.len(), expect.len()));
                            return;
                        }
                        pos += *k as u64;
                        compared += *k as u64;
                    }
                    Out::Err(_) => {
                        if !expect.starts_with(&v) {
                            p.violate(&format!("wrong-read-{kind}"), format!("{what}\n{trace:?} at {pos}: wrong bytes before an error"));
                            return;
                        }
                    }
                    _ => {}
                }
            }
            _ => {
                trace.push("position".into());
                match run(|| f.stream_position()) {
                    Out::Ok(g) if g == pos => {}
                    o => {
                        p.violate(&format!("position-{kind}"), format!("{what}\n{trace:?}: at {pos}, says {}", match o { Out::Ok(g) => g.to_string(), o => o.describe() }));
                        return;
                    }
                }
                continue;
            }
        }
        match &res {
            Out::Ok(_) => {}
            Out::Err(m) => {
                err_seen = true;
                let st = e.st.lock().unwrap();
                if !st.faulted {
                    p.violate(&format!("read-failed-{kind}"), format!("{what}\n{trace:?} at {pos}: {m}"));
                    return;
                }
                p.count(&format!("error reported: {kind}"), 1);
            }
            Out::Panic(m) => {
                p.violate(&format!("panic-{kind}"), format!("{what}\n{trace:?} at {pos}: {m}"));
                return;
            }
        }
    }
    p.end();
    let st = e.st.lock().unwrap();
    if st.runaway {
        p.violate(&format!("runaway-{kind}"), format!("{what}\n{trace:?}: more than 3000 requests"));
    }
    if let Some(r) = &st.bad_request {
        p.violate("bad-range-request", format!("{what}\n{trace:?}: asked for {r:?}"));
    }
    if b.ranges && !faulty {
        // economy: no whole-file request, nothing twice, bounded read-ahead
        if st.plain_gets > 0 {
            p.violate("whole-file-fetched", format!("{what}\n{trace:?}: {} requests without Range", st.plain_gets));
        }
        let mut s = st.served.clone();
        s.sort();
        if s.windows(2).any(|w| w[1].0 <= w[0].1) {
            p.violate("fetched-twice", format!("{what}\n{trace:?}: ranges served: {s:?}"));
        }
        let bytes: u64 = s.iter().map(|(a, b)| b - a + 1).sum();
        if bytes > wanted + read_ops * (64 << 10) {
            p.violate("fetched-too-much", format!("{what}\n{trace:?}: wanted {wanted}, fetched {bytes}"));
        }
        p.count("bytes fetched by range", bytes);
        if bytes < total {
            p.count("files not fetched completely", 1);
        }
    }
    if !b.ranges && st.plain_gets > 1 {
        p.violate("fetched-twice", format!("{what}\n{trace:?}: {} complete fetches", st.plain_gets));
    }
    if st.recovered {
        p.count("recovered from a transient failure", 1);
    }
    p.count(&format!("server: {kind}"), 1);
    p.count("requests seen by the server", (st.heads + st.range_gets + st.plain_gets) as u64);
    p.count("bytes compared", compared);
    p.case((len, format!("{b:?}"), &trace), compared > 0);
    if i % 50 == 3 {
        p.sample(json!({"file": what, "operations": trace.iter().take(12).collect::<Vec<_>>(), "ranges": st.served.iter().take(6).collect::<Vec<_>>()}));
    }
    table.lock().unwrap().remove(&path);
}
