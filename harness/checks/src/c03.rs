//! C03: an artifact with a known hash arrives with exactly that hash, or not at all.
use crate::common::*;
use crate::srv::*;
use posy::verif::*;
use serde_json::json;
use std::collections::{HashMap, VecDeque};
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
enum Say {
    Good(Framing),
    FlipBit(usize),
    Drop(usize, usize),
    Insert(usize, Vec<u8>),
    Truncated { at: usize, declared: bool, reset: bool, framing: Framing },
    Swapped(usize), // two blocks exchanged
    Other,          // another artifact
    Doubled,
    Empty,
    Status(u16, bool), // error status, with the right bytes or with a page
    Partial(usize),    // 206 with a piece, though nothing but the whole file was asked for
    Redirect(u16, String),
    Hangup,
    LongerDeclared(usize),
    ShorterDeclared(usize),
    Gzip { marked: bool, broken: bool },
    Deflate,
}

/// the exact answer for `data`, and whether the client may (must) be happy with it
fn answer(say: &Say, data: &[u8], other: &[u8], rng: &fastrand::Rng) -> (Act, Option<bool>) {
    let ok = |b: &[u8]| Reply::new(200, b);
    let n = data.len();
    let cl = |x: usize| x.min(n);
    let rep = match say {
        Say::Good(f) => {
            let mut r = ok(data);
            r.framing = f.clone();
            if chance(rng, 30) {
                r = r.h("Content-Type", "application/octet-stream").h("Cache-Control", "no-store");
            }
            return (Act::Reply(r), Some(true));
        }
        Say::FlipBit(at) if n > 0 => {
            let mut v = data.to_vec();
            v[at % n] ^= 1 << rng.u32(0..8);
            ok(&v)
        }
        Say::FlipBit(_) => ok(b"x"),
        Say::Drop(at, k) => {
            let mut v = data.to_vec();
            let a = cl(*at);
            v.drain(a..(a + k).min(n));
            ok(&v)
        }
        Say::Insert(at, w) => {
            let mut v = data.to_vec();
            let a = cl(*at);
            v.splice(a..a, w.iter().copied());
            ok(&v)
        }
        Say::Truncated { at, declared, reset, framing } => {
            let mut r = ok(data);
            if *declared {
                r.framing = framing.clone();
                r.cut = Some(*at);
                r.reset = *reset;
            } else {
                r = ok(&data[..cl(*at)]);
                r.framing = Framing::Close;
            }
            r
        }
        Say::Swapped(k) => {
            let mut v = data.to_vec();
            let k = (*k).max(1).min(n / 2);
            for i in 0..k {
                v.swap(i, n - k + i);
            }
            ok(&v)
        }
        Say::Other => ok(other),
        Say::Doubled => ok(&[data, data].concat()),
        Say::Empty => ok(b""),
        Say::Status(s, true) => Reply::new(*s, data),
        Say::Status(s, false) => Reply::new(*s, "<html>sorry</html>"),
        Say::Partial(k) => {
            let k = cl(*k).max(1).min(n.max(1));
            Reply::new(206, &data[..k.min(n)]).h("Content-Range", &format!("bytes 0-{}/{n}", k - 1))
        }
        Say::Redirect(s, to) => Reply::redirect(*s, to),
        Say::Hangup => return (Act::Hangup, Some(false)),
        Say::LongerDeclared(k) => {
            let mut r = ok(data);
            r.framing = Framing::Declare(n + k + 1);
            r
        }
        Say::ShorterDeclared(k) => {
            let mut r = ok(data);
            r.framing = Framing::Declare(n.saturating_sub(k + 1));
            r
        }
        Say::Gzip { marked, broken } => {
            let mut z = crate::arch::gz(data);
            if *broken {
                let l = z.len();
                z.truncate(l - 9.min(l));
            }
            let r = ok(&z);
            if *marked { r.h("Content-Encoding", "gzip") } else { r }
        }
        Say::Deflate => ok(data).h("Content-Encoding", "deflate"),
    };
    (Act::Reply(rep), None)
}

struct File {
    data: Vec<u8>,
    other: Vec<u8>,
    script: Mutex<(VecDeque<Say>, fastrand::Rng)>,
}
type Table = Arc<Mutex<HashMap<String, Arc<File>>>>;

fn open(dir: &Path) -> Http {
    Http::new(KVFileStore::new(&dir.join("http")).unwrap(), KVFileStore::new(&dir.join("by-hash")).unwrap())
}

fn artifact(url: &str, hash: Option<ArtifactHash>) -> ArtifactInfo {
    ArtifactInfo {
        name: "foo-1.0-py3-none-any.whl".try_into().unwrap(),
        url: url.try_into().unwrap(),
        hash,
        requires_python: None,
        dist_info_metadata: Default::default(),
        yanked: Default::default(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Default,
    OnlyIfCached,
    LazyFallback,
}

/// fetch, then compare everything the reader gives against the file
fn fetch(http: &Http, url: &str, hash: &ArtifactHash, via: Via, rng: &fastrand::Rng) -> Out<Vec<u8>> {
    let url: url::Url = url.try_into().unwrap();
    run(|| -> eyre::Result<Vec<u8>> {
        let mut f: Box<dyn ReadSeek> = match via {
            Via::Default => Box::new(http.get_hashed(&url, Some(hash), CacheMode::Default)?),
            Via::OnlyIfCached => Box::new(http.get_hashed(&url, Some(hash), CacheMode::OnlyIfCached)?),
            Via::LazyFallback => Box::new(http.get_lazy(&artifact(url.as_str(), Some(hash.clone())))?),
        };
        let mut v = vec![];
        f.read_to_end(&mut v)?;
        // a second look, from some other place
        let at = rng.usize(0..v.len() + 1);
        f.seek(SeekFrom::Start(at as u64))?;
        let mut w = vec![];
        f.read_to_end(&mut w)?;
        if w != v[at..] {
            eyre::bail!("SECOND READ DIFFERS");
        }
        Ok(v)
    })
}

trait ReadSeek: Read + Seek {}
impl<T: Read + Seek> ReadSeek for T {}

fn gen_data(rng: &fastrand::Rng) -> Vec<u8> {
    let n = match rng.u8(0..12) {
        0 => 0,
        1 => 1,
        2 => *pick(rng, &[8191, 8192, 8193, 16384, 65535, 65536, 65537]),
        3 if chance(rng, 15) => rng.usize(1_000_000..3_500_000),
        3 => rng.usize(100_000..400_000),
        4..=6 => rng.usize(10_000..40_000),
        _ => rng.usize(1..5000),
    };
    match rng.u8(0..4) {
        0 => vec![0; n],
        1 => b"abc".iter().cycle().take(n).copied().collect(),
        _ => (0..n).map(|_| rng.u8(..)).collect(),
    }
}

fn gen_say(rng: &fastrand::Rng, n: usize, id: &str, slow_ok: bool) -> Say {
    let at = match rng.u8(0..5) {
        0 => 0,
        1 => n.saturating_sub(1),
        2 => n / 2,
        _ => rng.usize(0..n + 1),
    };
    let k = *pick(rng, &[1, 1, 2, 16, 1000, 8192]);
    match rng.u8(0..20) {
        0 | 1 => Say::Good(pick(rng, &[Framing::Length, Framing::Chunked, Framing::Close]).clone()),
        2 => Say::FlipBit(at),
        3 => Say::Drop(at, k),
        4 => Say::Insert(at, match rng.u8(0..3) { 0 => vec![0; k], 1 => b"\n".to_vec(), _ => (0..k).map(|_| rng.u8(..)).collect() }),
        5..=7 => Say::Truncated {
            at: at.min(n.saturating_sub(1)),
            declared: chance(rng, 75),
            reset: rng.bool(),
            framing: if rng.bool() { Framing::Length } else { Framing::Chunked },
        },
        8 => Say::Swapped(k),
        9 => Say::Other,
        10 => Say::Doubled,
        11 => Say::Empty,
        12 => Say::Status(*pick(rng, &[203, 400, 401, 403, 404, 410, 416, 429, 501, 502, 504, 304, 204]), chance(rng, 30)),
        13 => Say::Partial(at),
        14 => Say::Redirect(*pick(rng, &[301, 302, 303, 307, 308]), format!("/a/{id}")),
        15 => Say::Redirect(302, format!("/a/{id}?sig=1&exp=2#sha256=00")),
        16 => Say::LongerDeclared(k),
        17 => Say::ShorterDeclared(k),
        18 => match rng.u8(0..3) {
            0 => Say::Deflate,
            1 => Say::Gzip { marked: true, broken: rng.bool() },
            _ => Say::Gzip { marked: false, broken: false },
        },
        _ if slow_ok => if rng.bool() { Say::Hangup } else { Say::Status(*pick(rng, &[500, 503]), false) },
        _ => Say::Good(Framing::Length),
    }
}

/// the hash a client is told to expect; and whether `data` really has it
fn gen_hash(rng: &fastrand::Rng, data: &[u8]) -> (ArtifactHash, bool, &'static str) {
    let good = sha256_hex(data);
    let raw = |mode: &str, hex: &str| {
        ArtifactHash::from_hex(mode, hex).unwrap_or_else(|_| ArtifactHash {
            mode: mode.into(),
            raw_data: (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect(),
        })
    };
    match rng.u8(0..24) {
        0 => (raw("sha256", &good[..62]), false, "one byte short"),
        1 => (raw("sha256", &good[..32]), false, "half the digest"),
        2 => (raw("sha256", &format!("{good}00")), false, "one byte too long"),
        3 => {
            // differing in one bit, first, last or anywhere
            let i = *pick(rng, &[0, 1, 31, 30, 15, 16]);
            let mut h = raw("sha256", &good);
            h.raw_data[i] ^= 1 << rng.u32(0..8);
            (h, false, "one bit off")
        }
        4 => {
            let mode = *pick(rng, &["sha512", "sha384", "sha1", "md5", "sha3_256", "blake2b", "crc32", "SHA256", "none"]);
            (raw(mode, &good), false, "another algorithm")
        }
        5 => (raw("sha256", &"00".repeat(32)), false, "zeros"),
        _ => (raw("sha256", &good), true, "right"),
    }
}

fn case(p: &mut Part, srv: &Server, table: &Table, i: usize) {
    let rng = fastrand::Rng::with_seed(p.rng.u64(..));
    let id = format!("{}-{i}", p.thread);
    let slow = p.thread >= 12; // these threads mostly wait between retries
    let data = gen_data(&rng);
    let (hash, right, kind) = gen_hash(&rng, &data);
    let other = gen_data(&rng);
    let file = Arc::new(File { data: data.clone(), other: other.clone(), script: Mutex::new((VecDeque::new(), fastrand::Rng::with_seed(rng.u64(..)))) });
    table.lock().unwrap().insert(id.clone(), file.clone());
    let dir = scratch();
    let mut http = open(dir.path());
    let url = srv.url(&format!("/a/{id}"));
    let mut have = false; // a fetch succeeded earlier
    let mut trace: Vec<String> = vec![format!("{} bytes, hash {kind}", data.len())];
    let mut spilled = false; // the server sent more than it had declared on a connection the client may keep
    for _ in 0..rng.usize(2..6) {
        // what the server will say, one answer after the other
        let mut script: VecDeque<Say> = VecDeque::new();
        let mut hops = 0;
        loop {
            let s = if chance(&rng, 25) { Say::Good(Framing::Length) } else { gen_say(&rng, data.len(), &id, slow) };
            let more = matches!(s, Say::Redirect(..) | Say::Hangup | Say::Status(500 | 503, _));
            hops += matches!(s, Say::Redirect(..)) as usize;
            script.push_back(s);
            if !more || hops > 7 {
                break;
            }
        }
        // does the whole exchange end with the true file, without any trouble on the way?
        let clean = script.iter().all(|s| matches!(s, Say::Good(_) | Say::Redirect(..) | Say::Hangup | Say::Status(500 | 503, _)))
            && matches!(script.back(), Some(Say::Good(_)))
            && hops <= 5
            && script.iter().filter(|s| matches!(s, Say::Hangup | Say::Status(500 | 503, _))).count() <= 3;
        let via = match rng.u8(0..10) {
            0 | 1 => Via::OnlyIfCached,
            2 => Via::LazyFallback,
            _ => Via::Default,
        };
        if chance(&rng, 30) || spilled {
            trace.push("new process".into());
            http = open(dir.path());
        }
        spilled = script.iter().any(|s| matches!(s, Say::ShorterDeclared(_)));
        trace.push(format!("{via:?} {script:?}"));
        file.script.lock().unwrap().0 = script.clone();
        srv_forget(srv, &id);
        let got = fetch(&http, &url, &hash, via, &rng);
        let asked = srv_forget(srv, &id);
        let what = || truncate(&format!("{trace:?}"), 3000);
        match got {
            Out::Panic(m) => {
                p.violate("panic", format!("{}: {m}", what()));
                break;
            }
            Out::Ok(v) => {
                if !right {
                    p.violate("unmatched-hash-accepted", format!("{}: delivered {} bytes under a hash they don't have ({hash})", what(), v.len()));
                    break;
                }
                if v != data {
                    p.violate("wrong-bytes", format!("{}: delivered {} bytes, not those of the hash", what(), v.len()));
                    break;
                }
                if via == Via::OnlyIfCached && !have {
                    p.violate("cached-out-of-nothing", what());
                }
                if have && asked > 0 && via != Via::LazyFallback {
                    p.violate("asked-again", format!("{}: {asked} requests for a file that is in the cache", what()));
                }
                have = true;
                p.count("right bytes delivered", 1);
            }
            Out::Err(m) => {
                p.count("errors reported", 1);
                if m.contains("SECOND READ DIFFERS") {
                    p.violate("wrong-bytes", format!("{}: {m}", what()));
                    break;
                }
                if have && via != Via::LazyFallback {
                    p.violate("lost", format!("{}: verified earlier, now {m}", what()));
                    break;
                }
                if right && clean && via == Via::Default {
                    p.violate("good-refused", format!("{}: {m}", what()));
                    break;
                }
            }
        }
        for s in &script {
            p.count(&format!("server: {}", format!("{s:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap()), 1);
        }
        // the store holds this file, complete, or nothing
        for (path, n) in inventory(&dir.path().join("by-hash")) {
            let name = path.to_string_lossy().into_owned();
            if let Node::File { hash: h, len, .. } = n {
                if name.ends_with(".lock") {
                    continue;
                }
                if name.starts_with("tmp/") {
                    p.violate("left-in-tmp", format!("{}: {name} with {len} bytes is left behind", what()));
                } else if h != sha256_hex(&data) || !right {
                    p.violate("store-holds-other", format!("{}: {name} with {len} bytes", what()));
                }
            }
        }
        p.case((hash_of(&trace), i), true);
    }
    // a good server heals everything
    file.script.lock().unwrap().0 = [Say::Good(Framing::Length)].into();
    srv_forget(srv, &id);
    let got = fetch(&open(dir.path()), &url, &hash, Via::Default, &rng);
    match got {
        Out::Ok(v) if right && v == data => {}
        Out::Err(_) if !right => {}
        o => p.violate("not-healed", format!("{trace:?}: afterwards, with a good server: {}", o.describe())),
    }
    if right && (have && srv_forget(srv, &id) > 0) {
        p.violate("asked-again", format!("{trace:?}: a later process fetched it again"));
    }
    if i % 40 == 2 {
        p.sample(json!({"history": trace.iter().map(|t| truncate(t, 200)).collect::<Vec<_>>(), "in cache": have}));
    }
    table.lock().unwrap().remove(&id);
}

fn srv_forget(srv: &Server, id: &str) -> usize {
    let mut log = srv.log.lock().unwrap();
    let n = log.len();
    let path = format!("/a/{id}");
    log.retain(|r| r.path() != path);
    n - log.len()
}

/// Several processes (threads with their own client and store handle) want the same file
/// at the same time, from good and bad servers.
fn crowd(p: &mut Part, srv: &Server, table: &Table, i: usize) {
    let rng = fastrand::Rng::with_seed(p.rng.u64(..));
    let data = gen_data(&rng);
    let hash = ArtifactHash::from_hex("sha256", &sha256_hex(&data)).unwrap();
    let dir = scratch();
    let n = rng.usize(2..6);
    let mut jobs = vec![];
    let mut goods = 0;
    for t in 0..n {
        let id = format!("crowd{}-{i}-{t}", p.thread);
        let say = if rng.bool() { Say::Good(Framing::Length) } else { gen_say(&rng, data.len(), &id, false) };
        goods += matches!(say, Say::Good(_)) as usize;
        let file = Arc::new(File { data: data.clone(), other: gen_data(&rng), script: Mutex::new(([say.clone()].into(), fastrand::Rng::with_seed(rng.u64(..)))) });
        table.lock().unwrap().insert(id.clone(), file);
        jobs.push((id, say, rng.u64(..)));
    }
    let outs: Vec<Out<Vec<u8>>> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|(id, _, seed)| {
                let (dir, hash, url) = (dir.path(), &hash, srv.url(&format!("/a/{id}")));
                s.spawn(move || fetch(&open(dir), &url, hash, Via::Default, &fastrand::Rng::with_seed(*seed)))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let what = format!("{} bytes wanted {n} times at once; servers {:?}", data.len(), jobs.iter().map(|j| truncate(&format!("{:?}", j.1), 100)).collect::<Vec<_>>());
    let (mut oks, mut good_requests) = (0, 0);
    for ((id, say, _), o) in jobs.iter().zip(&outs) {
        let asked = srv_forget(srv, id);
        good_requests += (asked > 0 && matches!(say, Say::Good(_))) as usize;
        match o {
            Out::Ok(v) if *v == data => oks += 1,
            Out::Ok(v) => p.violate("crowd-wrong-bytes", format!("{what}: {} bytes", v.len())),
            Out::Err(m) if matches!(say, Say::Good(_)) => p.violate("crowd-good-refused", format!("{what}: {m}")),
            Out::Err(_) => {}
            Out::Panic(m) => p.violate("panic", format!("{what}: {m}")),
        }
        table.lock().unwrap().remove(id);
    }
    if good_requests > 1 {
        p.violate("crowd-fetched-twice", format!("{what}: {good_requests} complete downloads"));
    }
    if goods > 0 && oks == 0 {
        p.violate("crowd-good-refused", what.clone());
    }
    p.count("concurrent fetches", n as u64);
    p.case(("crowd", i, p.thread), true);
}

/// The checker itself, with a sink that takes what it likes.
fn checker(c: &mut Ctx) {
    struct Sink {
        v: Vec<u8>,
        rng: fastrand::Rng,
        full: Option<usize>,
        style: u8,
    }
    impl Write for Sink {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            if self.style > 0 && chance(&self.rng, 20) {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            if self.full.map_or(false, |f| self.v.len() >= f) {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk full"));
            }
            let mut n = if self.style == 0 || b.is_empty() { b.len() } else { self.rng.usize(1..b.len() + 1) };
            if let Some(f) = self.full {
                n = n.min(f - self.v.len());
            }
            self.v.extend(&b[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    for i in 0..c.n(3000, 60_000) {
        let rng = fastrand::Rng::with_seed(c.rng.u64(..));
        let data: Vec<u8> = (0..rng.usize(0..3000)).map(|_| rng.u8(..)).collect();
        let (hash, right, kind) = gen_hash(&rng, &data);
        let sent = match rng.u8(0..4) {
            0 if !data.is_empty() => data[..rng.usize(0..data.len())].to_vec(),
            1 => [&data[..], b"x"].concat(),
            _ => data.clone(),
        };
        let full = if chance(&rng, 20) { Some(rng.usize(0..data.len() + 1)) } else { None };
        let style = rng.u8(0..3);
        let sink = Sink { v: vec![], rng: fastrand::Rng::with_seed(rng.u64(..)), full, style };
        let chunk = *pick(&rng, &[1usize, 7, 64, 100_000]);
        let got = run(|| -> eyre::Result<Vec<u8>> {
            let mut ch = hash.checker(sink)?;
            for part in sent.chunks(chunk) {
                ch.write_all(part)?;
            }
            ch.flush()?;
            Ok(ch.finish()?.v)
        });
        let what = format!("{} bytes of {} with hash {kind}, sink limit {full:?}, style {style}, pieces of {chunk}", sent.len(), data.len());
        match got {
            Out::Ok(v) => {
                if v != data || !right {
                    c.violate("checker-accepts", format!("{what}: accepted {} bytes", v.len()));
                }
            }
            Out::Err(m) => {
                if right && sent == data && full.map_or(true, |f| f >= data.len()) {
                    c.violate("checker-refuses", format!("{what}: {m}"));
                }
            }
            Out::Panic(m) => c.violate("panic", format!("{what}: {m}")),
        }
        c.case(("checker", i), true);
    }
}

/// The disk fills up (file size limit of the process) while an artifact is stored.
fn disk_full(c: &mut Ctx, srv: &Server, table: &Table) {
    let me = std::env::current_exe().unwrap();
    for i in 0..c.n(12, 200) {
        let rng = fastrand::Rng::with_seed(c.rng.u64(..));
        let n = rng.usize(20_000..200_000);
        let data: Vec<u8> = (0..n).map(|_| rng.u8(..)).collect();
        let id = format!("full-{i}");
        let file = Arc::new(File { data: data.clone(), other: vec![], script: Mutex::new(([Say::Good(Framing::Length), Say::Good(Framing::Length)].into(), fastrand::Rng::with_seed(1))) });
        table.lock().unwrap().insert(id.clone(), file);
        let dir = scratch();
        let limit = match rng.u8(0..4) {
            0 => n - 1,
            1 => n,
            2 => 0,
            _ => rng.usize(0..n),
        };
        let hash = format!("sha256={}", sha256_hex(&data));
        let out = std::process::Command::new(&me)
            .args(["c03-child", &dir.path().display().to_string(), &srv.url(&format!("/a/{id}")), &hash, &limit.to_string()])
            .output()
            .unwrap();
        let said = String::from_utf8_lossy(&out.stdout).trim().to_string();
        let expect_ok = limit >= n;
        let what = format!("{n} bytes, file size limit {limit}: {said} {}", truncate(&String::from_utf8_lossy(&out.stderr), 300));
        match said.split(' ').next().unwrap_or("") {
            "ok" if expect_ok && said == format!("ok {}", sha256_hex(&data)) => {}
            "ok" => c.violate("disk-full-accepted", what.clone()),
            "err" if !expect_ok => {}
            "err" => c.violate("good-refused", what.clone()),
            _ => c.violate("disk-full-crash", what.clone()),
        }
        match fetch(&open(dir.path()), &srv.url(&format!("/a/{id}")), &ArtifactHash::try_from(hash.as_str()).unwrap(), Via::Default, &rng) {
            Out::Ok(v) if v == data => {}
            o => c.violate("not-healed", format!("{what}; afterwards: {}", o.describe())),
        }
        table.lock().unwrap().remove(&id);
        c.count("writes hitting a full disk", !expect_ok as u64);
        c.case(("full", i), true);
    }
}

pub fn child(args: &[String]) {
    let (dir, url, hash, limit) = (&args[1], &args[2], &args[3], args[4].parse::<u64>().unwrap());
    let http = open(Path::new(dir));
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let l = libc::rlimit { rlim_cur: limit, rlim_max: limit };
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
    }
    let hash = ArtifactHash::try_from(hash.as_str()).unwrap();
    match fetch(&http, url, &hash, Via::Default, &fastrand::Rng::with_seed(1)) {
        Out::Ok(v) => println!("ok {}", sha256_hex(&v)),
        Out::Err(_) => println!("err"),
        Out::Panic(m) => println!("panic {m}"),
    }
}

pub fn run_(mut c: Ctx) {
    c.rule = "cases are fetch histories with at least one compared delivery or refusal, distinct by script and outcome".into();
    c.assumptions = vec![
        "SHA-256 has no collisions among the generated inputs".into(),
        "the CacheMode::NoStore form of get_hashed, which has no caller, is not judged".into(),
    ];
    let table: Table = Default::default();
    let t2 = table.clone();
    let srv = Server::start(Arc::new(move |r: &Req| {
        let id = r.path().rsplit('/').next().unwrap().to_string();
        let f = match t2.lock().unwrap().get(&id) {
            Some(f) => f.clone(),
            None => return Act::Reply(Reply::new(404, "no")),
        };
        if r.method == "HEAD" {
            let mut rep = Reply::new(200, &f.data);
            rep.delay = Duration::ZERO;
            return Act::Reply(rep);
        }
        let mut s = f.script.lock().unwrap();
        // the last answer is given for ever
        let say = if s.0.len() > 1 { s.0.pop_front().unwrap() } else { s.0.front().cloned().unwrap_or(Say::Empty) };
        answer(&say, &f.data, &f.other, &s.1).0
    }));
    checker(&mut c);
    disk_full(&mut c, &srv, &table);
    let per = c.n(300, 100_000);
    let n_crowd = c.n(60, 100_000);
    parallel(&mut c, 20, 45, 700, |p| {
        let mut i = 0;
        while i < per && p.within() {
            p.begin(&format!("thread {} case {i}", p.thread));
            case(p, &srv, &table, i);
            if i < n_crowd {
                crowd(p, &srv, &table, i);
            }
            p.end();
            i += 1;
        }
    });
    c.finish()
}
