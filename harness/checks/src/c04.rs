//! C04: concurrent users of one store. Worker processes (each with several threads) run
//! random histories against shared keys and write event logs; the logs are then checked:
//! lock intervals must not overlap, and each key's history must be linearizable.
use crate::common::*;
use crate::stores::*;
use posy::verif::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{Read, Write};
use std::path::Path;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
enum Kind {
    Get,
    GetOrSet,    // v: the value offered; wrote: the producer ran (successfully)
    FailedSet,   // a producer that fails: Err if it ran
    Replace,     // under an explicit lock: read, write, read again
    Abandon,     // under an explicit lock: begin to write, don't commit
    Remove,
    Peek,        // lock_if_exists + reader
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Ev {
    key: usize,
    dir: bool,
    kind: Kind,
    start: u64,
    end: u64,
    /// while the key's lock was surely held
    held: Option<(u64, u64)>,
    offered: Option<u64>,
    ran: bool,
    /// value seen (None: absent)
    seen: Option<u64>,
    /// what was seen after the write, under the same lock
    after: Option<u64>,
    err: bool,
    trouble: Option<String>,
    who: String,
}

/// the i-th key: hashes, byte strings that differ in little, and empty ones
fn with_key<R>(i: usize, f: impl FnOnce(&dyn Key) -> R) -> R {
    let bytes: [&[u8]; 8] = [b"", b"\0", b"a", b"a\0", b"a/../b", b"b", b"tmp", b"a.lock"];
    if i % 3 == 2 {
        let mut raw = vec![7u8; [16, 20, 32, 64][i / 3 % 4]];
        // differing at the very start, or at the very end
        let at = if i % 2 == 0 { 0 } else { raw.len() - 2 };
        raw[at..at + 2].copy_from_slice(&(i as u16).to_be_bytes());
        let h = ArtifactHash { mode: ["sha256", "SHA256", "md5"][i / 6 % 3].into(), raw_data: raw };
        f(&h)
    } else if i < 12 {
        f(&bytes[(i - i / 3) % 8].to_vec())
    } else {
        f(&format!("key {i}").into_bytes())
    }
}

trait Key {
    fn f_get_or_set(&self, s: &KVFileStore, f: &mut dyn FnMut(&mut dyn Write) -> eyre::Result<()>) -> eyre::Result<Vec<u8>>;
    fn f_get(&self, s: &KVFileStore, pause: Duration) -> Option<eyre::Result<Vec<u8>>>;
    fn f_lock(&self, s: &KVFileStore) -> eyre::Result<KVFileLock>;
    fn f_peek(&self, s: &KVFileStore) -> Option<KVFileLock>;
    fn d_get_or_set(&self, s: &KVDirStore, f: &mut dyn FnMut(&Path) -> eyre::Result<()>) -> eyre::Result<std::path::PathBuf>;
    fn d_lock(&self, s: &KVDirStore) -> eyre::Result<KVDirLock>;
}

macro_rules! imp {
    ($t:ty, $as:expr) => {
        impl Key for $t {
            fn f_get_or_set(&self, s: &KVFileStore, f: &mut dyn FnMut(&mut dyn Write) -> eyre::Result<()>) -> eyre::Result<Vec<u8>> {
                let mut v = vec![];
                s.get_or_set(&$as(self), |w| f(w))?.read_to_end(&mut v)?;
                Ok(v)
            }
            fn f_get(&self, s: &KVFileStore, pause: Duration) -> Option<eyre::Result<Vec<u8>>> {
                s.get(&$as(self)).map(|mut r| {
                    // a reader that takes its time
                    let mut v = vec![0; 10];
                    let n = r.read(&mut v)?;
                    v.truncate(n);
                    std::thread::sleep(pause);
                    r.read_to_end(&mut v)?;
                    Ok(v)
                })
            }
            fn f_lock(&self, s: &KVFileStore) -> eyre::Result<KVFileLock> {
                s.lock(&$as(self))
            }
            fn f_peek(&self, s: &KVFileStore) -> Option<KVFileLock> {
                s.lock_if_exists(&$as(self))
            }
            fn d_get_or_set(&self, s: &KVDirStore, f: &mut dyn FnMut(&Path) -> eyre::Result<()>) -> eyre::Result<std::path::PathBuf> {
                s.get_or_set(&$as(self), |p| f(p))
            }
            fn d_lock(&self, s: &KVDirStore) -> eyre::Result<KVDirLock> {
                s.lock(&$as(self))
            }
        }
    };
}
imp!(Vec<u8>, |s: &'_ Vec<u8>| -> &'static [u8] { Box::leak(s.clone().into_boxed_slice()) });
imp!(ArtifactHash, |s: &'_ ArtifactHash| s.clone());

struct Cfg {
    keys: usize,
    ops: usize,
    threads: usize,
    pause_us: u64,
    style: u8, // 0: fill only, 1: everything
}

fn one_op(files: &KVFileStore, dirs: &KVDirStore, cfg: &Cfg, rng: &fastrand::Rng, id: u64, who: &str) -> Ev {
    let key = rng.usize(0..cfg.keys);
    let dir = rng.u8(0..3) == 0;
    let kind = match (cfg.style, dir, rng.u8(0..12)) {
        (_, true, 0..=2) => Kind::FailedSet,
        (_, true, 3) => Kind::Abandon, // lock, hold, look
        (_, true, _) => Kind::GetOrSet,
        (0, _, 0..=3) => Kind::Get,
        (0, _, 4..=5) => Kind::FailedSet,
        (0, _, 6) => Kind::Abandon,
        (0, _, _) => Kind::GetOrSet,
        (_, _, 0..=2) => Kind::Get,
        (_, _, 3..=5) => Kind::GetOrSet,
        (_, _, 6) => Kind::FailedSet,
        (_, _, 7 | 8) => Kind::Replace,
        (_, _, 9) => Kind::Abandon,
        (_, _, 10) => Kind::Remove,
        _ => Kind::Peek,
    };
    let pause = || {
        if cfg.pause_us > 0 && chance(rng, 40) {
            std::thread::sleep(Duration::from_micros(rng.u64(0..cfg.pause_us)));
        }
    };
    let mut e = Ev {
        key,
        dir,
        kind,
        start: 0,
        end: 0,
        held: None,
        offered: None,
        ran: false,
        seen: None,
        after: None,
        err: false,
        trouble: None,
        who: who.into(),
    };
    pause();
    let mut t_in = None;
    let mut t_out = None;
    e.start = now();
    let say = |e: &mut Ev, r: Result<u64, String>| match r {
        Ok(v) => Some(v),
        Err(m) => {
            e.trouble = Some(m);
            None
        }
    };
    // how a failing producer fails
    let how = rng.u8(0..3);
    with_key(key, |k| match (dir, kind) {
        (false, Kind::GetOrSet | Kind::FailedSet) => {
            e.offered = Some(id);
            let fails = kind == Kind::FailedSet;
            let v = value(id);
            let mut ran = false;
            let r = run(|| {
                k.f_get_or_set(files, &mut |w| {
                    t_in = Some(now());
                    ran = true;
                    if fails {
                        dribble(w, &v[..v.len() / 2], rng, cfg.pause_us)?;
                        t_out = Some(now());
                        match how {
                            0 => panic!("producer panics"),
                            _ => eyre::bail!("producer fails"),
                        }
                    }
                    dribble(w, &v, rng, cfg.pause_us)?;
                    t_out = Some(now());
                    Ok(())
                })
            });
            e.ran = ran;
            match r {
                Out::Ok(b) => e.seen = say(&mut e, which(&b)),
                o => {
                    e.err = true;
                    if !(fails && ran) {
                        e.trouble = Some(o.describe());
                    }
                }
            }
        }
        (false, Kind::Get) => {
            if let Some(r) = k.f_get(files, Duration::from_micros(if cfg.pause_us > 0 { rng.u64(0..2 * cfg.pause_us) } else { 0 })) {
                match r {
                    Ok(b) => e.seen = say(&mut e, which(&b)),
                    Err(m) => e.trouble = Some(format!("{m:?}")),
                }
            }
        }
        (false, _) => {
            let lock = if kind == Kind::Peek { Ok(k.f_peek(files)) } else { run(|| k.f_lock(files)).map(Some).ok().ok_or("lock failed") };
            let lock = match lock {
                Ok(Some(l)) => l,
                Ok(None) => return, // absent
                Err(m) => {
                    e.trouble = Some(m.into());
                    return;
                }
            };
            t_in = Some(now());
            let look = |e: &mut Ev, after: bool| {
                let r = lock.reader().map(|mut r| {
                    let mut v = vec![];
                    r.read_to_end(&mut v).map_err(|e| e.to_string())?;
                    which(&v)
                });
                let r = match r {
                    None => None,
                    Some(Ok(v)) => Some(v),
                    Some(Err(m)) => {
                        e.trouble = Some(m);
                        None
                    }
                };
                if after {
                    e.after = r
                } else {
                    e.seen = r
                }
            };
            look(&mut e, false);
            pause();
            match kind {
                Kind::Replace => {
                    e.offered = Some(id);
                    // an old reader must not be disturbed
                    let old = lock.reader().map(|r| r.detach_unlocked());
                    let r = run(|| -> eyre::Result<Vec<u8>> {
                        let mut w = lock.begin()?;
                        dribble(&mut w, &value(id), rng, cfg.pause_us)?;
                        let mut r = w.commit()?;
                        let mut v = vec![];
                        r.read_to_end(&mut v)?;
                        Ok(v)
                    });
                    match r {
                        Out::Ok(v) if which(&v) == Ok(id) => {}
                        o => e.trouble = Some(format!("replace: {}", o.describe())),
                    }
                    if let Some(mut f) = old {
                        let mut v = vec![];
                        if f.read_to_end(&mut v).is_err() || which(&v).ok() != e.seen {
                            e.trouble = Some("reader opened before the replacement was disturbed".into());
                        }
                    }
                    look(&mut e, true);
                    t_out = Some(now());
                    drop(lock);
                }
                Kind::Abandon => {
                    if let Ok(mut w) = lock.begin() {
                        let _ = dribble(&mut w, &value(id), rng, cfg.pause_us);
                    }
                    look(&mut e, true);
                    t_out = Some(now());
                    drop(lock);
                }
                Kind::Remove => {
                    t_out = Some(now());
                    if let Err(m) = lock.remove() {
                        e.trouble = Some(format!("remove: {m:?}"));
                    }
                }
                _ => {
                    look(&mut e, true);
                    t_out = Some(now());
                    drop(lock);
                }
            }
        }
        (true, Kind::Abandon) => match run(|| k.d_lock(dirs)) {
            Out::Ok(lock) => {
                t_in = Some(now());
                pause();
                if lock.exists() {
                    e.seen = say(&mut e, which_dir(&lock));
                }
                pause();
                t_out = Some(now());
                drop(lock);
            }
            o => e.trouble = Some(o.describe()),
        },
        (true, _) => {
            e.offered = Some(id);
            let fails = kind == Kind::FailedSet;
            let mut ran = false;
            let r = run(|| {
                k.d_get_or_set(dirs, &mut |p| {
                    t_in = Some(now());
                    ran = true;
                    fill(p, id, if fails { Some(how as usize) } else { None }, &pause)?;
                    t_out = Some(now());
                    if fails {
                        match how {
                            0 => panic!("producer panics"),
                            _ => eyre::bail!("producer fails"),
                        }
                    }
                    Ok(())
                })
            });
            e.ran = ran;
            match r {
                Out::Ok(p) => e.seen = say(&mut e, which_dir(&p)),
                o => {
                    e.err = true;
                    if !(fails && ran) {
                        e.trouble = Some(o.describe());
                    }
                }
            }
        }
    });
    e.end = now();
    if let (Some(a), Some(b)) = (t_in, t_out) {
        e.held = Some((a, b));
    }
    e
}

pub fn worker(args: &[String]) {
    let dir = Path::new(&args[1]);
    let seed: u64 = args[2].parse().unwrap();
    let n: Vec<u64> = args[3].split(',').map(|x| x.parse().unwrap()).collect();
    let cfg = Cfg { keys: n[0] as usize, ops: n[1] as usize, threads: n[2] as usize, pause_us: n[3], style: n[4] as u8 };
    let proc_no = n[5];
    extern "C" fn nothing(_: i32) {}
    unsafe {
        // a signal without SA_RESTART interrupts blocked system calls
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = nothing as usize;
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
    }
    // one store handle per process, or one per thread
    let shared = proc_no % 2 == 0;
    let open = || (KVFileStore::new(&dir.join("f")).unwrap(), KVDirStore::new(&dir.join("d")).unwrap());
    let common = open();
    // wait for the other processes
    while !dir.join("go").exists() {
        std::thread::sleep(Duration::from_micros(300));
    }
    let done = std::sync::atomic::AtomicBool::new(false);
    let evs: Vec<Ev> = std::thread::scope(|s| {
        let mut pts = vec![];
        let hs: Vec<_> = (0..cfg.threads)
            .map(|t| {
                let (cfg, open, common) = (&cfg, &open, &common);
                let (tx, rx) = std::sync::mpsc::channel();
                let h = s.spawn(move || {
                    tx.send(unsafe { libc::pthread_self() }).unwrap();
                    let rng = fastrand::Rng::with_seed(seed ^ (proc_no << 32) ^ ((t as u64) << 16));
                    let own = if shared { None } else { Some(open()) };
                    let (f, d) = own.as_ref().unwrap_or(common);
                    (0..cfg.ops)
                        .map(|i| one_op(f, d, cfg, &rng, (proc_no + 1) * 1_000_000 + t as u64 * 10_000 + i as u64, &format!("p{proc_no}t{t}")))
                        .collect::<Vec<_>>()
                });
                pts.push(rx.recv().unwrap());
                h
            })
            .collect();
        let done = &done;
        let ping = s.spawn(move || {
            let rng = fastrand::Rng::with_seed(seed);
            while !done.load(std::sync::atomic::Ordering::SeqCst) {
                std::thread::sleep(Duration::from_micros(rng.u64(200..3000)));
                for t in &pts {
                    if rng.bool() {
                        unsafe { libc::pthread_kill(*t, libc::SIGUSR1) };
                    }
                }
            }
        });
        // join without reaping the pthread ids while they may be signalled: finished
        // threads stay joinable until `join`, so signal only before joining
        while !hs.iter().all(|h| h.is_finished()) {
            std::thread::sleep(Duration::from_millis(1));
        }
        done.store(true, std::sync::atomic::Ordering::SeqCst);
        let _ = ping.join();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    println!("{}", serde_json::to_string(&evs).unwrap());
}

/// What the event means for the register of its key, if the state before it is `s`.
fn step(e: &Ev, s: Option<u64>) -> Option<Option<u64>> {
    match e.kind {
        Kind::Get | Kind::Peek if e.kind == Kind::Get || e.held.is_none() => (e.seen == s).then(|| s),
        Kind::GetOrSet => match s {
            Some(v) => (!e.ran && e.seen == Some(v)).then(|| s),
            None => (e.ran && e.seen == e.offered).then(|| e.offered),
        },
        Kind::FailedSet => match s {
            Some(v) => (!e.ran && e.seen == Some(v)).then(|| s),
            None => (e.ran && e.err).then(|| None),
        },
        Kind::Replace => (e.seen == s && e.after == e.offered).then(|| e.offered),
        Kind::Remove => (e.seen == s).then(|| None),
        Kind::Abandon if e.dir => (e.seen == s).then(|| s),
        _ => (e.seen == s && e.after == s).then(|| s),
    }
}

/// Wing–Gong search with memoisation. Ok(states visited) or the shortest prefix's culprit.
fn linearizable(evs: &[&Ev]) -> Result<usize, String> {
    let mut evs: Vec<&Ev> = evs.to_vec();
    evs.sort_by_key(|e| e.start);
    let n = evs.len();
    let mut seen: HashSet<(Vec<u64>, Option<u64>)> = HashSet::new();
    let mut stack: Vec<(Vec<u64>, usize, Option<u64>)> = vec![(vec![0; n / 64 + 1], 0, None)];
    let mut best = 0;
    while let Some((mask, done, state)) = stack.pop() {
        best = best.max(done);
        if done == n {
            return Ok(seen.len());
        }
        if seen.len() > 2_000_000 {
            return Err("search space too large".into());
        }
        let open = |i: usize| mask[i / 64] >> (i % 64) & 1 == 0;
        // candidates: those that start before every pending one has ended
        let min_end = (0..n).filter(|i| open(*i)).map(|i| evs[i].end).min().unwrap();
        for i in (0..n).filter(|i| open(*i)) {
            if evs[i].start > min_end {
                break;
            }
            if let Some(next) = step(evs[i], state) {
                let mut m = mask.clone();
                m[i / 64] |= 1 << (i % 64);
                if seen.insert((m.clone(), next)) {
                    stack.push((m, done + 1, next));
                }
            }
        }
    }
    let near = &evs[best.saturating_sub(4)..(best + 6).min(n)];
    Err(format!(
        "no order of the {n} calls explains what they returned (longest explanation: {best}); near there:\n{}",
        near.iter().map(|e| format!("  {e:?}")).collect::<Vec<_>>().join("\n")
    ))
}

fn round(p: &mut Part, me: &Path, i: usize) {
    let rng = fastrand::Rng::with_seed(p.rng.u64(..));
    let dir = scratch();
    let procs = rng.usize(1..5);
    let cfg = Cfg {
        keys: *pick(&rng, &[1, 1, 2, 3, 8, 24]),
        ops: rng.usize(10..40),
        threads: rng.usize(1..6),
        pause_us: *pick(&rng, &[0, 50, 400, 1500]),
        style: rng.u8(0..2),
    };
    let seed = rng.u64(..) >> 1;
    let kids: Vec<_> = (0..procs)
        .map(|n| {
            std::process::Command::new(me)
                .args(["c04-worker", &dir.path().display().to_string(), &seed.to_string()])
                .arg(format!("{},{},{},{},{},{n}", cfg.keys, cfg.ops, cfg.threads, cfg.pause_us, cfg.style))
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::piped())
                .spawn()
                .unwrap()
        })
        .collect();
    std::thread::sleep(Duration::from_millis(10));
    std::fs::write(dir.path().join("go"), "").unwrap();
    let what = format!("{procs} processes with {} threads, {} keys, pauses up to {} us, style {}", cfg.threads, cfg.keys, cfg.pause_us, cfg.style);
    let mut evs: Vec<Ev> = vec![];
    for k in kids {
        let o = k.wait_with_output().unwrap();
        match serde_json::from_slice::<Vec<Ev>>(&o.stdout) {
            Ok(v) if o.status.success() => evs.extend(v),
            _ => {
                p.violate("worker-died", format!("{what}: {} {}", o.status, truncate(&String::from_utf8_lossy(&o.stderr), 800)));
                return;
            }
        }
    }
    let mut per: BTreeMap<(bool, usize), Vec<&Ev>> = BTreeMap::new();
    for e in &evs {
        per.entry((e.dir, e.key)).or_default().push(e);
        if let Some(m) = &e.trouble {
            let sig = match e.kind {
                Kind::Get | Kind::GetOrSet | Kind::Peek | Kind::FailedSet => "bad-result",
                _ => "bad-under-lock",
            };
            p.violate(sig, format!("{what}: {m}\n{e:?}"));
        }
    }
    for ((is_dir, key), evs) in &per {
        // ---- mutual exclusion
        let mut held: Vec<(u64, u64, &Ev)> = evs.iter().filter_map(|e| e.held.map(|(a, b)| (a, b, *e))).collect();
        held.sort_by_key(|h| h.0);
        for w in held.windows(2) {
            if w[1].0 < w[0].1 {
                p.violate("locks-overlap", format!("{what}: key {key} dir {is_dir}\n{:?}\n{:?}", w[0].2, w[1].2));
            }
        }
        // ---- at most one successful producer, unless the entry was removed or replaced
        let produced = evs.iter().filter(|e| e.kind == Kind::GetOrSet && e.ran && !e.err).count();
        let removed = evs.iter().filter(|e| e.kind == Kind::Remove).count();
        if produced > 1 + removed {
            p.violate("produced-twice", format!("{what}: key {key} dir {is_dir}: {produced} successful producers, {removed} removals"));
        }
        // ---- atomicity
        match linearizable(evs) {
            Ok(n) => p.count("search states", n as u64),
            Err(m) if m.starts_with("search") => p.count("histories too large to decide", 1),
            Err(m) => p.violate("not-atomic", format!("{what}: key {key} dir {is_dir}: {m}")),
        }
        p.count("lock-held intervals checked", held.len() as u64);
        p.count("failed producers", evs.iter().filter(|e| e.kind == Kind::FailedSet && e.ran).count() as u64);
        p.count("successful producers", produced as u64);
        p.count("replacements", evs.iter().filter(|e| e.kind == Kind::Replace).count() as u64);
        p.count("removals", removed as u64);
        let overlapping = evs.iter().filter(|e| evs.iter().any(|o| !std::ptr::eq(*o, **e) && o.start < e.end && e.start < o.end)).count();
        p.count("calls overlapping another call on the same key", overlapping as u64);
        let order: Vec<_> = held.iter().map(|h| (h.2.who.clone(), h.2.kind)).collect();
        p.case((is_dir, order), overlapping > 0);
    }
    // ---- distinct keys, distinct entries (values are unique, so a shared entry shows as
    // a value that was never offered for this key)
    let mut owner: HashMap<u64, (bool, usize)> = HashMap::new();
    for e in &evs {
        if let Some(v) = e.offered {
            owner.insert(v, (e.dir, e.key));
        }
    }
    for e in &evs {
        for v in [e.seen, e.after].into_iter().flatten() {
            if owner.get(&v) != Some(&(e.dir, e.key)) {
                p.violate("entry-shared", format!("{what}: value {v} of {:?} seen under another key\n{e:?}", owner.get(&v)));
            }
        }
    }
    p.count("calls", evs.len() as u64);
    if i % 20 == 3 {
        p.sample(json!({"round": what, "calls": evs.len(), "keys": per.len(),
            "first": evs.iter().take(4).map(|e| format!("{} {:?} key {} dir {} saw {:?}", e.who, e.kind, e.key, e.dir, e.seen)).collect::<Vec<_>>()}));
    }
}

/// Many keys in one store, one after the other: each holds its own value.
fn keys_apart(c: &mut Ctx) {
    let dir = scratch();
    let files = KVFileStore::new(&dir.path().join("f")).unwrap();
    let dirs = KVDirStore::new(&dir.path().join("d")).unwrap();
    let n = c.n(400, 4000);
    let bad = |c: &mut Ctx, i: usize, m: String| c.violate("entry-shared", format!("key {i}: {m}"));
    for pass in 0..2 {
        for i in 0..n {
            let id = 50_000_000 + i as u64;
            with_key(i, |k| {
                let ran = std::cell::Cell::new(false);
                match run(|| {
                    k.f_get_or_set(&files, &mut |w| {
                        ran.set(true);
                        Ok(w.write_all(&value(id))?)
                    })
                }) {
                    Out::Ok(b) if which(&b) == Ok(id) => {}
                    Out::Ok(b) => bad(c, i, format!("{:?}", which(&b))),
                    o => bad(c, i, o.describe()),
                }
                if ran.get() != (pass == 0) {
                    bad(c, i, format!("producer ran in pass {pass}: {}", ran.get()));
                }
                match run(|| k.d_get_or_set(&dirs, &mut |d| fill(d, id, None, || {}).map(|_| ()).map_err(|e| e.into()))) {
                    Out::Ok(d) if which_dir(&d) == Ok(id) => {}
                    Out::Ok(d) => bad(c, i, format!("{:?}", which_dir(&d))),
                    o => bad(c, i, o.describe()),
                }
            });
            c.case(("apart", i, pass), true);
        }
    }
    // entries without any content are entries all the same
    let empty = KVDirStore::new(&dir.path().join("e")).unwrap();
    let empties = KVFileStore::new(&dir.path().join("g")).unwrap();
    for i in 0..16 {
        with_key(i, |k| {
            for pass in 0..3 {
                let ran = std::cell::Cell::new(false);
                match run(|| k.d_get_or_set(&empty, &mut |_| Ok(ran.set(true)))) {
                    Out::Ok(d) if d.is_dir() && ran.get() == (pass == 0) => {}
                    Out::Ok(d) => bad(c, i, format!("empty directory entry: pass {pass}: there {}, producer ran {}", d.is_dir(), ran.get())),
                    o => bad(c, i, o.describe()),
                }
                ran.set(false);
                match run(|| k.f_get_or_set(&empties, &mut |_| Ok(ran.set(true)))) {
                    Out::Ok(b) if b.is_empty() && ran.get() == (pass == 0) => {}
                    Out::Ok(b) => bad(c, i, format!("empty file entry: pass {pass}: {} bytes, producer ran {}", b.len(), ran.get())),
                    o => bad(c, i, o.describe()),
                }
                if !matches!(run(|| k.f_get(&empties, Duration::ZERO).transpose()), Out::Ok(Some(b)) if b.is_empty()) {
                    bad(c, i, format!("empty file entry: not there in pass {pass}"));
                }
            }
        });
    }
    c.count("keys in one store", n as u64);
    // Far more keys than can be stored: no two may name the same place. (A place that
    // depends on fewer than about 35 bits of the key is sure to repeat itself here.)
    let n = c.n(500_000, 6_000_000) as u64;
    let mut seen: HashMap<std::path::PathBuf, u64> = HashMap::with_capacity(n as usize);
    for i in 0..n {
        let key = format!("\x03GET\x20http://index.example/simple/package-{i}/");
        if let Some(j) = seen.insert(PathKey::key(&key.as_bytes()), i) {
            c.violate("entry-shared", format!("the keys for packages {j} and {i} name the same entry"));
            break;
        }
    }
    c.count("keys that name different entries", seen.len() as u64);
}

pub fn run_(mut c: Ctx) {
    c.rule = "per-key histories with at least two overlapping calls, distinct by the order in which threads held the lock".into();
    c.assumptions = vec![
        "interleavings are those the kernel produced under pauses and signals, not all of them".into(),
        "CLOCK_MONOTONIC is consistent between processes".into(),
    ];
    let me = std::env::current_exe().unwrap();
    keys_apart(&mut c);
    let rounds = c.n(60, 100_000);
    parallel(&mut c, 6, 40, 700, |p| {
        let mut i = 0;
        while i < rounds && p.within() {
            p.begin(&format!("thread {} round {i}", p.thread));
            round(p, &me, i);
            p.end();
            i += 1;
        }
    });
    c.finish()
}
