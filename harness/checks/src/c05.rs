//! C05: kill the process before each of its file-system calls in turn; look at the store.
use crate::common::*;
use crate::srv::*;
use crate::stores::*;
use posy::verif::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    GetOrSet(usize, u64),
    Fail(usize, u64),
    Replace(usize, u64),
    Abandon(usize, u64),
    Remove(usize),
    Get(usize),
    Dir(usize, u64),
    DirFail(usize, u64),
    /// directory entries the way build_wheel.rs fills them: lock, tempdir, rename
    DirManual(usize, u64),
    Hashed(u64),
    Url(usize),
}

fn script(seed: u64, http: bool) -> Vec<Op> {
    let rng = fastrand::Rng::with_seed(seed);
    let n = rng.usize(3..9);
    (0..n)
        .map(|i| {
            let id = seed % 1_000_000 * 100 + i as u64;
            let k = rng.usize(0..2);
            if http {
                return match rng.u8(0..3) {
                    0 => Op::Hashed(7_000_000 + rng.u64(0..3)),
                    _ => Op::Url(rng.usize(0..3)),
                };
            }
            match rng.u8(0..14) {
                0..=2 => Op::GetOrSet(k, id),
                3 => Op::Fail(k, id),
                4..=6 => Op::Replace(k, id),
                7 => Op::Abandon(k, id),
                8 => Op::Remove(k),
                9 => Op::Get(k),
                10 | 11 => Op::Dir(k, id),
                12 => Op::DirFail(k, id),
                _ => Op::DirManual(k, id),
            }
        })
        .collect()
}

fn fkey(i: usize) -> Vec<u8> {
    format!("key {i}").into_bytes()
}
fn dkey(i: usize) -> ArtifactHash {
    ArtifactHash { mode: "sha256".into(), raw_data: vec![i as u8; 32] }
}
fn stores(dir: &Path) -> eyre::Result<(KVFileStore, KVDirStore)> {
    Ok((KVFileStore::new(&dir.join("f"))?, KVDirStore::new(&dir.join("d"))?))
}
fn client(dir: &Path) -> eyre::Result<Http> {
    Ok(Http::new(KVFileStore::new(&dir.join("http"))?, KVFileStore::new(&dir.join("by-hash"))?))
}
fn hash_for(id: u64) -> ArtifactHash {
    ArtifactHash::from_hex("sha256", &sha256_hex(&value(id))).unwrap()
}

/// shared memory: how many operations have begun, and how many have been reported complete
fn progress(path: &Path, create: bool) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path).unwrap();
    if create {
        f.set_len(64).unwrap();
    }
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), 64, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut u64
}

pub fn worker(args: &[String]) {
    let dir = Path::new(&args[1]);
    let seed: u64 = args[2].parse().unwrap();
    let base = args.get(3).filter(|b| !b.is_empty());
    let prog = progress(Path::new(&args[4]), false);
    let ops = script(seed, base.is_some());
    let _ = std::fs::File::open("/nowhere/ARM-THE-SHIM");
    let r = run(|| -> eyre::Result<()> {
        let (f, d) = stores(dir)?;
        let http = if base.is_some() { Some(client(dir)?) } else { None };
        for (i, op) in ops.iter().enumerate() {
            unsafe { std::ptr::write_volatile(prog, i as u64 + 1) };
            match *op {
                Op::GetOrSet(k, id) => {
                    let mut v = vec![];
                    f.get_or_set(&fkey(k).as_slice(), |w| Ok(dribble(w, &value(id), &fastrand::Rng::with_seed(id), 0)?))?.read_to_end(&mut v)?;
                }
                Op::Fail(k, id) => {
                    let _ = run(|| {
                        f.get_or_set(&fkey(k).as_slice(), |w| {
                            w.write_all(&value(id))?;
                            if id % 2 == 0 {
                                panic!("fails")
                            }
                            eyre::bail!("fails")
                        })
                        .map(|_| ())
                    });
                }
                Op::Replace(k, id) => {
                    let l = f.lock(&fkey(k).as_slice())?;
                    let mut w = l.begin()?;
                    dribble(&mut w, &value(id), &fastrand::Rng::with_seed(id), 0)?;
                    w.commit()?;
                }
                Op::Abandon(k, id) => {
                    let l = f.lock(&fkey(k).as_slice())?;
                    let mut w = l.begin()?;
                    w.write_all(&value(id))?;
                }
                Op::Remove(k) => f.lock(&fkey(k).as_slice())?.remove()?,
                Op::Get(k) => {
                    if let Some(mut r) = f.get(&fkey(k).as_slice()) {
                        r.read_to_end(&mut vec![])?;
                    }
                }
                Op::Dir(k, id) => {
                    d.get_or_set(&dkey(k), |p| Ok(fill(p, id, None, || {}).map(|_| ())?))?;
                }
                Op::DirFail(k, id) => {
                    let _ = run(|| {
                        d.get_or_set(&dkey(k), |p| {
                            fill(p, id, None, || {})?;
                            if id % 2 == 0 {
                                panic!("fails")
                            }
                            eyre::bail!("fails")
                        })
                    });
                }
                Op::DirManual(k, id) => {
                    let l = d.lock(&dkey(k))?;
                    if !l.exists() {
                        let t = l.tempdir()?;
                        fill(t.path(), id, None, || {})?;
                        std::fs::rename(t.into_path(), &*l)?;
                    }
                }
                Op::Hashed(id) => {
                    let url = format!("{}/h/{id}", base.unwrap());
                    let mut v = vec![];
                    http.as_ref().unwrap().get_hashed(&url.as_str().try_into()?, Some(&hash_for(id)), CacheMode::Default)?.read_to_end(&mut v)?;
                    eyre::ensure!(which(&v) == Ok(id), "wrong bytes");
                }
                Op::Url(k) => {
                    let req = http::Request::builder().uri(format!("{}/u/{k}", base.unwrap())).body(())?;
                    http.as_ref().unwrap().request(req, CacheMode::Default)?.into_body().read_to_end(&mut vec![])?;
                }
            }
            unsafe { std::ptr::write_volatile(prog.add(1), i as u64 + 1) };
        }
        Ok(())
    });
    let _ = std::fs::File::open("/nowhere/REPORT-THE-SHIM");
    match r {
        Out::Ok(_) => println!("done"),
        o => println!("TROUBLE {}", o.describe()),
    }
}

struct Lab {
    me: PathBuf,
    shim: PathBuf,
}

struct Ran {
    count: u64,
    killed_at: Option<String>,
    failed_at: Option<String>,
    begun: usize,
    done: usize,
    out: String,
}

impl Lab {
    /// `fail`: instead of killing the process, make the call fail with this errno
    fn run(&self, dir: &Path, seed: u64, base: &str, at: u64, torn: bool, fail: Option<(i32, bool)>) -> Result<Ran, String> {
        let pf = dir.join("progress");
        let prog = progress(&pf, true);
        unsafe {
            *prog = 0;
            *prog.add(1) = 0;
        }
        let mut cmd = Command::new(&self.me);
        cmd.args(["c05-worker", &dir.join("store").display().to_string(), &seed.to_string(), base, &pf.display().to_string()])
            .env("LD_PRELOAD", &self.shim)
            .env("POSY_KILL_AT", at.to_string())
            .stdin(Stdio::null());
        if torn {
            cmd.env("POSY_KILL_TORN", "1");
        }
        if let Some((errno, all)) = fail {
            cmd.env("POSY_FAIL", errno.to_string());
            if all {
                cmd.env("POSY_FAIL_ALL", "1");
            }
        }
        let o = cmd.output().map_err(|e| e.to_string())?;
        let (begun, done) = unsafe { (std::ptr::read_volatile(prog) as usize, std::ptr::read_volatile(prog.add(1)) as usize) };
        unsafe { libc::munmap(prog as *mut _, 64) };
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        let tripped = err.lines().filter_map(|l| l.strip_prefix("SHIM ")).find(|l| !l.starts_with("count ")).map(|l| l.split(' ').next().unwrap().to_string());
        let shim = err.lines().rev().find_map(|l| l.strip_prefix("SHIM ")).unwrap_or("").to_string();
        let mut it = shim.split(' ');
        let (what, n) = (it.next().unwrap_or("").to_string(), it.next().and_then(|n| n.parse().ok()).unwrap_or(0));
        let out = String::from_utf8_lossy(&o.stdout).trim().to_string();
        if o.status.signal() == Some(9) {
            Ok(Ran { count: n, killed_at: Some(what), failed_at: None, begun, done, out })
        } else if o.status.success() && what == "count" {
            Ok(Ran { count: n, killed_at: None, failed_at: tripped, begun, done, out })
        } else {
            Err(format!("{} {out} {}", o.status, truncate(&err, 600)))
        }
    }
}

/// possible contents of every entry
#[derive(Clone, Debug)]
struct Model {
    file: BTreeMap<usize, BTreeSet<Option<u64>>>,
    dir: BTreeMap<usize, BTreeSet<Option<u64>>>,
}

/// `unread`: an existing entry could not be opened, so it may have been produced anew
fn apply(s: &mut BTreeSet<Option<u64>>, op: Op, maybe: bool, unread: bool) {
    let mut next = if maybe { s.clone() } else { BTreeSet::new() };
    for v in s.iter() {
        if let (Op::GetOrSet(_, id), true) = (op, unread) {
            next.insert(Some(id));
        }
        match op {
            Op::GetOrSet(_, id) | Op::Dir(_, id) | Op::DirManual(_, id) => next.insert(v.or(Some(id))),
            Op::Replace(_, id) => next.insert(Some(id)),
            Op::Remove(_) => next.insert(None),
            _ => next.insert(*v),
        };
    }
    *s = next;
}

impl Model {
    fn new() -> Model {
        let one = || (0..2).map(|k| (k, BTreeSet::from([None]))).collect();
        Model { file: one(), dir: one() }
    }
    fn after(&mut self, ops: &[Op], begun: usize, done: usize, unread: bool) {
        for (i, op) in ops.iter().enumerate().take(begun) {
            match *op {
                Op::GetOrSet(k, _) | Op::Fail(k, _) | Op::Replace(k, _) | Op::Abandon(k, _) | Op::Remove(k) | Op::Get(k) => {
                    apply(self.file.get_mut(&k).unwrap(), *op, i >= done, unread)
                }
                Op::Dir(k, _) | Op::DirFail(k, _) | Op::DirManual(k, _) => apply(self.dir.get_mut(&k).unwrap(), *op, i >= done, unread),
                _ => {}
            }
        }
    }
}

/// Look at everything, then use everything. Returns (signature, message) on trouble.
fn examine(dir: &Path, m: &mut Model, fresh: &mut u64) -> Result<(), (String, String)> {
    let bad = |s: &str, m: String| Err((s.to_string(), m));
    let (f, d) = match run(|| stores(&dir.join("store"))) {
        Out::Ok(x) => x,
        o => return bad("unusable", format!("cannot open the store: {}", o.describe())),
    };
    for k in 0..2 {
        let key = fkey(k);
        let key = key.as_slice();
        let read = || -> Result<Option<u64>, String> {
            match f.get(&key) {
                None => Ok(None),
                Some(mut r) => {
                    let mut v = vec![];
                    r.read_to_end(&mut v).map_err(|e| e.to_string())?;
                    which(&v).map(Some)
                }
            }
        };
        let allowed = m.file[&k].clone();
        match read() {
            Ok(v) if allowed.contains(&v) => {
                m.file.insert(k, [v].into());
            }
            Ok(v) => return bad("wrong-entry", format!("file entry {k} holds {v:?}, possible are {allowed:?}")),
            Err(e) => return bad("partial-entry", format!("file entry {k}: {e}")),
        }
        // every key can be filled, replaced, removed
        *fresh += 1;
        let id = *fresh;
        let old = *m.file[&k].iter().next().unwrap();
        let r = run(|| -> eyre::Result<Vec<u8>> {
            let mut v = vec![];
            f.get_or_set(&key, |w| Ok(w.write_all(&value(id))?))?.read_to_end(&mut v)?;
            Ok(v)
        });
        match r {
            Out::Ok(v) if which(&v) == Ok(old.unwrap_or(id)) => {}
            Out::Ok(v) => return bad("wrong-entry", format!("file entry {k}: get_or_set gives {:?}, expected {:?}", which(&v), old.unwrap_or(id))),
            o => return bad("unusable", format!("file entry {k}: get_or_set: {}", o.describe())),
        }
        *fresh += 1;
        let id = *fresh;
        let r = run(|| -> eyre::Result<()> {
            let l = f.lock(&key)?;
            let mut w = l.begin()?;
            w.write_all(&value(id))?;
            w.commit()?;
            Ok(())
        });
        if !r.is_ok() || read() != Ok(Some(id)) {
            return bad("unusable", format!("file entry {k}: replacing: {} {:?}", r.describe(), read()));
        }
        m.file.insert(k, [Some(id)].into());
        if id % 3 == 0 {
            let r = run(|| f.lock(&key)?.remove());
            if !r.is_ok() || read() != Ok(None) {
                return bad("unusable", format!("file entry {k}: removing: {} {:?}", r.describe(), read()));
            }
            m.file.insert(k, [None].into());
        }
        // ---- directories
        let allowed = m.dir[&k].clone();
        *fresh += 1;
        let id = *fresh;
        let r = run(|| {
            let l = d.lock(&dkey(k))?;
            Ok::<_, eyre::Report>(if l.exists() { Some(which_dir(&l)) } else { None })
        });
        let v = match r {
            Out::Ok(None) => None,
            Out::Ok(Some(Ok(v))) => Some(v),
            Out::Ok(Some(Err(e))) => return bad("partial-entry", format!("directory entry {k}: {e}")),
            o => return bad("unusable", format!("directory entry {k}: {}", o.describe())),
        };
        if !allowed.contains(&v) {
            return bad("wrong-entry", format!("directory entry {k} holds {v:?}, possible are {allowed:?}"));
        }
        match run(|| d.get_or_set(&dkey(k), |p| Ok(fill(p, id, None, || {}).map(|_| ())?))) {
            Out::Ok(p) if which_dir(&p) == Ok(v.unwrap_or(id)) => {}
            Out::Ok(p) => return bad("wrong-entry", format!("directory entry {k}: get_or_set gives {:?}, expected {:?}", which_dir(&p), v.unwrap_or(id))),
            o => return bad("unusable", format!("directory entry {k}: get_or_set: {}", o.describe())),
        }
        m.dir.insert(k, [Some(v.unwrap_or(id))].into());
    }
    Ok(())
}

/// The same for the HTTP and by-hash caches, which are built on file stores.
fn examine_http(dir: &Path, base: &str, served: &Mutex<BTreeSet<u64>>) -> Result<(), (String, String)> {
    let bad = |s: &str, m: String| Err((s.to_string(), m));
    let http = match run(|| client(&dir.join("store"))) {
        Out::Ok(h) => h,
        o => return bad("unusable", o.describe()),
    };
    let get = |url: &str, hash: Option<&ArtifactHash>, mode| {
        run(|| -> eyre::Result<Vec<u8>> {
            let mut v = vec![];
            http.get_hashed(&url.try_into()?, hash, mode)?.read_to_end(&mut v)?;
            Ok(v)
        })
    };
    for k in 0..3u64 {
        let id = 7_000_000 + k;
        for mode in [CacheMode::OnlyIfCached, CacheMode::Default] {
            match get(&format!("{base}/h/{id}"), Some(&hash_for(id)), mode) {
                Out::Ok(v) if which(&v) == Ok(id) => {}
                Out::Err(_) if mode == CacheMode::OnlyIfCached => {}
                Out::Ok(v) => return bad("partial-entry", format!("by-hash {id}: {:?}", which(&v))),
                o => return bad("unusable", format!("by-hash {id} ({mode:?}): {}", o.describe())),
            }
        }
        for mode in [CacheMode::OnlyIfCached, CacheMode::Default] {
            match get(&format!("{base}/u/{k}"), None, mode) {
                Out::Ok(v) if which(&v).map_or(false, |id| id % 10 == k && served.lock().unwrap().contains(&id)) => {}
                Out::Err(_) if mode == CacheMode::OnlyIfCached => {}
                Out::Ok(v) => return bad("partial-entry", format!("url {k}: {:?}", which(&v))),
                o => return bad("unusable", format!("url {k} ({mode:?}): {}", o.describe())),
            }
        }
    }
    Ok(())
}

/// One script, killed at one call after the other; sometimes several crashes in a row on
/// the same store.
fn enumerate(p: &mut Part, lab: &Lab, base: &str, served: &Mutex<BTreeSet<u64>>, i: usize) {
    let rng = fastrand::Rng::with_seed(p.rng.u64(..));
    let http = i % 4 == 2;
    let base = if http { base } else { "" };
    let seed = rng.u64(0..1 << 40);
    let ops = script(seed, http);
    let dir = scratch();
    let total = match lab.run(dir.path(), seed, base, 0, false, None) {
        Ok(r) if r.killed_at.is_none() && r.out == "done" => r.count,
        Ok(r) => return p.violate("undisturbed-failure", format!("{ops:?}: {}", r.out)),
        Err(m) => return p.problem(m),
    };
    drop(dir);
    let mut dir = scratch();
    let mut model = Model::new();
    let mut fresh = 900_000_000;
    let keep = chance(&rng, 35); // crash after crash on one store
    let torn = rng.bool();
    for at in 1..=total + 1 {
        if !p.within() {
            break;
        }
        if total > 150 && rng.u64(0..total) >= 150 {
            continue; // long ones (the HTTP cache writes its policy byte by byte) are sampled
        }
        if !keep {
            dir = scratch();
            model = Model::new();
        }
        // values must be new for each run on the same store
        let seed = if keep { seed + at * (1 << 41) } else { seed };
        let ops = script(seed, http);
        // some calls fail instead: alone (EIO, EMFILE, EACCES), or as when the disk is full
        let fail = chance(&rng, 35).then(|| *pick(&rng, &[(libc::EIO, false), (libc::ENOSPC, true), (libc::ENOSPC, true), (libc::EMFILE, false), (libc::EACCES, false)]));
        let r = match lab.run(dir.path(), seed, base, at, torn, fail) {
            Ok(r) => r,
            Err(m) => return p.violate("worker-died", format!("{ops:?} at call {at} ({fail:?}): {m}")),
        };
        let place = r.killed_at.clone().or(r.failed_at.clone()).unwrap_or_else(|| "end".into());
        let what = format!(
            "{ops:?}\n{} call {at} ({place}), {} operations begun, {} reported complete, torn {torn}, repeated {keep}: {}",
            fail.map_or("killed at".into(), |(e, _)| format!("errno {e} from")),
            r.begun,
            r.done,
            r.out
        );
        if r.killed_at.is_none() && r.failed_at.is_none() && r.out != "done" {
            p.violate("unusable", format!("{what}: {}", r.out));
            return;
        }
        model.after(&ops, r.begun, r.done, r.failed_at.as_deref() == Some("open"));
        let res = if http { examine_http(dir.path(), base, served) } else { examine(dir.path(), &mut model, &mut fresh) };
        if let Err((sig, m)) = res {
            let tree: Vec<String> = inventory(&dir.path().join("store")).iter().map(|(p, n)| format!("{} {n:?}", p.display())).collect();
            p.violate(&sig, format!("{m}\n{what}\n{}", truncate(&tree.join("\n"), 2000)));
            return;
        }
        p.count("crashes", r.killed_at.is_some() as u64);
        p.count("failing calls", r.failed_at.is_some() as u64);
        p.count("failing calls, and the operation reported it", (r.failed_at.is_some() && r.out != "done") as u64);
        p.count(&format!("{} {place}", if r.failed_at.is_some() { "failed" } else { "killed before" }), 1);
        if let Some(op) = ops.get(r.begun.wrapping_sub(1)) {
            if r.killed_at.is_some() {
                p.count(&format!("killed in {}", format!("{op:?}").split('(').next().unwrap()), 1);
            }
        }
        p.case((seed, at, torn, fail), r.killed_at.is_some() || r.failed_at.is_some());
    }
    p.count(if total > 150 { "scripts sampled" } else { "scripts enumerated completely" }, 1);
    if i % 4 == 1 {
        p.sample(json!({"script": format!("{ops:?}"), "file-system calls": total, "torn writes": torn, "crash after crash": keep}));
    }
}

/// A process dies while it holds locks that others are waiting for.
fn waiters(p: &mut Part, lab: &Lab, i: usize) {
    let dir = scratch();
    let store = dir.path().join("store");
    let mut kid = Command::new(&lab.me).args(["c05-holder", &store.display().to_string()]).stdout(Stdio::piped()).spawn().unwrap();
    let mut b = [0u8; 8];
    let _ = kid.stdout.take().unwrap().read(&mut b); // "holding": both locks are held, half the data is written
    let t0 = Instant::now();
    let (f, d) = stores(&store).unwrap();
    let outs: Vec<Result<u64, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4u64)
            .map(|t| {
                let (f, d) = (&f, &d);
                s.spawn(move || -> Result<u64, String> {
                    let id = 800 + t;
                    if t % 2 == 0 {
                        let mut v = vec![];
                        f.get_or_set(&fkey(0).as_slice(), |w| Ok(w.write_all(&value(id))?))
                            .map_err(|e| format!("{e:?}"))?
                            .read_to_end(&mut v)
                            .map_err(|e| e.to_string())?;
                        which(&v)
                    } else {
                        which_dir(&d.get_or_set(&dkey(0), |p| Ok(fill(p, id, None, || {}).map(|_| ())?)).map_err(|e| format!("{e:?}"))?)
                    }
                })
            })
            .collect();
        std::thread::sleep(Duration::from_millis(60));
        kid.kill().unwrap();
        kid.wait().unwrap();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let good = |a: &Result<u64, String>, b: &Result<u64, String>, xs: [u64; 2]| a == b && a.as_ref().map_or(false, |v| xs.contains(v));
    if !good(&outs[0], &outs[2], [800, 802]) || !good(&outs[1], &outs[3], [801, 803]) {
        p.violate("waiters", format!("after the lock holder was killed, waiters got {outs:?}"));
    }
    if t0.elapsed() < Duration::from_millis(55) {
        p.violate("waiters", "the waiters did not wait for the lock holder");
    }
    p.count("waiters released by a death", 4);
    p.case(("waiters", i), true);
}

pub fn holder(args: &[String]) {
    let (f, d) = stores(Path::new(&args[1])).unwrap();
    let f = &f;
    let _ = d.get_or_set(&dkey(0), |p| {
        fill(p, 70, Some(1), || {})?;
        f.get_or_set(&fkey(0).as_slice(), |w| {
            w.write_all(&value(71)[..5])?;
            w.flush()?;
            println!("holding");
            std::thread::sleep(Duration::from_secs(100));
            Ok(())
        })?;
        Ok(())
    });
}

pub fn run_(mut c: Ctx) {
    c.rule = "a case is one script killed at one of its file-system calls (or in which that call failed) and the examination afterwards; non-trivial if the kill or the failure happened; distinct by script, call, errno and tearing".into();
    c.level = "fault_enumeration";
    c.assumptions = vec![
        "the process is killed (SIGKILL); the machine and its page cache survive".into(),
        "file-system calls are those made through the C library (how Rust's std makes them)".into(),
    ];
    let dir = scratch();
    let shim = dir.path().join("kill.so");
    let src = c.root.join("harness/shim/kill.c");
    let o = Command::new("gcc").args(["-O1", "-w", "-shared", "-fPIC", "-o"]).arg(&shim).arg(&src).arg("-ldl").output();
    match o {
        Ok(o) if o.status.success() => {}
        o => {
            c.problem(format!("cannot build the shim: {o:?}"));
            c.finish()
        }
    }
    let lab = Lab { me: std::env::current_exe().unwrap(), shim };
    let served: Arc<Mutex<BTreeSet<u64>>> = Default::default();
    let (s2, n) = (served.clone(), std::sync::atomic::AtomicU64::new(1));
    let srv = Server::start(Arc::new(move |r: &Req| {
        let mut it = r.path()[1..].split('/');
        let (kind, k) = (it.next().unwrap_or(""), it.next().and_then(|k| k.parse::<u64>().ok()).unwrap_or(0));
        if kind == "h" {
            return Act::Reply(Reply::new(200, value(k)));
        }
        // some are fresh for long, some have to be revalidated, and change now and then
        let x = n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if let (Some(tag), true) = (r.header("If-None-Match"), x % 3 != 0) {
            return Act::Reply(Reply::new(304, "").h("ETag", tag).h("Cache-Control", "max-age=0"));
        }
        let id = 3_000_000_000 + x * 10 + k;
        s2.lock().unwrap().insert(id);
        let age = if k == 0 { "max-age=1000" } else { "max-age=0" };
        Act::Reply(Reply::new(200, value(id)).h("Cache-Control", age).h("ETag", &format!("\"{id}\"")))
    }));
    let base = srv.url("");
    let scripts = c.n(14, 100_000);
    parallel(&mut c, 8, 35, 750, |p| {
        let mut i = p.thread;
        for w in 0..3 {
            p.begin("waiters");
            waiters(p, &lab, w);
            p.end();
        }
        while i < p.thread + scripts && p.within() {
            p.begin(&format!("thread {} script {i}", p.thread));
            enumerate(p, &lab, &base, &served, i);
            p.end();
            srv.take();
            i += 1;
        }
    });
    c.finish()
}
