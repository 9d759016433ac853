//! C24: installing again, at once, or after something went wrong gives the same environment.
use crate::arch::*;
use crate::common::*;
use crate::py::*;
use crate::srv;
use crate::world::*;
use posy::verif::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::os::unix::fs::MetadataExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// One attempt at installing.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Job {
    forest: PathBuf,
    cache: PathBuf,
    store: PathBuf,
    url: String,
    blueprint: String,
    /// ask for the blueprint once more first
    brief: Option<(String, Vec<String>)>,
}

/// What an environment is: its variables, and what is in each of its directories.
#[derive(Clone, Debug, Default, PartialEq, serde::Serialize, serde::Deserialize)]
struct Made {
    vars: BTreeMap<String, String>,
    roots: BTreeMap<PathBuf, BTreeMap<PathBuf, String>>,
}

fn listing(root: &Path) -> BTreeMap<PathBuf, String> {
    inventory(root).into_iter().map(|(p, n)| (p, format!("{n:?}"))).collect()
}

fn install(j: &Job, undisturbed: impl FnOnce()) -> Out<Made> {
    let r = run(|| {
        let forest = EnvForest::new(&j.forest)?;
        let store = KVDirStore::new(&j.store)?;
        let db = PackageDB::new(&[j.url.parse()?], &j.cache, &forest, &store)?;
        let plat = PybiPlatform::new(NATIVE);
        let mut bp: Blueprint = serde_json::from_str(&j.blueprint)?;
        if let Some((python, reqs)) = &j.brief {
            let brief = Brief {
                python: python.as_str().try_into()?,
                requirements: reqs.iter().map(|r| r.as_str().try_into()).collect::<Result<_, _>>()?,
                allow_pre: AllowPre::All,
            };
            bp = brief.resolve(&db, &[&plat], Some(&bp), &[])?;
        }
        let env = forest.get_env(&db, &bp, &[&plat], &[])?;
        undisturbed();
        let mut m = Made::default();
        let base = j.forest.to_str().unwrap();
        for (k, v) in env.env_vars()? {
            m.vars.insert(k.into(), v.into_string().map_err(|v| eyre::eyre!("{v:?}"))?.replace(base, "FOREST"));
        }
        // (python is at ROOT/bin/python)
        let pybi = env.python.parent().and_then(|d| d.parent()).unwrap();
        for d in env.lib_dirs.iter().map(|d| d.parent().unwrap()).chain([pybi]) {
            m.roots.insert(d.strip_prefix(&j.forest)?.into(), listing(d));
        }
        Ok::<_, eyre::Report>(m)
    });
    r
}

pub fn worker(args: &[String]) -> ! {
    let j: Job = serde_json::from_str(&std::fs::read_to_string(&args[0]).unwrap()).unwrap();
    // all together
    if let Some(gate) = args.get(2) {
        while !Path::new(gate).exists() {
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    let _ = std::fs::File::open("/nowhere/ARM-THE-SHIM");
    let disarm = || drop(std::fs::File::open("/nowhere/REPORT-THE-SHIM"));
    let r = install(&j, disarm);
    disarm();
    let told: Result<Made, (String, String)> = match r {
        Out::Ok(m) => Ok(m),
        o => Err((o.kind().to_string(), o.describe())),
    };
    std::fs::write(&args[1], serde_json::to_string(&told).unwrap()).unwrap();
    std::process::exit(0)
}

/// What befalls a process.
#[derive(Clone, Debug)]
enum Fate {
    Undisturbed,
    Killed { only: &'static str, below: &'static str, at: u64, torn: bool },
    Fault { only: &'static str, below: &'static str, at: u64, errno: i32, all: bool },
}

enum End {
    Ok(Made),
    Err(String),
    Panic(String),
    Killed,
    /// had to be ended
    Hung,
}

impl End {
    fn kind(&self) -> &'static str {
        match self {
            End::Ok(_) => "installs",
            End::Err(_) => "reports an error",
            End::Panic(_) => "panics",
            End::Killed => "is killed",
            End::Hung => "hangs",
        }
    }
}

struct Lab {
    me: PathBuf,
    kill: PathBuf,
    delay: PathBuf,
}

struct Process {
    c: Child,
    out: PathBuf,
    log: PathBuf,
}

impl Lab {
    fn start(&self, dir: &Path, n: usize, j: &Job, fate: &Fate, delays: Option<u64>, gate: Option<&Path>) -> Process {
        let (path, out, log) = (dir.join(format!("job{n}")), dir.join(format!("job{n}.out")), dir.join(format!("job{n}.log")));
        std::fs::write(&path, serde_json::to_string(j).unwrap()).unwrap();
        let _ = std::fs::remove_file(&out);
        let mut c = Command::new(&self.me);
        c.arg("c24-worker").arg(&path).arg(&out);
        if let Some(g) = gate {
            c.arg(g);
        }
        let mut shims = vec![];
        match fate {
            Fate::Undisturbed => {}
            Fate::Killed { only, below, at, torn } => {
                c.env("POSY_KILL_BELOW", below);
                shims.push(self.kill.display().to_string());
                c.env("POSY_KILL_AT", at.to_string()).env("POSY_KILL_ONLY", only);
                if *torn {
                    c.env("POSY_KILL_TORN", "1");
                }
            }
            Fate::Fault { only, below, at, errno, all } => {
                c.env("POSY_KILL_BELOW", below);
                shims.push(self.kill.display().to_string());
                c.env("POSY_KILL_AT", at.to_string()).env("POSY_KILL_ONLY", only).env("POSY_FAIL", errno.to_string());
                if *all {
                    c.env("POSY_FAIL_ALL", "1");
                }
            }
        }
        if let Some(seed) = delays {
            shims.push(self.delay.display().to_string());
            c.env("POSY_DELAY_SEED", seed.to_string());
        }
        if !shims.is_empty() {
            c.env("LD_PRELOAD", shims.join(" "));
        }
        let c = c.process_group(0).stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(&log).unwrap()).spawn().unwrap();
        Process { c, out, log }
    }
}

impl Process {
    /// how it ended, and how many calls of the chosen kind were seen
    fn wait(mut self, until: Instant) -> (End, Option<u64>) {
        let status = loop {
            match self.c.try_wait() {
                Ok(Some(s)) => break Some(s),
                _ if Instant::now() > until => break None,
                _ => std::thread::sleep(Duration::from_millis(1)),
            }
        };
        // and whatever it started
        unsafe { libc::kill(-(self.c.id() as i32), libc::SIGKILL) };
        let _ = self.c.wait();
        let log = std::fs::read(&self.log).unwrap_or_default();
        let seen = String::from_utf8_lossy(&log).lines().rev().find_map(|l| l.strip_prefix("SHIM count ").and_then(|n| n.parse().ok()));
        let end = match status {
            None => End::Hung,
            Some(s) if s.signal() == Some(9) => End::Killed,
            Some(s) => match std::fs::read_to_string(&self.out).ok().and_then(|t| serde_json::from_str::<Result<Made, (String, String)>>(&t).ok()) {
                Some(Ok(m)) => End::Ok(m),
                Some(Err((k, e))) if k == "panic" => End::Panic(e),
                Some(Err((_, e))) => End::Err(e),
                None => End::Panic(format!("{s}: {}", truncate(&String::from_utf8_lossy(&log), 600))),
            },
        };
        (end, seen)
    }
}

struct World {
    pages: Pages,
    /// (python, requirements), blueprint, what a first installation of it gives
    plans: Vec<(String, Vec<String>, String, Made)>,
    /// the files of wheels and interpreters, by their hashes
    files: Vec<File>,
    builds: bool,
    tell: Vec<String>,
}

fn junk(rng: &fastrand::Rng) -> Vec<u8> {
    let n = if chance(rng, 10) { rng.usize(10_000..90_000) } else { rng.usize(0..600) };
    let b: u8 = rng.u8(..);
    (0..n).map(|i| if i % 7 == 0 { rng.u8(..) } else { b }).collect()
}

fn wheel_contents(rng: &fastrand::Rng, dist: &str, version: &str) -> Vec<M> {
    let mut ms = vec![];
    for i in 0..rng.usize(1..14) {
        let dir = *pick(rng, &["", "", "sub/", "sub/deep er/"]);
        let m = M::file(&format!("{}/{dir}m{i}.py", dist.to_lowercase()), junk(rng));
        ms.push(if rng.bool() { m.exec() } else { m });
    }
    let data = format!("{dist}-{version}.data");
    if rng.bool() {
        ms.push(M::file(&format!("{data}/scripts/{dist}-run"), "#!python\nprint('hi')\n").exec());
    }
    if rng.bool() {
        ms.push(M::file(&format!("{data}/scripts/{dist}-sh"), "#!/bin/sh\nexit 0\n").exec());
    }
    if rng.bool() {
        ms.push(M::file(&format!("{data}/data/share/{dist}.txt"), junk(rng)));
        ms.push(M::file(&format!("{data}/platlib/{dist}_x.so"), junk(rng)).exec());
    }
    if rng.bool() {
        ms.push(M::file(&format!("{dist}-{version}.dist-info/entry_points.txt"), format!("[console_scripts]\n{dist}-go = os:getcwd\n[gui_scripts]\n{dist}-w = os:getcwd\n")));
    }
    ms
}

fn gen(rng: &fastrand::Rng) -> World {
    let mut pages = Pages::new();
    let mut files = vec![];
    let mut tell = vec![];
    for v in ["3.12.3", "3.12.1"] {
        let mut more = vec![];
        for i in 0..rng.usize(0..8) {
            more.push(M::file(&format!("lib/python3/x{i}/y.py"), junk(rng)));
            if rng.bool() {
                more.push(M::link(&format!("lib/python3/x{i}/link"), *pick(rng, &["y.py", "../x0", "../../../bin/python", "nowhere"])));
            }
        }
        let f = real_pybi_with("cpython_unofficial", v, NATIVE, &format!("{v} {}", rng.u32(..)), &LAYOUTS[0], &more);
        files.push(f.clone());
        add(&mut pages, 0, "cpython_unofficial", f);
    }
    let names = ["alpha", "beta", "gamma", "delta", "epsilon"];
    let n = rng.usize(2..=names.len());
    let mut builds = false;
    let mut sdists: Vec<usize> = (0..n).filter(|_| chance(rng, 15)).collect();
    if chance(rng, 40) {
        sdists.clear();
    }
    for i in 0..n {
        let name = names[i];
        let deps: Vec<&str> = (i + 1..n).filter(|_| chance(rng, 30)).map(|j| names[j]).collect();
        let meta: String = deps.iter().map(|d| format!("Requires-Dist: {d}\n")).collect();
        let bytes = wheel_bytes(name, "1.0", &meta, &wheel_contents(rng, name, "1.0"));
        tell.push(format!("{name}{} needs {deps:?}", if sdists.contains(&i) { " (source)" } else { "" }));
        if sdists.contains(&i) {
            builds = true;
            let requires: Vec<String> = (i + 1..n).filter(|_| chance(rng, 40)).map(|j| names[j].to_string()).collect();
            tell.push(format!("  {name} needs {requires:?} to be built"));
            let plan = Plan {
                requires,
                dynamic: if rng.bool() { Some(vec![]) } else { None },
                metadata_hook: rng.bool(),
                wheel: (format!("{name}-1.0-py3-none-any.whl"), bytes),
                pick: name.into(),
                zip: rng.bool(),
                ..Default::default()
            };
            add(&mut pages, 0, name, sdist(name, "1.0", &plan));
        } else {
            let tag = *pick(rng, &["py3-none-any", "py3-none-any", "cp312-cp312-manylinux_2_17_x86_64"]);
            let f = File::new(&format!("{name}-1.0-{tag}.whl"), bytes);
            files.push(f.clone());
            add(&mut pages, 0, name, f);
        }
    }
    let mut plans = vec![];
    for k in 0..rng.usize(1..4) {
        let python = format!("cpython_unofficial=={}", ["3.12.3", "3.12.1", "3.12.3"][k]);
        let mut reqs: Vec<String> = names[..n].iter().filter(|_| chance(rng, 60)).map(|s| s.to_string()).collect();
        shuffle(rng, &mut reqs);
        plans.push((python, reqs, String::new(), Made::default()));
    }
    World { pages, plans, files, builds, tell }
}

/// Everything that is in a finished directory, and which file it is.
type Snapshot = BTreeMap<PathBuf, (String, u64, i64, i64)>;

fn snapshot(root: &Path) -> Snapshot {
    inventory(root)
        .into_iter()
        .map(|(p, n)| {
            let (ino, s, ns) = std::fs::symlink_metadata(root.join(&p)).map_or((0, 0, 0), |m| (m.ino(), m.mtime(), m.mtime_nsec()));
            (p, (format!("{n:?}"), ino, s, ns))
        })
        .collect()
}

fn diff<V: PartialEq + std::fmt::Debug>(a: &BTreeMap<PathBuf, V>, b: &BTreeMap<PathBuf, V>) -> String {
    let mut v: Vec<String> = a.keys().filter(|k| !b.contains_key(*k)).map(|k| format!("no {}", k.display())).collect();
    v.extend(b.keys().filter(|k| !a.contains_key(*k)).map(|k| format!("also {}", k.display())));
    v.extend(a.iter().filter(|(k, x)| b.get(*k).map_or(false, |y| y != *x)).map(|(k, x)| format!("{}: {x:?}, now {:?}", k.display(), b[k])));
    truncate(&v.join("; "), 1500)
}

/// How what was installed differs from what should have been.
fn differs(want: &Made, got: &Made) -> Option<String> {
    if want.vars != got.vars {
        return Some(format!("variables {:?}, should be {:?}", got.vars, want.vars));
    }
    for (d, l) in &want.roots {
        match got.roots.get(d) {
            Some(m) if m == l => {}
            Some(m) => return Some(format!("{}: {}", d.display(), diff(l, m))),
            None => return Some(format!("no {}", d.display())),
        }
    }
    None
}

const KINDS: &[&str] = &["rename", "rename", "mkdir", "create", "write,writev", "chmod", "symlink", "flock", "sync", "open", "unlink,rmdir", "close", "copy,truncate,lseek", "rename,mkdir,create,open,flock"];
const FAULTS: &[(&str, i32, bool)] = &[
    ("write,writev,create,mkdir,symlink", libc::ENOSPC, true),
    ("write,writev,create,mkdir,symlink", libc::ENOSPC, true),
    ("write,writev", libc::EDQUOT, false),
    ("write,writev", libc::EIO, false),
    ("write,writev", libc::EINTR, false),
    ("rename", libc::EIO, false),
    ("rename", libc::EACCES, false),
    ("mkdir", libc::EACCES, false),
    ("create", libc::EMFILE, false),
    ("open", libc::EMFILE, false),
    ("open", libc::EIO, false),
    ("open", libc::EINTR, false),
    ("chmod", libc::EPERM, false),
    ("chmod", libc::EIO, false),
    ("symlink", libc::EIO, false),
    ("flock", libc::EINTR, false),
    ("flock", libc::ENOLCK, false),
    ("sync", libc::EIO, false),
    ("read", libc::EIO, false),
    ("read", libc::EINTR, false),
    ("lseek,truncate", libc::EIO, false),
    ("unlink,rmdir", libc::EACCES, false),
];

type Seen = HashMap<(&'static str, &'static str), u64>;

fn fate(rng: &fastrand::Rng, seen: &Seen, builds: bool) -> Fate {
    // where: anywhere, or something in particular
    let below = *pick(rng, &["", "/forest", "/forest", "/forest", "/cache", "/build-store", ".whl"][..if builds { 7 } else { 5 }]);
    let at = |only: &'static str| {
        let n = seen.get(&(only, below)).copied().unwrap_or(8).max(1);
        // in the midst, near the end, or at the beginning
        match rng.u8(0..4) {
            0 => n - rng.u64(0..n.min(12)),
            1 => rng.u64(1..=n.min(20)),
            _ => rng.u64(1..=n),
        }
    };
    if rng.bool() {
        let only = *pick(rng, KINDS);
        Fate::Killed { only, below, at: at(only), torn: rng.bool() }
    } else {
        let (only, errno, all) = *pick(rng, FAULTS);
        Fate::Fault { only, below, at: at(only), errno, all }
    }
}

/// A directory with forests, caches, build stores, and what happened to them.
struct Place {
    dir: tempfile::TempDir,
    forest: usize,
    caches: usize,
    history: Vec<String>,
    finished: HashMap<PathBuf, Snapshot>,
}

fn history(p: &mut Part, lab: &Lab, w: &World, index: &Index, seen: &mut Seen) {
    let rng = fastrand::Rng::with_seed(p.rng.u64(..));
    let mut at = Place { dir: scratch(), forest: 0, caches: 1, history: w.tell.clone(), finished: HashMap::new() };
    let dir = at.dir.path().to_path_buf();
    let mut n = 0;
    let steps = rng.usize(2..8);
    for step in 0..=steps {
        if !p.within() && step > 0 {
            return;
        }
        let job = |at: &Place, i: usize| {
            let (python, reqs, bp, _) = &w.plans[i];
            Job {
                forest: dir.join(format!("forest{}", at.forest)),
                cache: dir.join(format!("cache{}", if chance(&rng, 70) { at.caches - 1 } else { rng.usize(0..at.caches) })),
                store: dir.join("build-store"),
                url: index.urls(1)[0].to_string(),
                blueprint: bp.clone(),
                brief: if chance(&rng, 20) { Some((python.clone(), reqs.clone())) } else { None },
            }
        };
        let until = Instant::now() + Duration::from_secs(60);
        // (who did what with which outcome)
        let mut ends: Vec<(usize, Job, bool, End)> = vec![];
        let mut note = |at: &mut Place, s: String| {
            at.history.push(s);
            p.begin(&at.history.join("\n"));
        };
        let last = step == steps;
        // somewhere else, but with what was fetched so far; or fetching again
        if step > 0 && !last {
            at.forest += chance(&rng, 55) as usize;
            at.caches += chance(&rng, 20) as usize;
        }
        match if last { 0 } else { rng.u8(0..12) } {
            // nothing special
            0 | 1 => {
                for i in 0..w.plans.len() {
                    if last || rng.bool() {
                        let j = job(&at, i);
                        note(&mut at, format!("install {i} into {} with {}", j.forest.display(), j.cache.display()));
                        n += 1;
                        let (e, _) = lab.start(&dir, n, &j, &Fate::Undisturbed, None, None).wait(until);
                        ends.push((i, j, true, e));
                    }
                }
            }
            // one that is killed, or whose calls fail
            2..=6 => {
                let i = rng.usize(0..w.plans.len());
                let j = job(&at, i);
                let f = fate(&rng, seen, w.builds);
                note(&mut at, format!("install {i} into {} with {}: {f:?}", j.forest.display(), j.cache.display()));
                n += 1;
                let (e, count) = lab.start(&dir, n, &j, &f, None, None).wait(until);
                let (Fate::Killed { only, below, .. } | Fate::Fault { only, below, .. }) = &f else { unreachable!() };
                if let End::Panic(m) = &e {
                    p.count(&format!("panic: {}", truncate(m, 200)), 1);
                }
                if let (Some(c), End::Ok(_)) = (count, &e) {
                    seen.entry((only, below)).and_modify(|x| *x = (*x).max(c)).or_insert(c);
                }
                if let Fate::Fault { errno, .. } = &f {
                    p.count(&format!("fault {}: {}", std::io::Error::from_raw_os_error(*errno).to_string().split(" (").next().unwrap(), e.kind()), 1);
                } else if matches!(e, End::Killed) {
                    p.count(&format!("killed at {only}"), 1);
                    p.count(&format!("killed on something at {below:?}"), 1);
                }
                ends.push((i, j, false, e));
            }
            // the server does not deliver
            7 => {
                let i = rng.usize(0..w.plans.len());
                let j = job(&at, i);
                let f = pick(&rng, &w.files);
                let path = format!("/files/{}/{}", f.sha, f.name);
                let half = f.bytes.len() / 2;
                let (what, reply) = match rng.u8(0..if step == 0 && !w.builds { 4 } else { 2 }) {
                    0 => ("not found", srv::Reply::new(404, "gone")),
                    1 => {
                        let mut r = srv::Reply::new(200, &*f.bytes);
                        r.cut = Some(half);
                        ("cut off", r)
                    }
                    2 => ("replaced by something else", srv::Reply::new(200, junk(&rng))),
                    _ => ("shortened", srv::Reply::new(200, &f.bytes[..half])),
                };
                note(&mut at, format!("install {i} into {} with {} while {} is {what}", j.forest.display(), j.cache.display(), f.name));
                index.state.lock().unwrap().special.insert(path, reply);
                n += 1;
                let (e, _) = lab.start(&dir, n, &j, &Fate::Undisturbed, None, None).wait(until);
                index.state.lock().unwrap().special.clear();
                p.count(&format!("file {what}: {}", e.kind()), 1);
                ends.push((i, j, false, e));
            }
            // several at once
            8..=10 => {
                let same = chance(&rng, 60);
                let first = rng.usize(0..w.plans.len());
                let gate = dir.join(format!("gate{step}"));
                let many = rng.usize(2..5);
                let some_die = chance(&rng, 50);
                let mut running = vec![];
                for k in 0..many {
                    let i = if same { first } else { rng.usize(0..w.plans.len()) };
                    let mut j = job(&at, i);
                    let f = if some_die && k > 0 && rng.bool() { fate(&rng, seen, w.builds) } else { Fate::Undisturbed };
                    // (what a backend does after the death of its posy is its own affair)
                    if !matches!(f, Fate::Undisturbed) {
                        j.store = dir.join(format!("build-store-{step}-{k}"));
                    }
                    let delays = if chance(&rng, 80) { Some(rng.u64(..)) } else { None };
                    note(&mut at, format!("at once: install {i} into {} with {}, {}: {f:?}, delays {delays:?}", j.forest.display(), j.cache.display(), j.store.display()));
                    n += 1;
                    running.push((i, j.clone(), matches!(f, Fate::Undisturbed), lab.start(&dir, n, &j, &f, delays, Some(&gate))));
                }
                std::fs::write(&gate, "").unwrap();
                for (i, j, undisturbed, c) in running {
                    ends.push((i, j, undisturbed, c.wait(until).0));
                }
                p.count("processes at once", many as u64);
            }
            // threads at once
            _ => {
                let jobs: Vec<(usize, Job)> = (0..rng.usize(2..5))
                    .map(|_| {
                        let i = rng.usize(0..w.plans.len());
                        (i, job(&at, i))
                    })
                    .collect();
                note(&mut at, format!("in threads at once: install {:?}", jobs.iter().map(|(i, j)| format!("{i} into {} with {}", j.forest.display(), j.cache.display())).collect::<Vec<_>>()));
                let outs: Vec<Out<Made>> = std::thread::scope(|s| {
                    let hs: Vec<_> = jobs.iter().map(|(_, j)| s.spawn(move || install(j, || {}))).collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                p.count("threads at once", outs.len() as u64);
                for ((i, j), o) in jobs.into_iter().zip(outs) {
                    let e = match o {
                        Out::Ok(m) => End::Ok(m),
                        Out::Err(e) => End::Err(e),
                        Out::Panic(e) => End::Panic(e),
                    };
                    ends.push((i, j, true, e));
                }
            }
        }
        p.end();
        let told: String = at.history.join("\n").replace(dir.to_str().unwrap(), "");
        p.case(&(told.as_str(), w.plans.iter().map(|x| &x.2).collect::<Vec<_>>()), !ends.is_empty());
        if p.wants_sample(&rng) {
            p.sample(json!({"history": at.history.iter().map(|h| h.replace(dir.to_str().unwrap(), "")).collect::<Vec<_>>(), "ends": ends.iter().map(|e| e.3.kind()).collect::<Vec<_>>(), "directories finished so far": at.finished.len()}));
        }
        // what was finished stays as it was
        for (root, s) in &at.finished {
            let now = snapshot(root);
            if now != *s {
                p.violate("finished-modified", format!("{}: {}\n{told}", root.display(), diff(s, &now)));
                return;
            }
        }
        p.count("finished directories looked at again", at.finished.len() as u64);
        for (i, j, undisturbed, e) in ends {
            p.count(&format!("{}: {}", if undisturbed { "undisturbed" } else { "disturbed" }, e.kind()), 1);
            match e {
                End::Ok(m) => {
                    if let Some(d) = differs(&w.plans[i].3, &m) {
                        p.violate("other-environment", format!("{d}\n{told}"));
                        return;
                    }
                    for r in m.roots.keys() {
                        let root = j.forest.join(r);
                        let s = snapshot(&root);
                        at.finished.entry(root).or_insert(s);
                    }
                }
                End::Err(m) | End::Panic(m) if undisturbed => {
                    p.violate("cannot-install", format!("{}\n{told}", truncate(&m, 800)));
                    return;
                }
                End::Hung => {
                    p.violate("hangs", told.clone());
                    return;
                }
                End::Killed if undisturbed => {
                    p.problem(format!("something killed a process\n{told}"));
                    return;
                }
                _ => {}
            }
        }
    }
    p.count("histories", 1);
}

fn work(p: &mut Part, lab: &Lab) {
    let index = Index::new();
    let mut seen = Seen::new();
    while p.within() {
        let rng = fastrand::Rng::with_seed(p.rng.u64(..));
        let mut w = gen(&rng);
        index.set(w.pages.clone(), rng.bool());
        // resolved and installed once, without disturbance; and then elsewhere again
        let tell = w.tell.join("\n");
        p.begin(&tell);
        for k in 0..w.plans.len() {
            let mut made: Vec<Made> = vec![];
            for again in [false, true] {
                let home = Home::new();
                let (python, reqs, bp, _) = &w.plans[k];
                let bp = if again {
                    bp.clone()
                } else {
                    let db = home.db(&index.urls(1));
                    let plat = PybiPlatform::new(NATIVE);
                    let r = run(|| {
                        let brief = Brief {
                            python: python.as_str().try_into()?,
                            requirements: reqs.iter().map(|r| r.as_str().try_into()).collect::<Result<_, _>>()?,
                            allow_pre: AllowPre::All,
                        };
                        Ok::<_, eyre::Report>(serde_json::to_string(&brief.resolve(&db, &[&plat], None, &[])?)?)
                    });
                    match r {
                        Out::Ok(b) => b,
                        o => {
                            p.end();
                            return p.violate("cannot-install", format!("resolving {python} {reqs:?}: {}\n{tell}", o.describe()));
                        }
                    }
                };
                let j = Job { forest: home.dir.join("forest"), cache: home.dir.join("cache"), store: home.dir.join("build-store"), url: index.urls(1)[0].to_string(), blueprint: bp.clone(), brief: None };
                match install(&j, || {}) {
                    Out::Ok(m) => made.push(m),
                    o => {
                        p.end();
                        return p.violate("cannot-install", format!("{python} {reqs:?}: {}\n{tell}", o.map(|_| ()).describe()));
                    }
                }
                w.plans[k].2 = bp;
            }
            if let Some(d) = differs(&made[0], &made[1]) {
                p.end();
                return p.violate("other-environment", format!("installing twice in two places: {d}\n{tell}"));
            }
            w.plans[k].3 = made.pop().unwrap();
            let (_, reqs, _, m) = &w.plans[k];
            w.tell.push(format!("blueprint {k}: {reqs:?}, {} files", m.roots.values().map(|r| r.len()).sum::<usize>()));
        }
        p.end();
        p.count("worlds", 1);
        p.count("worlds with source packages", w.builds as u64);
        for _ in 0..rng.usize(2..5) {
            if p.within() {
                index.set(w.pages.clone(), rng.bool());
                history(p, lab, &w, &index, &mut seen);
            }
        }
    }
}

pub fn run_(mut c: Ctx) -> ! {
    c.rule = "a case is a step of a history of installations (repeated, killed, failing, concurrent) in one place, judged by what two undisturbed installations elsewhere gave; distinct by world and history".into();
    c.level = "fault_enumeration";
    c.assumptions = vec![
        "processes are killed (SIGKILL) or their C library calls fail; the machine and its page cache survive".into(),
        "backends of source packages give the same wheel every time".into(),
    ];
    py();
    let dir = scratch();
    let mut built = vec![];
    for s in ["kill", "delay"] {
        let so = dir.path().join(format!("{s}.so"));
        let src = c.root.join(format!("harness/shim/{s}.c"));
        match Command::new("gcc").args(["-O1", "-w", "-shared", "-fPIC", "-o"]).arg(&so).arg(&src).arg("-ldl").output() {
            Ok(o) if o.status.success() => built.push(so),
            o => {
                c.problem(format!("cannot build the shim: {o:?}"));
                c.finish()
            }
        }
    }
    let lab = Lab { me: std::env::current_exe().unwrap(), kill: built[0].clone(), delay: built[1].clone() };
    parallel(&mut c, 8, 50, 750, |p| work(p, &lab));
    for k in ["undisturbed: installs", "disturbed: is killed", "disturbed: reports an error", "processes at once", "worlds with source packages", "finished directories looked at again"] {
        if !c.violated() && c.counters.get(k).copied().unwrap_or(0) == 0 {
            c.problem(format!("never observed: {k}"));
        }
    }
    c.finish()
}
