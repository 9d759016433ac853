//! C20: source packages are built in isolation, once, without loops.
use crate::arch::*;
use crate::common::*;
use crate::pep508::normalize;
use crate::py::*;
use crate::world::*;
use posy::verif::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Wheel,
    Sdist,
    Both,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Backend {
    InTree,
    /// in a wheel among the requirements, at this object path
    Tool(&'static str),
    /// whatever setuptools offers, without being asked by name
    NoTable,
    Absent,
    RequiresOnly,
    /// backend-path leads out of the source tree
    Escape(&'static str),
    /// the source can't be made sense of
    Spoiled(&'static str),
}

impl Backend {
    /// must never be called
    fn hopeless(&self) -> bool {
        matches!(self, Backend::Escape(_) | Backend::Spoiled(_))
    }
}

#[derive(Clone, Debug)]
struct Fault {
    hook: String,
    at: i64,
    how: String,
}

#[derive(Clone, Debug)]
struct Pkg {
    name: String,
    version: String,
    kind: Kind,
    /// runtime dependencies, build requirements
    deps: Vec<usize>,
    stat: Vec<usize>,
    dynamic: Option<Vec<usize>>,
    hook: bool,
    backend: Backend,
    faults: Vec<Fault>,
    native: bool,
    /// the wheel that is built suits nobody
    alien: bool,
    /// what its files say
    id: String,
    wheel: File,
    sdist: Option<File>,
}

/// tools that are only there as wheels, after the packages
const TOOLS: &[&str] = &["tool-backend", "setuptools", "wheel"];

struct World {
    pkgs: Vec<Pkg>,
    tools: Vec<File>,
    pybis: Vec<(String, String, File)>, // version, platform
    /// interpreters for other platforms
    foreign: Vec<(String, String, File)>,
    log: PathBuf,
    /// the second will lose its wheel and then needs the first, which needs it
    turncoat: bool,
}

fn tool_wheels() -> Vec<File> {
    let hooks = "def _wrong(*a, **k):\n    raise RuntimeError('called on the wrong object')\nfor _k in ('get_requires_for_build_wheel', 'prepare_metadata_for_build_wheel', 'build_wheel'):\n    globals()[_k] = _wrong\n";
    let tool = format!("{BACKEND}\n{hooks}\nclass Box: pass\nobj = Box()\nobj.attr = backend\nobj.get_requires_for_build_wheel = obj.prepare_metadata_for_build_wheel = obj.build_wheel = _wrong\nboxed = backend\n");
    let setuptools = format!("{BACKEND}\n{hooks}\n__legacy__ = backend\n");
    [
        ("tool_backend", vec![M::file("tool_backend/__init__.py", "raise_ = 1\n"), M::file("tool_backend/api.py", tool), M::file("tool_flat.py", BACKEND),
            // must not win over the one in the source tree
            M::file("own_backend.py", "raise RuntimeError('a backend of the environment instead of the one in the source tree')\n")]),
        ("setuptools", vec![M::file("setuptools/__init__.py", ""), M::file("setuptools/build_meta.py", setuptools)]),
        ("wheel", vec![M::file("wheel/__init__.py", "")]),
    ]
    .iter()
    .map(|(d, ms)| File::new(&format!("{d}-1.0-py3-none-any.whl"), wheel_bytes(d, "1.0", "", ms)))
    .collect()
}

fn dist_of(name: &str) -> String {
    name.replace(['-', '.'], "_")
}

impl World {
    fn name(&self, i: usize) -> &str {
        if i < self.pkgs.len() {
            &self.pkgs[i].name
        } else {
            TOOLS[i - self.pkgs.len()]
        }
    }

    /// names of everything that comes along with these packages
    fn closure(&self, roots: &[usize]) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        let mut todo = roots.to_vec();
        while let Some(i) = todo.pop() {
            if out.insert(i) && i < self.pkgs.len() {
                todo.extend(&self.pkgs[i].deps);
            }
        }
        out
    }

    fn static_of(&self, i: usize) -> Vec<usize> {
        let n = self.pkgs.len();
        match self.pkgs[i].backend {
            Backend::InTree | Backend::Escape(_) | Backend::Spoiled(_) => self.pkgs[i].stat.clone(),
            Backend::Tool(_) => self.pkgs[i].stat.iter().copied().chain([n]).collect(),
            Backend::NoTable | Backend::Absent => vec![n + 1, n + 2],
            Backend::RequiresOnly => self.pkgs[i].stat.iter().copied().chain([n + 1]).collect(),
        }
    }

    fn full_of(&self, i: usize) -> Vec<usize> {
        let mut v = self.static_of(i);
        v.extend(self.pkgs[i].dynamic.iter().flatten());
        v
    }

    /// packages that must be built to get an environment with these
    fn needs(&self, roots: &[usize]) -> Vec<usize> {
        self.closure(roots).into_iter().filter(|&i| i < self.pkgs.len() && self.pkgs[i].kind == Kind::Sdist).collect()
    }

    /// everything that is built, directly or for something else; and whether anything
    /// needs itself
    fn builds(&self, roots: &[usize]) -> (BTreeSet<usize>, bool) {
        fn go(w: &World, i: usize, stack: &mut Vec<usize>, all: &mut BTreeSet<usize>, looped: &mut bool) {
            if stack.contains(&i) {
                *looped = true;
                return;
            }
            if !all.insert(i) {
                return;
            }
            stack.push(i);
            for j in w.needs(&w.full_of(i)) {
                go(w, j, stack, all, looped);
            }
            stack.pop();
        }
        // (a loop can hide behind something seen already, so look from every one)
        let (mut all, mut looped) = (BTreeSet::new(), false);
        for i in self.needs(roots) {
            go(self, i, &mut vec![], &mut all, &mut looped);
        }
        for &i in &all {
            go(self, i, &mut vec![], &mut BTreeSet::new(), &mut looped);
        }
        (all, looped)
    }

    /// Must it fail? (unless results from before are still there)
    fn doomed(&self, roots: &[usize], j: &Job) -> bool {
        let (builds, looped) = self.builds(roots);
        let alien = |v: &[usize]| self.closure(v).into_iter().any(|i| i < self.pkgs.len() && self.pkgs[i].alien);
        looped
            || builds.iter().any(|&i| self.pkgs[i].backend.hopeless())
            || builds.iter().any(|&i| alien(&self.full_of(i)))
            || (j.install && (alien(roots) || (j.plat != NATIVE && self.closure(roots).into_iter().any(|i| i < self.pkgs.len() && self.pkgs[i].native))))
    }

    /// (version, platform, version that builds are to use)
    fn targets(&self) -> Vec<(String, String, String)> {
        let key = |v: &str| {
            let (v, rc) = v.split_once("rc").unwrap_or((v, "99"));
            let mut k: Vec<u32> = v.split('.').map(|x| x.parse().unwrap()).collect();
            k.push(rc.parse().unwrap());
            k
        };
        let mut out: Vec<_> = self.pybis.iter().map(|(v, _, _)| (v.clone(), NATIVE.to_string(), v.clone())).collect();
        for (v, plat, _) in &self.foreign {
            let newest = |f: &dyn Fn(&str) -> bool| {
                let mut vs: Vec<&str> = self.pybis.iter().map(|x| x.0.as_str()).filter(|x| f(x)).collect();
                if !v.contains("rc") {
                    vs.retain(|x| !x.contains("rc"));
                }
                vs.into_iter().max_by_key(|x| key(x))
            };
            let by = newest(&|x| x == v).or_else(|| newest(&|x| key(x)[..2] == key(v)[..2])).or_else(|| newest(&|_| true));
            if let Some(by) = by {
                out.push((v.clone(), plat.clone(), by.to_string()));
            }
        }
        out
    }

    fn pages(&self) -> Pages {
        let mut p = Pages::new();
        for (_, _, f) in self.pybis.iter().chain(&self.foreign) {
            add(&mut p, 0, "cpython_unofficial", f.clone());
        }
        for (n, f) in TOOLS.iter().zip(&self.tools) {
            add(&mut p, 0, n, f.clone());
        }
        for k in &self.pkgs {
            p.entry((0, normalize(&k.name))).or_default();
            if k.kind != Kind::Wheel {
                add(&mut p, 0, &k.name, k.sdist.clone().unwrap());
            }
            if k.kind != Kind::Sdist {
                add(&mut p, 0, &k.name, k.wheel.clone());
            }
        }
        p
    }

    fn describe(&self) -> String {
        let names = |v: &[usize]| v.iter().map(|&i| self.name(i).to_string()).collect::<Vec<_>>();
        self.pkgs
            .iter()
            .map(|k| {
                format!(
                    "  {} {} {:?} needs {:?}; to build: {:?} then {:?}; {:?} metadata hook {} {}{}\n",
                    k.name,
                    k.version,
                    k.kind,
                    names(&k.deps),
                    names(&k.stat),
                    k.dynamic.as_ref().map(|d| names(d)),
                    k.backend,
                    k.hook,
                    match (k.native, k.alien) { (_, true) => "alien ", (true, _) => "native ", _ => "" },
                    k.faults.iter().map(|f| format!("FAULT {} in {} call {}; ", f.how, f.hook, f.at)).collect::<String>()
                )
            })
            .chain(self.pybis.iter().chain(&self.foreign).map(|(v, t, _)| format!("  python {v} {t}\n")))
            .collect()
    }
}

fn spell(rng: &fastrand::Rng, name: &str, version: &str) -> String {
    match rng.u8(0..6) {
        0 => format!("{name}=={version}"),
        1 => format!("{} >= 0", name.to_uppercase()),
        2 => format!("{name}; python_version >= '3'"),
        3 => normalize(name).replace('-', "_"),
        _ => name.into(),
    }
}

fn gen(rng: &fastrand::Rng, log: PathBuf) -> World {
    let all = ["Alpha", "be.ta", "Gam-ma", "delta_x", "eps", "zeta"];
    let n = rng.usize(1..=5);
    let cyclic = chance(rng, 30);
    let mut w = World { pkgs: vec![], tools: tool_wheels(), pybis: vec![], foreign: vec![], log, turncoat: n > 1 && chance(rng, 8) };
    let some = |i: usize, p: u32| -> Vec<usize> { (0..n).filter(|&j| (j > i || (cyclic && chance(rng, 25))) && chance(rng, p)).collect() };
    for i in 0..n {
        let kind = match rng.u8(0..10) {
            0 | 1 => Kind::Wheel,
            2 => Kind::Both,
            3..=5 if cyclic => Kind::Both,
            _ => Kind::Sdist,
        };
        // (run time dependencies may form circles)
        let deps = if chance(rng, 30) { (0..n).filter(|&j| j != i && chance(rng, 25)).collect() } else { vec![] };
        let backend = match rng.u8(0..16) {
            0 | 1 => Backend::Tool("tool_backend.api:boxed"),
            2 => Backend::Tool("tool_backend.api:obj.attr"),
            3 => Backend::Tool("tool_flat"),
            4 => Backend::NoTable,
            5 => Backend::Absent,
            6 => Backend::RequiresOnly,
            7 if chance(rng, 40) => Backend::Escape(*pick(rng, &["..", "../elsewhere", "/", "be/../../x"])),
            8 if chance(rng, 30) => Backend::Spoiled(*pick(rng, &["two-tops", "requirement", "toml"])),
            _ => Backend::InTree,
        };
        let mut faults = vec![];
        if chance(rng, 35) {
            for _ in 0..rng.usize(1..3) {
                let hook = *pick(rng, &["import", "get_requires_for_build_wheel", "prepare_metadata_for_build_wheel", "build_wheel", "build_wheel"]);
                let how = match hook {
                    "import" | "get_requires_for_build_wheel" => *pick(rng, &["raise", "exit3", "exit0", "_exit0", "kill"]),
                    _ => *pick(rng, &["raise", "exit3", "exit0", "_exit0", "kill", "none", "late-raise", "late-exit0", "late-kill", "late-lie", "late-_exit0"]),
                };
                faults.push(Fault { hook: hook.into(), at: if chance(rng, 20) { -1 } else { rng.i64(0..2) }, how: how.into() });
            }
        }
        w.pkgs.push(Pkg {
            name: all[i].into(),
            version: pick(rng, &["1.0", "2.0.post1", "1.0+local.1", "0.1.dev3"]).to_string(),
            kind,
            deps,
            stat: if backend == Backend::NoTable || backend == Backend::Absent { vec![] } else { some(i, 40) },
            dynamic: if rng.bool() { Some(some(i, 40)) } else { None },
            hook: rng.bool(),
            backend,
            faults,
            native: chance(rng, 30),
            alien: kind == Kind::Sdist && chance(rng, 5),
            id: format!("{} #{}", all[i], rng.u32(..)),
            wheel: File::new("x", vec![]),
            sdist: None,
        });
    }
    if w.turncoat {
        for i in 0..2 {
            let k = &mut w.pkgs[i];
            (k.backend, k.faults, k.dynamic, k.hook, k.stat, k.alien) = (Backend::InTree, vec![], None, true, vec![1 - i], false);
            k.kind = if i == 0 { Kind::Sdist } else { Kind::Both };
        }
    }
    for i in 0..n {
        let k = w.pkgs[i].clone();
        let dist = dist_of(&k.name);
        let mut meta = String::new();
        for &d in &k.deps {
            meta += &format!("Requires-Dist: {}\n", spell(rng, w.name(d), &w.pkgs[d].version));
        }
        if rng.bool() {
            meta += "Requires-Dist: not-there; python_version < '3'\n";
        }
        let module = format!("{}_id.py", normalize(&k.name).replace('-', "_"));
        let ms = [M::file(&module, &k.id), M::file(&format!("{dist}-{}.data/scripts/run-{}", k.version, dist.to_lowercase()), "#!python\nprint('hi')\n").exec()];
        let bytes = wheel_bytes(&dist, &k.version, &meta, &ms);
        let tag = match (k.native, k.alien) {
            (true, false) => "cp312-cp312-linux_x86_64",
            (false, false) => "py3-none-any",
            (true, true) => "cp27-cp27mu-linux_x86_64",
            (false, true) => "py2-none-any",
        };
        w.pkgs[i].wheel = File::new(&format!("{dist}-{}-{}.whl", k.version, if k.native { "cp312-cp312-manylinux_2_17_x86_64" } else { tag }), bytes.clone());
        if k.kind == Kind::Wheel {
            continue;
        }
        let mut requires: Vec<String> = k.stat.iter().map(|&j| spell(rng, w.name(j), &w.pkgs[j].version)).collect();
        if rng.bool() {
            requires.push("not-there ; python_version < '3'".into());
        }
        let plan = |requires: Vec<String>, pyproject: Pyproject| Plan {
            requires,
            dynamic: k.dynamic.as_ref().map(|d| d.iter().map(|&j| spell(rng, w.name(j), &w.pkgs[j].version)).collect()),
            metadata_hook: k.hook,
            log: Some(w.log.clone()),
            faults: k.faults.iter().map(|f| (f.hook.clone(), f.at, f.how.clone())).collect(),
            wheel: (format!("{dist}-{}-{tag}.whl", k.version), bytes.clone()),
            hook_metadata: None,
            pyproject,
            zip: rng.bool(),
            pick: k.id.clone(),
            spoiled: if let Backend::Spoiled(how) = k.backend { how } else { "" },
        };
        let plan = match k.backend {
            Backend::InTree | Backend::Spoiled(_) => plan(requires, Pyproject::InTree),
            Backend::Escape(to) => plan(requires, Pyproject::Path(vec!["be".into(), to.into()])),
            Backend::Tool(what) => {
                requires.push("tool_backend".into());
                plan(requires, Pyproject::Module(what.into()))
            }
            Backend::NoTable => plan(vec![], Pyproject::NoTable),
            Backend::Absent => plan(vec![], Pyproject::Absent),
            Backend::RequiresOnly => {
                requires.push("setuptools".into());
                plan(requires, Pyproject::RequiresOnly)
            }
        };
        w.pkgs[i].sdist = Some(sdist(if rng.bool() { &k.name } else { &dist }, &k.version, &plan));
    }
    // interpreters
    let mut vs = vec!["3.12.3", "3.12.1", "3.11.9", "3.13.0", "3.14.0rc1"];
    rng.shuffle(&mut vs);
    vs.truncate(rng.usize(1..4));
    for v in vs {
        let plat = *pick(rng, &[NATIVE, NATIVE, NATIVE, "manylinux_2_5_x86_64"]);
        w.pybis.push((v.to_string(), plat.into(), real_pybi("cpython_unofficial", v, plat, &format!("{v} {plat}"))));
    }
    if !w.turncoat && chance(rng, 35) {
        for _ in 0..rng.usize(1..3) {
            let v = *pick(rng, &["3.12.3", "3.12.7", "3.12.0", "3.11.2", "3.10.4", "3.13.0", "3.13.1", "3.14.0rc1", "3.14.0rc2"]);
            let plat = *pick(rng, &["win_amd64", "macosx_11_0_arm64", "manylinux_2_17_aarch64"]);
            if !w.foreign.iter().any(|x| x.0 == v && x.1 == plat) {
                w.foreign.push((v.to_string(), plat.into(), real_pybi("cpython_unofficial", v, plat, &format!("{v} {plat}"))));
            }
        }
    }
    w
}

/// What one process is asked to do.
#[derive(Clone, serde::Serialize, serde::Deserialize)]
struct Job {
    dir: PathBuf,
    store: String,
    /// is the forest for builds also the one for environments?
    shared: bool,
    url: String,
    python: String,
    plat: String,
    /// version of the Python that builds are to use
    builder: String,
    reqs: Vec<String>,
    install: bool,
    like: Option<String>,
}

#[derive(Default, serde::Serialize, serde::Deserialize)]
struct Made {
    blueprint: String,
    wheels: Vec<String>,
    /// project -> what its module says
    ids: BTreeMap<String, String>,
}

fn perform(j: &Job) -> Out<Made> {
    run(|| {
        let forest = EnvForest::new(&j.dir.join("forest"))?;
        let other = EnvForest::new(&j.dir.join("build-forest"))?;
        let store = KVDirStore::new(&j.dir.join(&j.store))?;
        let db = PackageDB::new(&[j.url.parse()?], &j.dir.join("cache"), if j.shared { &forest } else { &other }, &store)?;
        let plat = PybiPlatform::new(&j.plat);
        let brief = Brief {
            python: j.python.as_str().try_into()?,
            requirements: j.reqs.iter().map(|r| r.as_str().try_into()).collect::<Result<_, _>>()?,
            allow_pre: AllowPre::All,
        };
        let like: Option<Blueprint> = j.like.as_ref().map(|l| serde_json::from_str(l)).transpose()?;
        let bp = brief.resolve(&db, &[&plat], like.as_ref(), &[])?;
        let mut made = Made { blueprint: serde_json::to_string(&bp)?, ..Default::default() };
        made.wheels = bp.wheels.iter().map(|(p, _)| p.name.normalized().to_string()).collect();
        if j.install {
            let env = forest.get_env(&db, &bp, &[&plat], &[])?;
            for (d, (p, _)) in env.lib_dirs.iter().zip(&bp.wheels) {
                let name = p.name.normalized().to_string();
                let id = std::fs::read_to_string(d.join(format!("{}_id.py", name.replace('-', "_")))).unwrap_or_default();
                made.ids.insert(name, id);
            }
        }
        Ok::<_, eyre::Report>(made)
    })
}

#[derive(serde::Serialize, serde::Deserialize)]
enum Told {
    Ok(Made),
    Err(String),
    Panic(String),
}

pub fn child(args: &[String]) -> ! {
    let j: Job = serde_json::from_str(&std::fs::read_to_string(&args[0]).unwrap()).unwrap();
    let told = match perform(&j) {
        Out::Ok(m) => Told::Ok(m),
        Out::Err(e) => Told::Err(e),
        Out::Panic(e) => Told::Panic(e),
    };
    std::fs::write(format!("{}.out", args[0]), serde_json::to_string(&told).unwrap()).unwrap();
    std::process::exit(0)
}

struct Spawned(std::process::Child, PathBuf);

impl Spawned {
    fn start(j: &Job, n: &str, delays: Option<(&Path, u64)>) -> Spawned {
        use std::os::unix::process::CommandExt;
        let path = j.dir.join(format!("job{n}"));
        std::fs::write(&path, serde_json::to_string(j).unwrap()).unwrap();
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        if let Some((shim, seed)) = delays {
            c.env("LD_PRELOAD", shim).env("POSY_DELAY_SEED", seed.to_string());
        }
        let c = c.arg("c20-child").arg(&path).process_group(0).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap();
        Spawned(c, path.with_file_name(format!("job{n}.out")))
    }
    fn with_env(j: &Job, n: &str, env: &[(&str, String)]) -> Spawned {
        use std::os::unix::process::CommandExt;
        let path = j.dir.join(format!("job{n}"));
        std::fs::write(&path, serde_json::to_string(j).unwrap()).unwrap();
        let err = std::fs::File::create(j.dir.join(format!("job{n}.err"))).unwrap();
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.envs(env.iter().map(|(k, v)| (k, v)));
        let c = c.arg("c20-child").arg(&path).process_group(0).stdout(std::process::Stdio::null()).stderr(err).spawn().unwrap();
        Spawned(c, path.with_file_name(format!("job{n}.out")))
    }
    /// What came of it, and what went to stderr.
    fn wait_and_listen(self, at_most: Duration) -> (Option<Out<Made>>, String) {
        let err = self.1.with_extension("err");
        let out = self.wait(at_most);
        (out, String::from_utf8_lossy(&std::fs::read(err).unwrap_or_default()).into_owned())
    }
    /// What came of it, unless it had to be ended.
    fn wait(self, at_most: Duration) -> Option<Out<Made>> {
        let out = self.1.clone();
        if !self.finish(at_most) {
            return None;
        }
        let told = std::fs::read_to_string(out).unwrap_or_default();
        Some(match serde_json::from_str(&told) {
            Ok(Told::Ok(m)) => Out::Ok(m),
            Ok(Told::Err(e)) => Out::Err(e),
            Ok(Told::Panic(e)) => Out::Panic(e),
            Err(_) => Out::Panic("the process died".into()),
        })
    }
    /// Wait that long; then end it and whatever it started. Had it ended by itself?
    fn finish(mut self, after: Duration) -> bool {
        let t = Instant::now();
        loop {
            if let Ok(Some(_)) = self.0.try_wait() {
                return true;
            }
            if t.elapsed() >= after {
                unsafe { libc::kill(-(self.0.id() as i32), libc::SIGKILL) };
                let _ = self.0.wait();
                return false;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
}

/// Judge what backends logged (entries `from..`); returns how many of them were to fail,
/// and how many of those couldn't be missed (a process that ends without a word might as well
/// be asked again).
fn judge_log(p: &mut Part, w: &World, j: &[&Job], entries: &[Value], what: &dyn Fn() -> String) -> (usize, usize) {
    let (mut faults, mut loud) = (0, 0);
    let mut seen: HashMap<(String, String), i64> = HashMap::new();
    for e in entries {
        let hook = e["hook"].as_str().unwrap_or("").to_string();
        let id = e["id"].as_str().unwrap_or("").to_string();
        let n = e["n"].as_i64().unwrap_or(0);
        seen.insert((hook.clone(), id.clone()), n);
        let Some(i) = w.pkgs.iter().position(|k| id.ends_with(&k.id)) else {
            p.violate("unknown-build", format!("{e}\n{}", what()));
            continue;
        };
        let k = &w.pkgs[i];
        p.count(&format!("calls: {hook}"), 1);
        if k.backend.hopeless() {
            p.violate(if matches!(k.backend, Backend::Escape(_)) { "backend-outside-the-tree" } else { "senseless-source" }, format!("{e}\n{}", what()));
        }
        if k.kind == Kind::Both && !(k.native && j.iter().any(|j| j.plat != NATIVE)) {
            p.violate("built-despite-wheel", format!("{} has a wheel\n{}", k.name, what()));
        }
        let due: Vec<&Fault> = k.faults.iter().filter(|f| f.hook == hook && (f.at == -1 || f.at == n)).collect();
        if !due.is_empty() {
            faults += 1;
            loud += due.iter().all(|f| !f.how.ends_with("exit0")) as usize;
        }
        // where
        let cwd = Path::new(e["cwd"].as_str().unwrap_or(""));
        let top = cwd.file_name().map(|f| f.to_string_lossy().into_owned()).unwrap_or_default();
        if !(cwd.parent().map_or(false, |p| p.ends_with("sdist")) && top.ends_with(&format!("-{}", k.version))) {
            p.violate("working-directory", format!("{} runs in {}\n{}", hook, cwd.display(), what()));
        }
        // with what
        let mut have = BTreeSet::new();
        let mut dirs = vec![];
        let pybi = e["pybi"].as_str().unwrap_or("").to_string();
        for d in e["packages"].as_array().into_iter().flatten() {
            dirs.push(d[0].as_str().unwrap_or("").to_string());
            let dist: Vec<&str> = d[1].as_array().into_iter().flatten().filter_map(|x| x.as_str()).filter(|x| x.ends_with(".dist-info")).collect();
            if dist.is_empty() && d[0].as_str().map_or(false, |d| Path::new(d).starts_with(&pybi)) {
                continue; // the interpreter's own
            }
            if dist.len() != 1 {
                p.violate("environment", format!("{d}\n{}", what()));
                continue;
            }
            have.insert(normalize(dist[0].split('-').next().unwrap()));
        }
        let names = |v: Vec<usize>| -> BTreeSet<String> { w.closure(&v).into_iter().map(|i| normalize(w.name(i))).collect() };
        let (first, full) = (names(w.static_of(i)), names(w.full_of(i)));
        let fine = match hook.as_str() {
            "import" => have == first || have == full,
            "get_requires_for_build_wheel" => have == first,
            _ => have == full,
        };
        if !fine {
            p.violate("environment", format!("{hook} of {} has {have:?}; declared: {first:?}, all in all {full:?}\n{}", k.name, what()));
        }
        let path: Vec<&str> = e["syspath"].as_array().into_iter().flatten().filter_map(|x| x.as_str()).collect();
        let root = &j[0].dir;
        for d in &dirs {
            if !path.contains(&d.as_str()) {
                p.violate("environment", format!("{d} is not on sys.path {path:?}\n{}", what()));
            }
        }
        for s in &path {
            let q = Path::new(s);
            let own = q == cwd.parent().unwrap().parent().unwrap() || (q.starts_with(cwd) && k.backend == Backend::InTree && q != cwd);
            if q.starts_with(root) && !dirs.iter().any(|d| d == s) && !q.starts_with(&pybi) && !own {
                p.violate("isolation", format!("{s} is on sys.path of {hook} of {}\n{}", k.name, what()));
            }
            if s.contains(".local/lib") {
                p.violate("isolation", format!("{s} (user site) is on sys.path\n{}", what()));
            }
        }
        // which python
        let which = std::fs::read_to_string(Path::new(&pybi).join("which")).unwrap_or_default();
        let version = which.split(' ').next().unwrap_or("");
        let wanted: BTreeSet<String> = j.iter().map(|j| j.builder.clone()).collect();
        if j.iter().any(|j| j.plat != NATIVE) {
            p.count("calls: for another platform", 1);
        }
        if !wanted.contains(version) || !which.contains("manylinux_2_") || which.contains("aarch64") {
            p.violate("other-python", format!("{hook} of {} runs with {which:?} instead of {wanted:?}\n{}", k.name, what()));
        }
        if e["python"].as_str() != Some(&format!("{pybi}/bin/python")) {
            p.violate("other-python", format!("python on the PATH is {}, not that of {pybi}\n{}", e["python"], what()));
        }
        // arguments
        if !e["settings"].is_null() && e["settings"] != json!({}) {
            p.violate("arguments", format!("config_settings {}\n{}", e["settings"], what()));
        }
        if e.get("had").is_some() && e["had"] != json!([]) {
            p.violate("leftovers", format!("{hook} of {} is given a directory with {} in it\n{}", k.name, e["had"], what()));
        }
        if hook == "build_wheel" && !e["metadata_directory"].is_null() {
            let d = e["metadata_directory"].as_str().unwrap_or("");
            if !k.hook || !d.ends_with(".dist-info") || !e["md"].as_array().map_or(false, |m| m.contains(&json!("METADATA"))) {
                p.violate("metadata-directory", format!("build_wheel of {} is given {d} with {}\n{}", k.name, e["md"], what()));
            }
            p.count("metadata handed on to build_wheel", 1);
        }
    }
    (faults, loud)
}

fn work(p: &mut Part, shim: Option<&Path>) {
    let index = Index::new();
    let url = index.urls(1)[0].to_string();
    while p.within() {
        let rng = fastrand::Rng::with_seed(p.rng.u64(..));
        let tmp = scratch();
        let mut w = gen(&rng, tmp.path().join("log"));
        index.set(w.pages(), rng.bool());
        let w_unfit: Vec<String> = w.pkgs.iter().filter(|k| k.alien || (k.native && !w.foreign.is_empty())).map(|k| k.id.clone()).collect();
        let shared = chance(&rng, 60);
        let mut store = 0;
        let mut like: Option<String> = None;
        let mut history: Vec<String> = vec![];
        let mut clouded = false; // a process was killed: a success may not have been noted
        let mut flipped = false; // something lost its wheel
        let mut good: HashMap<(String, String), usize> = HashMap::new();
        // some begin with several processes that want the same
        let race = chance(&rng, 20);
        let steps = rng.usize(if race { 1 } else { 2 }..if race { 3 } else { 7 });
        // (a build directory keeps results by source alone, so use it for one Python)
        let targets = w.targets();
        let mut python = rng.usize(..targets.len());
        // (wheels that suit nobody are made in vain each time)
        let unfit = |id: &str| w_unfit.iter().any(|x| id.ends_with(x));
        for step in 0..steps {
            if chance(&rng, if w.turncoat { 0 } else { 20 }) {
                store += 1;
                if !w.pkgs.iter().any(|k| k.native) {
                    python = rng.usize(..targets.len());
                }
                history.push("new build directory".into());
            }
            if step > 0 && chance(&rng, if w.turncoat { 50 } else { 20 }) {
                for i in 0..w.pkgs.len() {
                    if w.pkgs[i].kind == Kind::Both && w.pkgs[i].sdist.is_some() {
                        w.pkgs[i].kind = Kind::Sdist;
                        flipped = true;
                        history.push(format!("{} loses its wheel", w.pkgs[i].name));
                    }
                }
                index.set(w.pages(), rng.bool());
            }
            let job = |rng: &fastrand::Rng| -> (Vec<usize>, Job) {
                let mut t: Vec<usize> = if w.turncoat { vec![0] } else { (0..w.pkgs.len()).filter(|_| chance(rng, 45)).collect() };
                if t.is_empty() {
                    t.push(0);
                }
                let j = Job {
                    dir: tmp.path().to_path_buf(),
                    store: format!("build-store{store}"),
                    shared,
                    url: url.clone(),
                    python: format!("cpython_unofficial=={}", targets[python].0),
                    plat: targets[python].1.clone(),
                    builder: targets[python].2.clone(),
                    reqs: t.iter().map(|&i| spell(rng, &w.pkgs[i].name, &w.pkgs[i].version)).collect(),
                    install: chance(rng, if w.turncoat { 50 } else { 75 }),
                    like: if rng.bool() { like.clone() } else { None },
                };
                (t, j)
            };
            let before = read_log(&w.log).len();
            match if step == 0 && race { 7 } else { rng.u8(0..10) } {
                0..=6 => {
                    let (t, j) = job(&rng);
                    history.push(format!("{} {:?} with {} for {}", if j.install { "install" } else { "resolve" }, j.reqs, j.python, j.plat));
                    let what = || format!("{history:#?}\nshared forest {shared}\n{}", w.describe());
                    p.begin(&what());
                    let got = perform(&j);
                    p.end();
                    let log = read_log(&w.log);
                    let new = &log[before..];
                    let looped = w.builds(&t).1;
                    let doomed = w.doomed(&t, &j);
                    let (faults, loud) = judge_log(p, &w, &[&j], new, &what);
                    p.case(&(what(), step), true);
                    if p.wants_sample(&rng) {
                        p.sample(json!({"history": history, "packages": w.describe().lines().collect::<Vec<_>>(), "loop": looped, "calls": new.iter().map(|e| format!("{} {}", e["id"].as_str().unwrap_or(""), e["hook"].as_str().unwrap_or(""))).collect::<Vec<_>>(), "result": got.kind()}));
                    }
                    match &got {
                        Out::Panic(e) => p.violate("panic", format!("{e}\n{}", what())),
                        Out::Ok(m) => {
                            p.count("environments or blueprints", 1);
                            if looped && !flipped {
                                p.violate("loop-unnoticed", what());
                            }
                            if loud > 0 {
                                p.violate("failure-unnoticed", format!("{loud} backend calls failed\n{}", what()));
                            }
                            if doomed && !looped && !flipped {
                                p.violate("impossible-build", what());
                            }
                            for i in w.closure(&t) {
                                let name = normalize(w.name(i));
                                if !m.wheels.contains(&name) {
                                    p.violate("incomplete", format!("no {name}\n{}", what()));
                                }
                                if j.install && m.ids.get(&name) != Some(&w.pkgs[i].id) {
                                    p.violate("other-contents", format!("{name} is {:?}, not {:?}\n{}", m.ids.get(&name), w.pkgs[i].id, what()));
                                }
                            }
                            if m.wheels.len() != w.closure(&t).len() {
                                p.violate("incomplete", format!("{:?}\n{}", m.wheels, what()));
                            }
                            like = Some(m.blueprint.clone());
                        }
                        Out::Err(e) => {
                            if looped {
                                p.count("loops reported", 1);
                            } else if faults > 0 {
                                p.count("failures reported", 1);
                            } else if doomed {
                                p.count("impossible builds reported", 1);
                            } else {
                                p.violate("no-reason-to-fail", format!("{}\n{}", truncate(e, 800), what()));
                            }
                        }
                    }
                    for e in new {
                        let key = (e["hook"].as_str().unwrap_or("").to_string(), e["id"].as_str().unwrap_or("").to_string());
                        let n = e["n"].as_i64().unwrap_or(0);
                        let failed = w.pkgs.iter().any(|k| key.1.ends_with(&k.id) && k.faults.iter().any(|f| f.hook == key.0 && (f.at == -1 || f.at == n)));
                        if failed || key.0 == "import" || key.0 == "get_requires_for_build_wheel" {
                            continue;
                        }
                        let c = good.entry(key.clone()).or_insert(0);
                        *c += 1;
                        if *c > 1 && !clouded && !unfit(&key.1) {
                            p.violate("built-again", format!("{} of {} succeeded before\n{}", key.0, key.1, what()));
                        }
                    }
                }
                7 | 8 => {
                    // several processes
                    let threads = !race && chance(&rng, 40);
                    let own_stores = chance(&rng, if race { 20 } else { 40 });
                    let mut jobs: Vec<(Vec<usize>, Job)> = (0..rng.usize(2..5)).map(|_| job(&rng)).collect();
                    // often the same for all of them
                    if race || chance(&rng, 50) {
                        let first = jobs[0].clone();
                        jobs.iter_mut().for_each(|j| *j = first.clone());
                    }
                    if own_stores {
                        for (i, (_, j)) in jobs.iter_mut().enumerate() {
                            j.store = format!("build-store{store}-{step}-{i}");
                        }
                    }
                    if jobs.iter().any(|(t, _)| w.builds(t).1) || flipped {
                        continue;
                    }
                    history.push(format!("at once{}{}: {:?}", if threads { "" } else { " as processes" }, if own_stores { " with their own build directories" } else { "" }, jobs.iter().map(|(_, j)| format!("{} {:?} with {} for {}", if j.install { "install" } else { "resolve" }, j.reqs, j.python, j.plat)).collect::<Vec<_>>()));
                    let what = || format!("{history:#?}\nshared forest {shared}\n{}", w.describe());
                    p.begin(&what());
                    let outs: Vec<Out<Made>> = match &shim {
                        Some(shim) if !threads => {
                            let cs: Vec<Spawned> = jobs.iter().enumerate().map(|(i, (_, j))| Spawned::start(j, &format!("{step}-{i}"), if rng.bool() { Some((shim, rng.u64(..))) } else { None })).collect();
                            let end = Instant::now() + Duration::from_secs(60);
                            let outs: Vec<Option<Out<Made>>> = cs.into_iter().map(|c| c.wait(end.saturating_duration_since(Instant::now()))).collect();
                            if outs.iter().any(|o| o.is_none()) {
                                p.violate("processes-hang", format!("{}\n{}", outs.iter().map(|o| o.as_ref().map_or("hangs", |o| o.kind())).collect::<Vec<_>>().join(", "), what()));
                                p.end();
                                break;
                            }
                            p.count("processes with delays at once", outs.len() as u64);
                            outs.into_iter().flatten().collect()
                        }
                        _ => std::thread::scope(|s| {
                            let hs: Vec<_> = jobs.iter().map(|(_, j)| s.spawn(move || perform(j))).collect();
                            hs.into_iter().map(|h| h.join().unwrap()).collect()
                        }),
                    };
                    p.end();
                    let log = read_log(&w.log);
                    let new = &log[before..];
                    let js: Vec<&Job> = jobs.iter().map(|j| &j.1).collect();
                    let (faults, _) = judge_log(p, &w, &js, new, &what);
                    let mut errors = 0;
                    for ((t, j), o) in jobs.iter().zip(&outs) {
                        match o {
                            Out::Panic(e) => p.violate("panic", format!("{e}\n{}", what())),
                            Out::Ok(m) => {
                                if w.doomed(t, j) {
                                    p.violate("impossible-build", what());
                                }
                                for i in w.closure(t) {
                                    let name = normalize(w.name(i));
                                    if j.install && m.ids.get(&name) != Some(&w.pkgs[i].id) {
                                        p.violate("other-contents", format!("{name} is {:?}, not {:?}\n{}", m.ids.get(&name), w.pkgs[i].id, what()));
                                    }
                                }
                            }
                            Out::Err(e) => {
                                if !w.doomed(t, j) {
                                    errors += 1;
                                    if errors > faults {
                                        p.violate("no-reason-to-fail", format!("{}\n{}", truncate(e, 800), what()));
                                    }
                                }
                            }
                        }
                    }
                    p.count("concurrent processes", outs.len() as u64);
                    p.case(&(what(), step), true);
                    for e in new {
                        let key = (e["hook"].as_str().unwrap_or("").to_string(), e["id"].as_str().unwrap_or("").to_string());
                        let n = e["n"].as_i64().unwrap_or(0);
                        let failed = w.pkgs.iter().any(|k| key.1.ends_with(&k.id) && k.faults.iter().any(|f| f.hook == key.0 && (f.at == -1 || f.at == n)));
                        if failed || key.0 == "import" || key.0 == "get_requires_for_build_wheel" {
                            continue;
                        }
                        let c = good.entry(key.clone()).or_insert(0);
                        *c += 1;
                        if *c > 1 && !clouded && !own_stores && !unfit(&key.1) {
                            p.violate("built-again", format!("{} of {} succeeded before\n{}", key.0, key.1, what()));
                        }
                    }
                }
                _ => {
                    // a process that is killed
                    let (t, j) = job(&rng);
                    if w.builds(&t).0.is_empty() {
                        continue;
                    }
                    let ms = rng.u64(10..500);
                    history.push(format!("{} {:?} with {}, killed after {ms} ms", if j.install { "install" } else { "resolve" }, j.reqs, j.python));
                    let what = || format!("{history:#?}\nshared forest {shared}\n{}", w.describe());
                    let ended = Spawned::start(&j, &step.to_string(), None).finish(Duration::from_millis(ms));
                    if !ended {
                        p.count("processes killed", 1);
                    }
                    clouded = true;
                    // (a line may be cut short)
                    let log = read_log(&w.log);
                    judge_log(p, &w, &[&j], &log[before.min(log.len())..], &what);
                }
            }
        }
    }
}

/// One way to disturb a build: which process, at which kind of path, how.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Blow {
    /// "Wheel", "WheelMetadata": the Python that works towards this; "": posy itself
    whom: &'static str,
    below: &'static str,
    /// errno of the call that fails instead of killing
    fail: Option<i32>,
    torn: bool,
    install: bool,
    hook: bool,
    dynamic: bool,
}

/// Builds that are interrupted just before their n-th change to the files they work with, for
/// n = 1, 2, ..., and then asked for again.
fn interrupted(c: &mut Ctx, kill: &Path) {
    let mut blows = vec![];
    for install in [true, false] {
        for hook in [true, false] {
            for dynamic in [true, false] {
                for whom in ["Wheel", "WheelMetadata", ""] {
                    for below in ["build-store", "local-wheels", "metadata"] {
                        for (fail, torn) in [(None, false), (None, true), (Some(libc::ENOSPC), false)] {
                            // (Python has no business with the others)
                            if whom.is_empty() || (below == "build-store" && (install || whom == "WheelMetadata")) {
                                let b = Blow { whom, below, fail, torn, install, hook, dynamic };
                                blows.push(b);
                                if !whom.is_empty() {
                                    blows.push(b);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let next = std::sync::atomic::AtomicUsize::new(c.seed as usize * 31);
    let total = blows.len();
    let done = std::sync::atomic::AtomicUsize::new(0);
    let full = matches!(c.tier, Tier::Thorough);
    parallel(c, 8, 15, 120, |p| {
        while p.within() {
            use std::sync::atomic::Ordering::SeqCst;
            // (a step that visits all of them)
            let i = next.fetch_add(1, SeqCst);
            if full && done.fetch_add(1, SeqCst) >= total {
                break;
            }
            let b = blows[(i * 37) % total];
            let index = Index::new();
            let rng = fastrand::Rng::with_seed(p.rng.u64(..));
            let python = !b.whom.is_empty();
            let start = if full { 1 } else { rng.usize(1..if python { 4 } else { 8 }) };
            let stride = if full { 1 } else { rng.usize(1..if python { 3 } else { 5 }) };
            for at in (start..).step_by(stride) {
                if !p.within() || at > 400 {
                    break;
                }
                let tmp = scratch();
                let log = tmp.path().join("log");
                let mut pages = Pages::new();
                add(&mut pages, 0, "cpython_unofficial", real_pybi("cpython_unofficial", "3.12.3", NATIVE, "3.12.3"));
                add(&mut pages, 0, "helper", File::new("helper-1.0-py3-none-any.whl", wheel_bytes("helper", "1.0", "", &[])));
                let id = format!("thing #{}", rng.u32(..));
                let bytes = wheel_bytes("thing", "1.0", "Requires-Dist: helper\n", &[M::file("thing_id.py", &id), M::file("thing_data.bin", vec![b'x'; 30000]).stored()]);
                add(&mut pages, 0, "thing", sdist("thing", "1.0", &Plan {
                    dynamic: b.dynamic.then(|| vec!["helper".into()]),
                    metadata_hook: b.hook,
                    log: Some(log.clone()),
                    wheel: ("thing-1.0-py3-none-any.whl".into(), bytes),
                    pick: id.clone(),
                    ..Default::default()
                }));
                index.set(pages, rng.bool());
                let j = Job { dir: tmp.path().into(), store: "build-store".into(), shared: true, url: index.urls(1)[0].to_string(), python: "cpython_unofficial".into(), plat: NATIVE.into(), builder: "3.12.3".into(), reqs: vec!["thing".into()], install: b.install, like: None };
                let what = || format!("{b:?} before change {at}");
                p.begin(&what());
                let mut env: Vec<(&str, String)> = vec![
                    ("POSY_KILL_AT", at.to_string()),
                    ("POSY_KILL_ARMED", "1".into()),
                    ("POSY_KILL_BELOW", b.below.into()),
                    ("POSY_KILL_ONLY", "create,openat,write,writev,rename,mkdir,unlink,rmdir,truncate,copy,link,symlink,chmod".into()),
                    ("VERIF_PYSHIM", if b.whom.is_empty() { "none".into() } else { kill.display().to_string() }),
                    ("VERIF_PYGOAL", if b.whom.is_empty() { "nothing".into() } else { b.whom.into() }),
                ];
                if b.whom.is_empty() {
                    env.push(("LD_PRELOAD", kill.display().to_string()));
                }
                if let Some(e) = b.fail {
                    env.push(("POSY_FAIL", e.to_string()));
                }
                if b.torn {
                    env.push(("POSY_KILL_TORN", "1".into()));
                }
                let (first, said) = Spawned::with_env(&j, "first", &env).wait_and_listen(Duration::from_secs(60));
                let struck = said.lines().any(|l| l.starts_with("SHIM "));
                let judge = |p: &mut Part, m: &Made, which: &str| {
                    if m.wheels != ["helper", "thing"] && m.wheels != ["thing", "helper"] {
                        p.violate("interrupted-build", format!("{which}: {:?} instead of thing and helper\n{}", m.wheels, what()));
                    }
                    if b.install && m.ids.get("thing") != Some(&id) {
                        p.violate("interrupted-build", format!("{which}: the wheel has {:?} in it\n{}", m.ids.get("thing"), what()));
                    }
                };
                match &first {
                    None => p.violate("interrupted-hang", what()),
                    Some(Out::Ok(m)) => judge(p, m, "the interrupted one"),
                    Some(Out::Panic(_)) if b.fail.is_none() && b.whom.is_empty() && struck => {}
                    Some(Out::Panic(e)) => p.violate("panic", format!("{e}\n{}", what())),
                    Some(Out::Err(e)) if !struck => p.violate("no-reason-to-fail", format!("{}\n{}", truncate(e, 800), what())),
                    Some(Out::Err(_)) => {}
                }
                if struck {
                    p.count(if b.whom.is_empty() { "interruptions of posy while it builds" } else { "interruptions of the backend's process" }, 1);
                    match Spawned::with_env(&j, "second", &[]).wait(Duration::from_secs(60)) {
                        None => p.violate("interrupted-hang", format!("the next attempt hangs\n{}", what())),
                        Some(Out::Ok(m)) => judge(p, &m, "the next attempt"),
                        Some(Out::Err(e)) | Some(Out::Panic(e)) => p.violate("interrupted-build", format!("the next attempt: {}\n{}", truncate(&e, 800), what())),
                    }
                }
                p.end();
                p.case(&(b, at), struck);
                if !struck {
                    break;
                }
            }
        }
    });
}

/// Two processes that build two packages which need each other.
fn mutual(c: &mut Ctx) {
    let index = Index::new();
    let tmp = scratch();
    let log = tmp.path().join("log");
    let mut pages = Pages::new();
    for (v, plat) in [("3.12.3", NATIVE)] {
        add(&mut pages, 0, "cpython_unofficial", real_pybi("cpython_unofficial", v, plat, v));
    }
    for (a, b) in [("yin", "yang"), ("yang", "yin")] {
        add(&mut pages, 0, a, sdist(a, "1.0", &Plan {
            dynamic: Some(vec![b.into()]),
            log: Some(log.clone()),
            faults: vec![("get_requires_for_build_wheel".into(), 0, "meet".into())],
            wheel: (format!("{a}-1.0-py3-none-any.whl"), wheel_bytes(a, "1.0", "", &[])),
            pick: format!("mutual {a}"),
            ..Default::default()
        }));
    }
    index.set(pages, false);
    let cs: Vec<Spawned> = ["yin", "yang"]
        .iter()
        .map(|n| {
            let j = Job { dir: tmp.path().into(), store: format!("build-store-{n}"), shared: true, url: index.urls(1)[0].to_string(), python: "cpython_unofficial".into(), plat: NATIVE.into(), builder: "3.12.3".into(), reqs: vec![n.to_string()], install: true, like: None };
            Spawned::start(&j, n, None)
        })
        .collect();
    let end = Instant::now() + Duration::from_secs(12);
    let outs: Vec<Option<Out<Made>>> = cs.into_iter().map(|c| c.wait(end.saturating_duration_since(Instant::now()))).collect();
    c.case(&"two processes build packages that need each other", true);
    let kinds: Vec<&str> = outs.iter().map(|o| o.as_ref().map_or("hangs", |o| o.kind())).collect();
    if outs.iter().all(|o| o.is_none()) {
        c.violate("mutual-builds-in-two-processes-hang", "two processes that at the same time build two packages which need each other wait for each other's locks for ever, instead of reporting the loop");
    } else if kinds.iter().any(|k| *k == "ok" || *k == "panic") {
        c.violate("mutual-builds", format!("two processes building packages that need each other: {kinds:?}"));
    }
    c.count("mutual builds in two processes", 1);
}

pub fn run_(mut c: Ctx) -> ! {
    c.rule = "resolving or installing from a generated index of source packages with scripted backends, in histories of repeated, concurrent and killed processes; distinct by packages, history and step".into();
    c.assumptions = vec![
        "Backends are real PEP 517 hooks run by the system's Python (posing as the pybi's); setuptools is a stand-in that implements __legacy__.".into(),
        "Python interpreters of every generated world run the same Python, whatever version they claim.".into(),
    ];
    py();
    let dir = scratch();
    let shim = dir.path().join("delay.so");
    let src = c.root.join("harness/shim/delay.c");
    match std::process::Command::new("gcc").args(["-O1", "-w", "-shared", "-fPIC", "-o"]).arg(&shim).arg(&src).arg("-ldl").output() {
        Ok(o) if o.status.success() => {}
        o => {
            c.problem(format!("cannot build the shim: {o:?}"));
            c.finish()
        }
    }
    let kill = dir.path().join("kill.so");
    match std::process::Command::new("gcc").args(["-O1", "-w", "-shared", "-fPIC", "-o"]).arg(&kill).arg(c.root.join("harness/shim/kill.c")).arg("-ldl").output() {
        Ok(o) if o.status.success() => {}
        o => {
            c.problem(format!("cannot build the shim: {o:?}"));
            c.finish()
        }
    }
    mutual(&mut c);
    interrupted(&mut c, &kill);
    parallel(&mut c, 8, 45, 700, |p| work(p, Some(&shim)));
    for k in ["environments or blueprints", "loops reported", "failures reported", "processes killed", "calls: build_wheel", "processes with delays at once", "metadata handed on to build_wheel", "interruptions of posy while it builds", "interruptions of the backend's process", "calls: for another platform", "impossible builds reported"] {
        if !c.violated() && c.counters.get(k).copied().unwrap_or(0) == 0 {
            c.problem(format!("never observed: {k}"));
        }
    }
    c.finish()
}
