//! Shared plumbing of all monitors: seeds, counters, verdicts, evidence.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub rng: fastrand::Rng,
    pub start: Instant,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub counters: BTreeMap<String, u64>,
    pub rule: String,
    pub level: &'static str,
    pub assumptions: Vec<String>,
    sigs: BTreeMap<String, u64>,
    known: Vec<(String, String)>,
    known_seen: HashSet<String>,
    problems: Vec<String>,
    unlisted: u64,
    pub root: PathBuf,
}

pub fn verif_root() -> PathBuf {
    std::env::var_os("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

impl Ctx {
    pub fn new(id: &str) -> Ctx {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let root = verif_root();
        // lines of the form
        //   KNOWN-FINDING: property=C01 sig=<signature> <what fails>
        let known = std::fs::read_to_string(root.join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let rest = l.strip_prefix("KNOWN-FINDING: property=")?;
                let (p, rest) = rest.split_once(" sig=")?;
                let sig = rest.split_whitespace().next()?;
                Some((p.to_string(), sig.to_string()))
            })
            .collect();
        let mut h = DefaultHasher::new();
        id.hash(&mut h);
        seed.hash(&mut h);
        Ctx {
            id: id.into(),
            tier,
            seed,
            rng: fastrand::Rng::with_seed(h.finish()),
            start: Instant::now(),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            counters: BTreeMap::new(),
            rule: String::new(),
            level: "exploration",
            assumptions: vec![],
            sigs: BTreeMap::new(),
            known,
            known_seen: HashSet::new(),
            problems: vec![],
            unlisted: 0,
            root,
        }
    }

    /// Pick a workload size by tier.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }

    /// True while the workload may go on: caps the *workload*, never a verdict.
    pub fn within(&self, quick_s: u64, thorough_s: u64) -> bool {
        let cap = match self.tier {
            Tier::Quick => quick_s,
            Tier::Thorough => thorough_s,
        };
        self.elapsed() < Duration::from_secs(cap)
    }

    /// Count one evaluated case; `key` identifies it for the distinct count when it is
    /// non-trivial.
    pub fn case<K: Hash>(&mut self, key: K, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            let mut h = DefaultHasher::new();
            key.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }

    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 12 {
            self.samples.push(v);
        }
    }

    pub fn count(&mut self, name: &str, by: u64) {
        *self.counters.entry(name.into()).or_insert(0) += by;
    }

    /// Report a violation. `sig` names the failing site/input class stably; it is what
    /// known findings are keyed on.
    pub fn violate(&mut self, sig: &str, detail: impl AsRef<str>) {
        let detail = detail.as_ref();
        let n = self.sigs.entry(sig.into()).or_insert(0);
        *n += 1;
        let n = *n;
        if self.known.iter().any(|(p, s)| *p == self.id && s == sig) {
            if self.known_seen.insert(sig.into()) {
                println!("KNOWN-FINDING: property={} sig={} {}", self.id, sig, first_line(detail));
            }
            return;
        }
        self.unlisted += 1;
        if n > 3 || self.unlisted > 20 {
            return;
        }
        let dir = self.root.join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.txt", self.id, clean(sig), n));
        let _ = std::fs::write(
            &path,
            format!(
                "property: {}\nsignature: {}\nVERIF_SEED={} VERIF_TIER={:?}\nreplay: VERIF_SEED={} bin/check {} {}\n\n{}\n",
                self.id,
                sig,
                self.seed,
                self.tier,
                self.seed,
                self.id,
                if self.tier == Tier::Quick { "quick" } else { "thorough" },
                detail
            ),
        );
        println!("VIOLATION property={} replay={}", self.id, path.display());
        println!("  [{}] {}", sig, truncate(detail, 1500));
    }

    pub fn violated(&self) -> bool {
        self.unlisted > 0
    }

    /// Something kept the monitor from deciding; makes the run an error, not a verdict.
    pub fn problem(&mut self, what: impl Into<String>) {
        let what = what.into();
        eprintln!("INCONCLUSIVE {}: {}", self.id, what);
        self.problems.push(what);
    }

    pub fn finish(mut self) -> ! {
        if self.evaluations == 0 || self.distinct.len() < 2 {
            self.problem("observed (almost) nothing");
        }
        if self.samples.is_empty() {
            self.problem("no samples recorded");
        }
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(self.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct.len()));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), json!(self.samples));
        let observed: serde_json::Map<String, Value> =
            self.counters.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
        cov.insert("observed".into(), Value::Object(observed));
        if !self.problems.is_empty() {
            cov.insert("inconclusive".into(), json!(self.problems));
        }
        let ev = json!({
            "property": self.id,
            "tier": match self.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": self.elapsed().as_secs_f64(),
            "violations": self.unlisted,
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.json", self.id));
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write {}: {e}", path.display());
            std::process::exit(5);
        }
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {:.1}s, {} violations",
            self.id,
            self.evaluations,
            self.distinct.len(),
            self.elapsed().as_secs_f64(),
            self.unlisted
        );
        if self.unlisted > 0 {
            std::process::exit(1);
        }
        if !self.problems.is_empty() {
            std::process::exit(3);
        }
        std::process::exit(0);
    }
}

fn first_line(s: &str) -> &str {
    s.lines().next().unwrap_or("")
}

pub fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.into()
    } else {
        let mut end = n;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        format!("{}... [{} bytes]", &s[..end], s.len())
    }
}

fn clean(s: &str) -> String {
    s.chars()
        .map(|c| if c.is_ascii_alphanumeric() || c == '-' { c } else { '_' })
        .take(60)
        .collect()
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    let verbose = std::env::var_os("VERIF_VERBOSE").is_some();
    std::panic::set_hook(Box::new(move |info| {
        let s = info.to_string();
        if verbose {
            eprintln!("{s}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(s));
    }));
}

/// Outcome of a call into the code under test.
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}

impl<T> Out<T> {
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "err",
            Out::Panic(_) => "panic",
        }
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, Out::Panic(_))
    }
    pub fn describe(&self) -> String {
        match self {
            Out::Ok(_) => "ok".into(),
            Out::Err(e) => format!("error: {}", truncate(e, 400)),
            Out::Panic(e) => format!("PANIC: {}", truncate(e, 400)),
        }
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
        match self {
            Out::Ok(v) => Out::Ok(f(v)),
            Out::Err(e) => Out::Err(e),
            Out::Panic(e) => Out::Panic(e),
        }
    }
}

/// Run a call into the code under test, telling results, errors and panics apart.
pub fn run<T, E: std::fmt::Debug>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(format!("{e:?}")),
        Err(_) => Out::Panic(
            LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "unknown panic".into()),
        ),
    }
}

pub fn sha256_hex(data: &[u8]) -> String {
    ring::digest::digest(&ring::digest::SHA256, data)
        .as_ref()
        .iter()
        .map(|b| format!("{b:02x}"))
        .collect()
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn pick<'a, T>(rng: &fastrand::Rng, xs: &'a [T]) -> &'a T {
    &xs[rng.usize(..xs.len())]
}

pub fn chance(rng: &fastrand::Rng, percent: u32) -> bool {
    rng.u32(0..100) < percent
}

pub fn shuffle<T>(rng: &fastrand::Rng, xs: &mut [T]) {
    rng.shuffle(xs)
}

/// What one worker thread of a monitor observed; merged into the `Ctx` afterwards.
pub struct Part {
    pub thread: usize,
    pub rng: fastrand::Rng,
    pub tier: Tier,
    end: Instant,
    now: std::sync::Arc<std::sync::Mutex<Option<(Instant, String)>>>,
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    violations: Vec<(String, String)>,
    problems: Vec<String>,
}

impl Part {
    pub fn within(&self) -> bool {
        Instant::now() < self.end
    }
    pub fn case<K: Hash>(&mut self, key: K, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(hash_of(&key));
        }
    }
    pub fn count(&mut self, name: &str, by: u64) {
        *self.counters.entry(name.into()).or_insert(0) += by;
    }
    /// One in a hundred or so, and the first.
    pub fn wants_sample(&self, rng: &fastrand::Rng) -> bool {
        self.samples.is_empty() || rng.u8(..) < 2
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 3 {
            self.samples.push(v);
        }
    }
    pub fn violate(&mut self, sig: &str, detail: impl AsRef<str>) {
        if self.violations.iter().filter(|(s, _)| s == sig).count() < 3 {
            self.violations.push((sig.into(), detail.as_ref().into()));
        }
    }
    pub fn problem(&mut self, what: impl Into<String>) {
        self.problems.push(what.into());
    }
    /// A case starts that must be over within `HANG_S` seconds.
    pub fn begin(&self, what: &str) {
        *self.now.lock().unwrap() = Some((Instant::now(), what.into()));
    }
    pub fn end(&self) {
        *self.now.lock().unwrap() = None;
    }
}

pub const HANG_S: u64 = 150;

/// Run `f` in `threads` threads, each with its own random stream, until it returns; it
/// should stop when `within()` says so (which caps the workload, never a verdict).
pub fn parallel(c: &mut Ctx, threads: usize, quick_s: u64, thorough_s: u64, f: impl Fn(&mut Part) + Sync) {
    let end = Instant::now()
        + Duration::from_secs(if c.tier == Tier::Quick { quick_s } else { thorough_s });
    let parts: Vec<Part> = (0..threads)
        .map(|thread| Part {
            thread,
            rng: fastrand::Rng::with_seed(c.rng.u64(..)),
            tier: c.tier,
            end,
            now: Default::default(),
            evaluations: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            problems: vec![],
        })
        .collect();
    let clocks: Vec<_> = parts.iter().map(|p| p.now.clone()).collect();
    let id = c.id.clone();
    let (seed, root) = (c.seed, c.root.clone());
    let over = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let over2 = over.clone();
    std::thread::spawn(move || {
        use std::sync::atomic::Ordering::SeqCst;
        while !over2.load(SeqCst) {
            std::thread::sleep(Duration::from_millis(300));
            for k in &clocks {
                if let Some((t, what)) = &*k.lock().unwrap() {
                    if t.elapsed() > Duration::from_secs(HANG_S) {
                        let path = root.join("evidence/replay").join(format!("{id}-hang.txt"));
                        let _ = std::fs::create_dir_all(root.join("evidence/replay"));
                        let _ = std::fs::write(&path, format!("VERIF_SEED={seed}: a case did not end within {HANG_S} s\n{what}\n"));
                        println!("VIOLATION property={id} replay={}", path.display());
                        println!("  [hang] {}", truncate(what, 1000));
                        std::process::exit(1);
                    }
                }
            }
        }
    });
    let done: Vec<Part> = std::thread::scope(|s| {
        let f = &f;
        let hs: Vec<_> = parts
            .into_iter()
            .map(|mut p| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        if let Out::Panic(e) = run(|| Ok::<_, String>(f(&mut p))) {
                            p.problem(format!("monitor thread: {e}"));
                        }
                        p
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    over.store(true, std::sync::atomic::Ordering::SeqCst);
    for p in done {
        c.evaluations += p.evaluations;
        c.distinct.extend(p.distinct);
        for (k, v) in p.counters {
            c.count(&k, v);
        }
        for s in p.samples {
            c.sample(s);
        }
        for (s, d) in p.violations {
            c.violate(&s, d);
        }
        for m in p.problems {
            c.problem(m);
        }
    }
}

/// A scratch directory below $TMPDIR, removed on drop.
pub fn scratch() -> tempfile::TempDir {
    tempfile::Builder::new().prefix("posy-verif-").tempdir().unwrap()
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node {
    Dir { mode: u32 },
    File { mode: u32, hash: String, len: u64 },
    Link { target: PathBuf },
    Other,
}

/// Full inventory of a tree (path relative to `root` -> node); never follows symlinks.
pub fn inventory(root: &Path) -> BTreeMap<PathBuf, Node> {
    use std::os::unix::fs::PermissionsExt;
    let mut out = BTreeMap::new();
    let mut todo = vec![PathBuf::new()];
    while let Some(rel) = todo.pop() {
        let full = root.join(&rel);
        let md = match std::fs::symlink_metadata(&full) {
            Ok(md) => md,
            Err(_) => continue,
        };
        let mode = md.permissions().mode() & 0o7777;
        if md.file_type().is_symlink() {
            out.insert(rel, Node::Link { target: std::fs::read_link(&full).unwrap_or_default() });
        } else if md.is_dir() {
            out.insert(rel.clone(), Node::Dir { mode });
            if let Ok(rd) = std::fs::read_dir(&full) {
                for e in rd.flatten() {
                    todo.push(rel.join(e.file_name()));
                }
            }
        } else if md.is_file() {
            let data = std::fs::read(&full).unwrap_or_default();
            out.insert(rel, Node::File { mode, hash: sha256_hex(&data), len: md.len() });
        } else {
            out.insert(rel, Node::Other);
        }
    }
    out
}
