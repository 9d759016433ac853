//! The resolver's world: generated package universes, the real resolver run on them over
//! HTTP, and an independent model of what its answers must be (used by C14, C15, C16).
use crate::arch::wheel_bytes;
use crate::common::*;
use crate::pep440::{self, Op, V};
use crate::pep508::{self, normalize};
use crate::world::*;
use crate::gens;
use posy::verif::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub struct Dep {
    pub name: String, // as spelled
    pub extras: Vec<String>,
    pub clauses: Vec<(Op, V, bool)>,
    pub marker: Option<(String, pep508::M)>,
}

impl Dep {
    pub fn key(&self) -> String {
        normalize(&self.name)
    }
    pub fn text(&self) -> String {
        let mut s = self.name.clone();
        if !self.extras.is_empty() {
            s += &format!("[{}]", self.extras.join(","));
        }
        let c: Vec<String> = self
            .clauses
            .iter()
            .map(|(o, v, w)| format!("{}{}{}", o.s(), v.canonical(), if *w { ".*" } else { "" }))
            .collect();
        if !c.is_empty() {
            s += &format!(" {}", c.join(","));
        }
        if let Some((m, _)) = &self.marker {
            s += &format!("; {m}");
        }
        s
    }
    pub fn accepts(&self, v: &V) -> bool {
        satisfied(&self.clauses, v)
    }
}

pub fn satisfied(clauses: &[(Op, V, bool)], v: &V) -> bool {
    clauses.iter().all(|(o, s, w)| pep440::contains(*o, s, *w, v).unwrap_or(false))
}

pub fn decided(clauses: &[(Op, V, bool)], vs: &[V]) -> bool {
    clauses.iter().all(|(o, s, w)| {
        pep440::legal(*o, s, *w) == Some(true) && vs.iter().all(|v| pep440::contains(*o, s, *w, v).is_some())
    })
}

pub fn parse_clauses(s: &str) -> Vec<(Op, V, bool)> {
    s.split(',')
        .filter(|c| !c.trim().is_empty())
        .map(|c| {
            let c = c.trim();
            let o = *pep440::OPS.iter().filter(|o| c.starts_with(o.s())).max_by_key(|o| o.s().len()).unwrap();
            let v = c[o.s().len()..].trim();
            let (v, w) = match v.strip_suffix(".*") {
                Some(v) => (v, true),
                None => (v, false),
            };
            (o, pep440::parse(v).unwrap(), w)
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct Rel {
    pub version: V,
    pub deps: Vec<Dep>,
    pub provides: Vec<String>, // as spelled
    pub meta_rp: Option<String>,
    pub files: Vec<(usize, File)>, // (index, file)
    /// no file of this release has wheel metadata (only interpreters)
    pub no_wheel: bool,
    /// unique string in the METADATA, so that equal releases still differ
    pub wheels: usize,
}

impl Rel {
    pub fn has_extra(&self, e: &str) -> bool {
        self.provides.iter().any(|p| normalize(p) == normalize(e))
    }
    pub fn file_mut(&mut self, i: usize) -> &mut File {
        &mut self.files[i].1
    }
}

#[derive(Clone, Debug)]
pub struct Pkg {
    pub name: String,
    pub rels: Vec<Rel>,
    pub page: bool, // is there a page even without releases?
}

#[derive(Clone, Debug)]
pub struct Pb {
    pub version: V,
    pub files: Vec<(usize, File, Vec<String>, HashMap<String, String>)>, // tags, markers
}

#[derive(Clone, Debug)]
pub struct Universe {
    pub pkgs: Vec<Pkg>,
    pub pybi_name: String,
    pub pybis: Vec<Pb>,
    pub indexes: usize,
    pub platforms: Vec<String>,
    pub python: Vec<(Op, V, bool)>,
    pub roots: Vec<Dep>,
    pub allow: Allow,
}

#[derive(Clone, Debug)]
pub enum Allow {
    Some(BTreeSet<String>),
    All,
}

impl Allow {
    pub fn pre(&self, p: &str) -> bool {
        match self {
            Allow::All => true,
            Allow::Some(s) => s.contains(&normalize(p)),
        }
    }
}

/// name -> (version, hashes)
pub type Hints = HashMap<String, (V, BTreeSet<String>)>;

pub fn vhash(v: &V) -> String {
    // versions that are equal under PEP 440 have equal keys
    let mut w = v.clone();
    w.release = v.trimmed();
    w.canonical()
}

pub struct Model<'a> {
    pub u: &'a Universe,
    pub env: HashMap<String, String>,
    pub full: V,
    pub hints: Hints,
}

impl<'a> Model<'a> {
    pub fn pkg(&self, key: &str) -> Option<&'a Pkg> {
        self.u.pkgs.iter().find(|p| normalize(&p.name) == key)
    }

    fn file_ok(&self, key: &str, f: &File, python: bool) -> bool {
        if f.yanked.is_some() {
            let pinned = self.hints.get(key).map_or(false, |(_, h)| f.hashed && h.contains(&f.sha));
            if !pinned {
                return false;
            }
        }
        if python {
            if let Some(r) = &f.requires_python {
                return satisfied(&parse_clauses(r), &self.full);
            }
        }
        true
    }

    /// Indexes into `pkg.rels`, newest first.
    pub fn eligible(&self, key: &str) -> Vec<usize> {
        let Some(p) = self.pkg(key) else { return vec![] };
        let all_pre = p.rels.iter().all(|r| r.version.is_prerelease());
        let pre = all_pre || self.u.allow.pre(key);
        let mut v: Vec<usize> = (0..p.rels.len())
            .filter(|i| {
                let r = &p.rels[*i];
                (pre || !r.version.is_prerelease())
                    && r.files.iter().any(|(_, f)| self.file_ok(key, f, true))
                    && !r.no_wheel
                    && r.meta_rp.as_ref().map_or(true, |m| satisfied(&parse_clauses(m), &self.full))
            })
            .collect();
        v.sort_by(|a, b| pep440::cmp(&p.rels[*b].version, &p.rels[*a].version));
        v
    }

    fn applies(&self, d: &Dep, extras: &BTreeSet<String>) -> bool {
        let Some((_, m)) = &d.marker else { return true };
        let mut env = self.env.clone();
        let mut hit = |e: &str| {
            env.insert("extra".into(), e.into());
            pep508::eval(m, &env) == pep508::R::T
        };
        hit("") || extras.iter().any(|e| hit(e))
    }

    /// Follow everything the requirements reach. Err: something reached is not satisfied.
    /// Ok: (reached packages with extras, unassigned packages reached)
    pub fn closure(
        &self,
        s: &BTreeMap<String, usize>,
    ) -> Result<(BTreeMap<String, BTreeSet<String>>, Vec<String>), String> {
        let mut reach: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        let mut open: Vec<String> = vec![];
        let mut todo: Vec<(String, &Dep)> =
            self.u.roots.iter().filter(|d| self.applies(d, &BTreeSet::new())).map(|d| ("<user>".into(), d)).collect();
        while let Some((who, d)) = todo.pop() {
            let key = d.key();
            let new_pkg = !reach.contains_key(&key);
            let ex = reach.entry(key.clone()).or_default();
            let before = ex.len();
            ex.extend(d.extras.iter().map(|e| normalize(e)));
            let grew = ex.len() > before;
            let Some(i) = s.get(&key) else {
                if new_pkg {
                    open.push(key);
                }
                continue;
            };
            let rel = &self.pkg(&key).ok_or("no such package")?.rels[*i];
            if !d.accepts(&rel.version) {
                return Err(format!("{who} requires {}, but {} {} is chosen", d.text(), key, rel.version.canonical()));
            }
            for e in &d.extras {
                if !rel.has_extra(e) {
                    return Err(format!("{who} requires {}, but {} {} has no such extra", d.text(), key, rel.version.canonical()));
                }
            }
            if new_pkg || grew {
                let ex = reach[&key].clone();
                for d2 in &rel.deps {
                    if self.applies(d2, &ex) {
                        todo.push((format!("{key} {}", rel.version.canonical()), d2));
                    }
                }
            }
        }
        Ok((reach, open))
    }

    /// A solution, or None if there is none; Err when the search got too big.
    pub fn solve(&self) -> Result<Option<BTreeMap<String, usize>>, ()> {
        let mut steps = 0;
        let mut s = BTreeMap::new();
        if self.search(&mut s, &mut steps)? {
            return Ok(Some(s));
        }
        Ok(None)
    }

    fn search(&self, s: &mut BTreeMap<String, usize>, steps: &mut u64) -> Result<bool, ()> {
        *steps += 1;
        if *steps > 60_000 {
            return Err(());
        }
        let open = match self.closure(s) {
            Err(_) => return Ok(false),
            Ok((_, open)) => open,
        };
        let Some(next) = open.first() else { return Ok(true) };
        for i in self.eligible(next) {
            s.insert(next.clone(), i);
            if self.search(s, steps)? {
                return Ok(true);
            }
            s.remove(next);
        }
        Ok(false)
    }
}

/// Platform tags of our test platforms, best first. Small on purpose; C17 has the rules.
pub fn platform_tags(core: &str) -> Vec<String> {
    crate::c17::model_tags(core)
}

/// The interpreter that must be chosen: (pybi index, file index, platform)
pub fn choose_pybi<'a>(u: &'a Universe, hints: &Hints) -> Option<(usize, usize, String)> {
    let key = normalize(&u.pybi_name);
    // releases of the project that are not interpreters count too when judging pre-releases
    let others = u.pkgs.iter().filter(|p| normalize(&p.name) == key).flat_map(|p| p.rels.iter().map(|r| &r.version));
    let all_pre = u.pybis.iter().map(|p| &p.version).chain(others).all(|v| v.is_prerelease());
    let pre = all_pre || u.allow.pre(&key);
    let mut order: Vec<usize> = (0..u.pybis.len()).collect();
    order.sort_by(|a, b| pep440::cmp(&u.pybis[*b].version, &u.pybis[*a].version));
    if let Some((v, _)) = hints.get(&key) {
        if let Some(p) = order.iter().position(|i| pep440::cmp(&u.pybis[*i].version, v).is_eq()) {
            let i = order.remove(p);
            order.insert(0, i);
        }
    }
    for i in order {
        let p = &u.pybis[i];
        if !pre && p.version.is_prerelease() {
            continue;
        }
        let usable = p.files.iter().any(|(_, f, _, _)| {
            f.yanked.is_none() || hints.get(&key).map_or(false, |(_, h)| f.hashed && h.contains(&f.sha))
        });
        if !usable || !satisfied(&u.python, &p.version) {
            continue;
        }
        for plat in &u.platforms {
            let tags = platform_tags(plat);
            let best = p
                .files
                .iter()
                .enumerate()
                .filter_map(|(k, (_, _, t, _))| tags.iter().position(|x| t.contains(x)).map(|s| (s, k)))
                .min();
            if let Some((_, k)) = best {
                return Some((i, k, plat.clone()));
            }
        }
    }
    None
}

pub fn marker_env(u: &Universe, pick: &(usize, usize, String)) -> HashMap<String, String> {
    let mut env = u.pybis[pick.0].files[pick.1].3.clone();
    if !env.contains_key("platform_machine") {
        if pick.2.starts_with("macosx") {
            if pick.2.ends_with("arm64") {
                env.insert("platform_machine".into(), "arm64".into());
            } else if pick.2.ends_with("x86_64") {
                env.insert("platform_machine".into(), "x86_64".into());
            }
        }
    }
    env
}

pub fn pages(u: &Universe) -> Pages {
    let mut p = Pages::new();
    for k in &u.pkgs {
        if k.page {
            p.entry((0, normalize(&k.name))).or_default();
        }
        for r in &k.rels {
            for (i, f) in &r.files {
                add(&mut p, *i, &k.name, f.clone());
            }
        }
    }
    for b in &u.pybis {
        for (i, f, _, _) in &b.files {
            add(&mut p, *i, &u.pybi_name, f.clone());
        }
    }
    p
}

pub fn brief(u: &Universe) -> Brief {
    let py: String = u
        .python
        .iter()
        .map(|(o, v, w)| format!("{}{}{}", o.s(), v.canonical(), if *w { ".*" } else { "" }))
        .collect::<Vec<_>>()
        .join(",");
    Brief {
        python: PythonRequirement::try_from(format!("{} {py}", u.pybi_name).as_str()).expect("python requirement"),
        requirements: u.roots.iter().map(|d| UserRequirement::try_from(d.text().as_str()).expect("requirement")).collect(),
        allow_pre: match &u.allow {
            Allow::All => AllowPre::All,
            Allow::Some(s) => {
                AllowPre::Some(s.iter().map(|n| PackageName::try_from(n.as_str()).unwrap()).collect())
            }
        },
    }
}

pub fn hints_of(bp: &Blueprint) -> Hints {
    let mut h = Hints::new();
    for p in std::iter::once(&bp.pybi).chain(bp.wheels.iter().map(|(p, _)| p)) {
        h.insert(
            p.name.normalized().to_string(),
            (
                pep440::parse(&p.version.to_string()).unwrap(),
                p.hashes.iter().map(|h| h.to_string().rsplit('=').next().unwrap().to_string()).collect(),
            ),
        );
    }
    h
}

pub fn resolve(u: &Universe, db: &PackageDB, like: Option<&Blueprint>) -> Out<Blueprint> {
    let plats: Vec<PybiPlatform> = u.platforms.iter().map(|p| PybiPlatform::new(p)).collect();
    let refs: Vec<&PybiPlatform> = plats.iter().collect();
    let b = brief(u);
    run(|| b.resolve(db, &refs, like, &[]))
}

// ---------------------------------------------------------------- generation

const POOLS: [&[&str]; 7] = [
    &["1.0", "1.1", "2.0", "2.1", "3.0"],
    &["0.9", "1.0", "1.0.post1", "1.1", "2.0rc1", "2.0"],
    &["1.0", "1.1", "2.0a1", "2.0b2", "3.0.dev1"],
    &["2020.1", "2021.10", "2021.9", "2022.1.1"],
    &["1.0a1", "1.0b1", "1.0rc2"],
    &["0.1", "0.10", "0.2", "0.9.9"],
    &["1!0.5", "0.7", "1.0+local.1", "1.0", "2.0"],
];

const SPELL: [&str; 8] = ["alpha", "Beta", "gam.ma", "del_ta", "eps-ilon", "zeta2", "e.t-a", "theta"];
const EXTRAS: [&str; 5] = ["test", "Docs", "all_of-it", "dev", "x.y"];

pub fn full_env(full: &str, plat: &str) -> HashMap<String, String> {
    let pv: Vec<&str> = full.split('.').collect();
    let (os, sys, system) = if plat.starts_with("win") {
        ("nt", "win32", "Windows")
    } else if plat.starts_with("macosx") {
        ("posix", "darwin", "Darwin")
    } else {
        ("posix", "linux", "Linux")
    };
    HashMap::from([
        ("python_version".into(), format!("{}.{}", pv[0], pv[1].trim_end_matches(|c: char| !c.is_ascii_digit()))),
        ("python_full_version".into(), full.to_string()),
        ("os_name".into(), os.into()),
        ("sys_platform".into(), sys.into()),
        ("platform_system".into(), system.into()),
        ("platform_python_implementation".into(), "CPython".into()),
        ("implementation_name".into(), "cpython".into()),
        ("implementation_version".into(), full.to_string()),
    ])
}

const MARKERS: [&str; 16] = [
    "python_version >= '3'",
    "python_version < '3'",
    "python_version >= '3.10'",
    "python_full_version < '3.10.5'",
    "python_full_version != '3.9.1'",
    "sys_platform == 'linux'",
    "sys_platform != \"linux\"",
    "sys_platform == 'win32' or os_name == 'posix'",
    "os_name == 'nt' and python_version > '2'",
    "platform_machine == 'x86_64'",
    "platform_machine == 'arm64'",
    "platform_system in 'Linux Darwin'",
    "implementation_name == 'cpython' and (os_name == 'nt' or sys_platform == 'darwin')",
    "'3.11' <= python_version",
    "platform_python_implementation != 'PyPy'",
    "python_version not in '2.7, 3.9'",
];

pub fn gen_clauses(rng: &fastrand::Rng, pool: &[V], tight: u32) -> Vec<(Op, V, bool)> {
    for _ in 0..50 {
        let n = if chance(rng, tight) { *pick(rng, &[1, 1, 1, 2, 2, 3]) } else { 0 };
        let c: Vec<(Op, V, bool)> = (0..n)
            .map(|_| {
                let mut v = pick(rng, pool).clone();
                if !v.local.is_empty() && rng.bool() {
                    v.local.clear();
                }
                match rng.u8(0..12) {
                    0..=2 => (Op::Ge, v.public(), false),
                    3 | 4 => (Op::Lt, v.public(), false),
                    5 => (Op::Le, v.public(), false),
                    6 => (Op::Gt, v.public(), false),
                    7 => (Op::Ne, v, false),
                    8 | 9 => (Op::Eq, v, false),
                    10 => (Op::Compat, v.public(), false),
                    _ => {
                        let mut v = v.public();
                        v.pre = None;
                        v.dev = None;
                        v.post = None;
                        let k = rng.usize(1..=v.release.len());
                        v.release.truncate(k);
                        (if rng.bool() { Op::Eq } else { Op::Ne }, v, true)
                    }
                }
            })
            .collect();
        if decided(&c, pool) {
            return c;
        }
    }
    vec![]
}

pub struct Knobs {
    pub pkgs: usize,
    pub deps: usize,   // up to, per release
    pub tight: u32,    // percent of deps with version clauses
    pub oddities: bool, // unusable releases, self-dependencies, contradictions, ...
    pub pybi_variety: bool,
}

pub fn gen_marker(rng: &fastrand::Rng, extras: &[String]) -> Option<(String, pep508::M)> {
    let text = if !extras.is_empty() && chance(rng, 65) {
        let e = pick(rng, extras).clone();
        let e = if chance(rng, 30) { gens::respell(rng, &e) } else { e };
        let x = if rng.bool() { format!("extra == '{e}'") } else { format!("'{e}' == extra") };
        match rng.u8(0..5) {
            0 => format!("{x} and {}", pick(rng, &MARKERS).replace(" or ", " and ")),
            1 => format!("({}) and {x}", pick(rng, &MARKERS)),
            2 => format!("{x} or {}", pick(rng, &MARKERS)),
            3 if rng.bool() => {
                // and/or of several, in any order and nesting
                let e2 = pick(rng, extras).clone();
                let mut parts = vec![x, format!("({})", pick(rng, &MARKERS)), format!("({})", pick(rng, &MARKERS))];
                if rng.bool() {
                    parts.push(format!("extra {} '{e2}'", pick(rng, &["==", "==", "!="])));
                }
                rng.shuffle(&mut parts);
                parts.truncate(rng.usize(2..=parts.len()));
                let mut t = parts.pop().unwrap();
                for q in parts {
                    let op = if rng.bool() { "and" } else { "or" };
                    t = if rng.bool() { format!("({q} {op} {t})") } else { format!("({t} {op} {q})") };
                }
                t
            }
            _ => x,
        }
    } else if chance(rng, 35) {
        pick(rng, &MARKERS).to_string()
    } else {
        return None;
    };
    let m = pep508::parse(&text, true)??;
    Some((text, m))
}

fn pool_of(rng: &fastrand::Rng) -> Vec<V> {
    let mut p: Vec<V> = pick(rng, &POOLS).iter().map(|s| pep440::parse(s).unwrap()).collect();
    while p.len() > 1 && chance(rng, 35) {
        p.remove(rng.usize(..p.len()));
    }
    p
}

pub fn build_wheels(rng: &fastrand::Rng, name: &str, r: &mut Rel, indexes: usize, salt: u64) {
    let mut meta = String::new();
    for d in &r.deps {
        meta += &format!("Requires-Dist: {}\n", d.text());
    }
    for e in &r.provides {
        meta += &format!("Provides-Extra: {e}\n");
    }
    if let Some(rp) = &r.meta_rp {
        meta += &format!("Requires-Python: {rp}\n");
    }
    meta += &format!("Keywords: {salt}\n");
    let ver = r.version.canonical();
    let dist = name.replace(['-', '.'], "_");
    let plats = ["any", "manylinux_2_5_x86_64", "win_amd64", "macosx_11_0_arm64"];
    let n = r.wheels.max(1);
    let first = rng.usize(..plats.len());
    for k in 0..n {
        let plat = if n == 1 { "any" } else { plats[(first + k) % plats.len()] };
        let tag = if plat == "any" { "py3-none-any".to_string() } else { format!("py3-none-{plat}") };
        let meta = format!("{meta}Platform: {k}\n");
        let f = File::new(&format!("{dist}-{ver}-{tag}.whl"), wheel_bytes(&dist, &ver, &meta, &[]));
        r.files.push((rng.usize(..indexes), f));
    }
}

pub fn universe(rng: &fastrand::Rng, k: &Knobs) -> Universe {
    let indexes = if chance(rng, 20) { 2 } else { 1 };
    // ---- interpreters
    let pybi_name = "cpython_unofficial".to_string();
    let core = *pick(rng, &["manylinux_2_17_x86_64", "manylinux_2_17_x86_64", "macosx_11_0_arm64", "macosx_12_0_x86_64", "win_amd64"]);
    let mut platforms = vec![core.to_string()];
    if k.pybi_variety && chance(rng, 40) {
        for p in ["manylinux_2_31_x86_64", "macosx_12_0_arm64", "macosx_11_0_x86_64", "win32"] {
            if rng.bool() {
                platforms.push(p.into());
            }
        }
        rng.shuffle(&mut platforms);
    }
    let pvs = ["3.8.5", "3.9.1", "3.10.4", "3.10.9", "3.11.2", "3.12.0b1", "3.12.0rc2"];
    let mut pvs: Vec<&str> = pvs.iter().copied().filter(|_| chance(rng, 45)).collect();
    if pvs.is_empty() {
        pvs.push("3.10.4");
    }
    let mut pybis: Vec<Pb> = vec![];
    for pv in &pvs {
        let mut files = vec![];
        let n = if k.pybi_variety { rng.usize(1..4) } else { 1 };
        let mut used = BTreeSet::new();
        for _ in 0..n {
            let tags: Vec<String> = if k.pybi_variety {
                let choice = [
                    "manylinux_2_17_x86_64", "manylinux_2_12_x86_64", "manylinux2014_x86_64", "manylinux1_x86_64", "manylinux_2_31_x86_64",
                    "manylinux_2_17_aarch64", "macosx_11_0_arm64", "macosx_10_9_universal2", "macosx_10_9_x86_64",
                    "macosx_11_0_universal2", "win_amd64", "win32", "musllinux_1_1_x86_64",
                ];
                let n = *pick(rng, &[1usize, 1, 1, 2]);
                (0..n).map(|_| pick(rng, &choice).to_string()).collect()
            } else {
                vec![core.to_string()]
            };
            // one file per tag: ties between files are not posy's to decide
            let full = crate::c17::pybi_tags(&tags);
            if full.iter().any(|t| used.contains(t)) || full.iter().collect::<BTreeSet<_>>().len() != full.len() {
                continue;
            }
            used.extend(full.iter().cloned());
            let mut env = full_env(&pv.replace(".0b1", ".0b1"), &tags[0]);
            if tags.iter().all(|t| t.ends_with("x86_64") || t.ends_with("amd64")) && !(tags.iter().all(|t| t.starts_with("macosx")) && rng.bool()) {
                env.insert("platform_machine".into(), "x86_64".into());
            } else if !tags.iter().all(|t| t.starts_with("macosx")) {
                env.insert("platform_machine".into(), pick(rng, &["aarch64", "i686", "arm64"]).to_string());
            }
            let marks: BTreeMap<String, String> = env.clone().into_iter().collect();
            let mut f = pybi(&PybiSpec {
                name: &pybi_name,
                version: pv,
                plats: &tags.join("."),
                markers: &marks,
                wheel_tags: &["py3-none-any"],
                python: None,
                extra: vec![],
            });
            if k.oddities && chance(rng, 12) {
                f.yanked = Some("".into());
            }
            files.push((rng.usize(..indexes), f, full, env));
        }
        if !files.is_empty() {
            pybis.push(Pb { version: pep440::parse(pv).unwrap(), files });
        }
    }
    let pyvs: Vec<V> = pvs.iter().map(|p| pep440::parse(p).unwrap()).collect();
    let python = gen_clauses(rng, &pyvs, 35);

    // ---- packages
    let n = rng.usize(1..=k.pkgs);
    let mut names: Vec<&str> = SPELL.to_vec();
    rng.shuffle(&mut names);
    let names: Vec<String> = names[..n].iter().map(|s| s.to_string()).collect();
    let pools: Vec<Vec<V>> = (0..n).map(|_| pool_of(rng)).collect();
    let provided: Vec<Vec<String>> = (0..n)
        .map(|_| {
            let mut e: Vec<String> = EXTRAS.iter().map(|s| s.to_string()).collect();
            rng.shuffle(&mut e);
            e.truncate(*pick(rng, &[0usize, 0, 1, 1, 2, 3]));
            e
        })
        .collect();
    let gen_dep = |own: Option<usize>, extras: &[String]| -> Option<Dep> {
        let mut t = rng.usize(..n);
        if own == Some(t) && !(k.oddities && chance(rng, 40)) {
            t = (t + 1) % n;
            if own == Some(t) {
                return None;
            }
        }
        if k.oddities && chance(rng, 3) {
            let marker = gen_marker(rng, extras);
            return Some(Dep { name: "no-such-thing".into(), extras: vec![], clauses: vec![], marker });
        }
        let name = if chance(rng, 30) { gens::respell(rng, &names[t]) } else { names[t].clone() };
        let mut ex = vec![];
        for e in &provided[t] {
            if chance(rng, 30) {
                ex.push(if chance(rng, 30) { gens::respell(rng, e) } else { e.clone() });
            }
        }
        if k.oddities && chance(rng, 2) {
            ex.push("nonexistent".into());
        }
        Some(Dep { name, extras: ex, clauses: gen_clauses(rng, &pools[t], k.tight), marker: gen_marker(rng, extras) })
    };
    let mut pkgs = vec![];
    for i in 0..n {
        let mut rels = vec![];
        for v in &pools[i] {
            let mut provides = provided[i].clone();
            if k.oddities && chance(rng, 8) && !provides.is_empty() {
                provides.pop();
            }
            let mut deps: Vec<Dep> = vec![];
            for _ in 0..rng.usize(0..=k.deps) {
                if let Some(d) = gen_dep(Some(i), &provides) {
                    // the same dependency again, in another spelling and with other bounds
                    if chance(rng, 15) {
                        let t = names.iter().position(|x| normalize(x) == d.key());
                        if let Some(t) = t {
                            deps.push(Dep {
                                name: gens::respell(rng, &names[t]),
                                extras: if rng.bool() { d.extras.clone() } else { vec![] },
                                clauses: gen_clauses(rng, &pools[t], 90),
                                marker: if rng.bool() { gen_marker(rng, &provides) } else { d.marker.clone() },
                            });
                        }
                    }
                    deps.push(d);
                }
            }
            rng.shuffle(&mut deps);
            // package[extra] depending on package[other-extra]
            if provides.len() > 1 && chance(rng, 30) {
                let text = format!("extra == '{}'", provides[0]);
                let m = pep508::parse(&text, true).unwrap().unwrap();
                deps.push(Dep { name: names[i].clone(), extras: vec![provides[1].clone()], clauses: vec![], marker: Some((text, m)) });
            }
            let meta_rp = if k.oddities && chance(rng, 12) {
                Some(pick(rng, &[">=3.10", "<3.11", ">=3.6", "!=3.9.*", ">3.10.4,<4", "~=3.8", ">=3.12", "<3.12", ">=3.12.0b2"]).to_string())
            } else {
                None
            };
            if k.oddities && chance(rng, 25) {
                deps.clear();
            }
            let mut r = Rel { version: v.clone(), deps, provides, meta_rp, files: vec![], no_wheel: false, wheels: *pick(rng, &[1usize, 1, 1, 2, 3]) };
            if k.oddities && chance(rng, 4) {
                r.no_wheel = true;
                r.meta_rp = None;
                r.deps.clear();
                r.provides.clear();
                let env: BTreeMap<String, String> = full_env("3.10.4", core).into_iter().collect();
                let f = pybi(&PybiSpec {
                    name: &names[i].replace(['-', '.'], "_"),
                    version: &v.canonical(),
                    plats: core,
                    markers: &env,
                    wheel_tags: &[],
                    python: None,
                    extra: vec![],
                });
                r.files.push((0, f));
            } else {
                build_wheels(rng, &names[i], &mut r, indexes, rng.u64(..));
            }
            for (_, f) in r.files.iter_mut() {
                if k.oddities && chance(rng, 8) {
                    f.yanked = Some(pick(rng, &["", "broken"]).to_string());
                }
                if k.oddities && chance(rng, 3) {
                    f.hashed = false;
                }
                if k.oddities && chance(rng, 14) {
                    f.requires_python = Some(pick(rng, &[">=3.10", "<3.11", ">=3.6", "!=3.9.*", "<3", ">=3.8.6", ">=3.12", "<3.12", "<=3.12", ">3.12.0b1", ">=3.12.0rc1"]).to_string());
                }
            }
            // most indexes repeat the requires-python of the metadata
            if let Some(rp) = &r.meta_rp {
                if chance(rng, 60) {
                    for (_, f) in r.files.iter_mut() {
                        f.requires_python = Some(rp.clone());
                    }
                }
            }
            rels.push(r);
        }
        if k.oddities && chance(rng, 3) {
            rels.clear();
        }
        rng.shuffle(&mut rels);
        pkgs.push(Pkg { name: names[i].clone(), page: rng.bool(), rels });
    }
    let mut roots = vec![];
    for _ in 0..rng.usize(1..=3) {
        if let Some(mut d) = gen_dep(None, &[]) {
            if chance(rng, 85) {
                d.marker = None;
            }
            roots.push(d);
        }
    }
    if chance(rng, 3) {
        roots.clear();
    }
    let allow = match rng.u8(0..6) {
        0 => Allow::All,
        1 | 2 => Allow::Some(names.iter().filter(|_| chance(rng, 40)).map(|n| normalize(n)).chain(rng.bool().then(|| normalize(&pybi_name))).collect()),
        _ => Allow::Some(Default::default()),
    };
    Universe { pkgs, pybi_name, pybis, indexes, platforms, python, roots, allow }
}

pub fn describe(u: &Universe) -> String {
    let mut s = format!(
        "platforms {:?}, python {} {}, allow_pre {:?}\nrequirements: {:?}\n",
        u.platforms,
        u.pybi_name,
        u.python.iter().map(|(o, v, w)| format!("{}{}{}", o.s(), v.canonical(), if *w { ".*" } else { "" })).collect::<Vec<_>>().join(","),
        u.allow,
        u.roots.iter().map(|d| d.text()).collect::<Vec<_>>()
    );
    for b in &u.pybis {
        for (_, f, _, e) in &b.files {
            s += &format!("  interpreter {}{} {:?}\n", f.name, if f.yanked.is_some() { " YANKED" } else { "" }, e.iter().collect::<BTreeMap<_, _>>());
        }
    }
    for p in &u.pkgs {
        for r in &p.rels {
            s += &format!(
                "  {} {}: requires {:?} provides {:?} requires-python {:?}{} files {:?}\n",
                p.name,
                r.version.canonical(),
                r.deps.iter().map(|d| d.text()).collect::<Vec<_>>(),
                r.provides,
                r.meta_rp,
                if r.no_wheel { " (no wheel)" } else { "" },
                r.files.iter().map(|(_, f)| format!("{}{}{}{}", f.name, if f.yanked.is_some() { " YANKED" } else { "" }, f.requires_python.as_ref().map_or(String::new(), |r| format!(" rp{r}")), if f.hashed { "" } else { " unhashed" })).collect::<Vec<_>>()
            );
        }
    }
    s
}

pub fn describe_bp(bp: &Blueprint) -> String {
    format!(
        "{} | {}",
        bp.pybi,
        bp.wheels.iter().map(|(p, _)| format!("{} {}", p.name.as_given(), p.version)).collect::<Vec<_>>().join(", ")
    )
}

/// What the answer means in the model: package -> release. Err: it names something that
/// does not exist.
pub fn solution(u: &Universe, bp: &Blueprint) -> Result<BTreeMap<String, usize>, String> {
    let mut s = BTreeMap::new();
    for (pin, _) in &bp.wheels {
        let key = pin.name.normalized().to_string();
        let v = pep440::parse(&pin.version.to_string()).ok_or("unreadable version")?;
        let p = u.pkgs.iter().find(|p| normalize(&p.name) == key).ok_or(format!("pins unknown package {key}"))?;
        let i = p.rels.iter().position(|r| pep440::cmp(&r.version, &v).is_eq()).ok_or(format!("pins unknown release {key} {}", pin.version))?;
        if s.insert(key.clone(), i).is_some() {
            return Err(format!("{key} is pinned twice"));
        }
    }
    Ok(s)
}
