//! C18: only content pinned in the blueprint is ever installed.
use crate::arch::*;
use crate::common::*;
use crate::py::*;
use crate::pep508::normalize;
use crate::world::*;
use posy::verif::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;

const PLAT: &str = NATIVE;
const GOOD_TAGS: &[&str] = &["py3-none-any", "cp312-cp312-manylinux_2_17_x86_64", "py3-none-manylinux_2_5_x86_64", "cp312-cp312-manylinux_2_12_x86_64", "py2.py3-none-any", "1-py3-none-any"];
const BAD_TAGS: &[&str] = &["cp311-cp311-manylinux_2_17_x86_64", "py3-none-win_amd64", "py3-none-manylinux_2_28_x86_64", "cp312-cp312-macosx_11_0_arm64"];

pub const CLASSES: &[&str] = &[
    "",
    "Requires-Python: >=3\n",
    "Requires-Dist: zzz; python_version < '2'\n",
    "Provides-Extra: tls\n",
    "Provides-Extra: tls\nRequires-Dist: zzz[a]>1; extra == 'tls'\n",
    "Requires-Dist: zzz; python_version < '2'\nRequires-Dist: yyy; python_version < '2'\n",
    "Requires-Python: >=3.1\n",
];

pub fn class_meta(c: usize) -> WheelResolveMetadataInner {
    let mut m = WheelResolveMetadataInner { requires_dist: vec![], requires_python: Specifiers(vec![]), extras: Default::default() };
    for l in CLASSES[c].lines() {
        let (k, v) = l.split_once(": ").unwrap();
        match k {
            "Requires-Python" => m.requires_python = v.try_into().unwrap(),
            "Requires-Dist" => m.requires_dist.push(v.try_into().unwrap()),
            _ => {
                m.extras.insert(v.parse().unwrap());
            }
        }
    }
    m
}

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Wheel(bool),
    Sdist,
}

#[derive(Clone, Debug)]
struct Item {
    kind: Kind,
    file: File,
    id: String,
    class: usize,
    honest: bool,
}

#[derive(Clone, Debug)]
struct Proj {
    name: String,
    version: String,
    items: Vec<Item>,
}

struct Truth {
    /// id found in an installed tree -> (sha256 of the file it came from, class)
    ids: HashMap<String, (String, usize)>,
    next: u64,
}

impl Truth {
    fn id(&mut self, what: &str) -> String {
        self.next += 1;
        format!("{what} #{}", self.next)
    }
}

fn dist_of(name: &str) -> String {
    name.replace(['-', '.'], "_")
}

fn make(rng: &fastrand::Rng, t: &mut Truth, pr: (&str, &str), kind: Kind, tag: &str, class: usize) -> Item {
    let (name, version) = pr;
    let dist = dist_of(name);
    let id = t.id(&format!("{name} {version} {kind:?} {tag}"));
    let module = format!("{}_id.py", normalize(name).replace('-', "_"));
    let mut extra = vec![M::file(&module, &id)];
    if rng.bool() {
        extra.push(M::file(&format!("{dist}/__init__.py"), ""));
    }
    let bytes = wheel_bytes(&dist, version, CLASSES[class], &extra);
    let file = match kind {
        Kind::Wheel(_) => File::new(&format!("{dist}-{version}-{tag}.whl"), bytes),
        Kind::Sdist => {
            let built = if rng.bool() { "py3-none-any" } else { "cp312-cp312-linux_x86_64" };
            sdist(
                if rng.bool() { name } else { &dist },
                version,
                &Plan {
                    wheel: (format!("{dist}-{version}-{built}.whl"), bytes),
                    pick: id.clone(),
                    metadata_hook: rng.bool(),
                    dynamic: if rng.bool() { Some(vec![]) } else { None },
                    zip: tag == "zip",
                    ..Default::default()
                },
            )
        }
    };
    t.ids.insert(id.clone(), (file.sha.clone(), class));
    Item { kind, file, id, class, honest: true }
}

fn make_pybi(t: &mut Truth, version: &str, tag: &str) -> Item {
    let id = t.id(&format!("python {version} {tag}"));
    let file = real_pybi("cpython_unofficial", version, tag, &id);
    t.ids.insert(id.clone(), (file.sha.clone(), 0));
    Item { kind: Kind::Wheel(true), file, id, class: 0, honest: true }
}

fn pages(pybis: &[Item], projs: &[Proj], rng: &fastrand::Rng) -> Pages {
    let mut pages = Pages::new();
    for i in pybis {
        add(&mut pages, 0, "cpython_unofficial", i.file.clone());
    }
    for p in projs {
        let mut fs: Vec<File> = p.items.iter().map(|i| i.file.clone()).collect();
        rng.shuffle(&mut fs);
        for f in fs {
            add(&mut pages, 0, &p.name, f);
        }
    }
    pages
}

fn describe(pybis: &[Item], projs: &[Proj]) -> String {
    let one = |i: &Item| format!("  {} sha256 {} id {:?} class {}{}{}\n", i.file.name, &i.file.sha[..12], i.id, i.class, if i.file.hashed { "" } else { " NO HASH ON PAGE" }, if i.honest { "" } else { " SERVED WITH OTHER CONTENTS" });
    pybis.iter().map(one).collect::<String>() + &projs.iter().map(|p| format!(" {} {}\n{}", p.name, p.version, p.items.iter().map(one).collect::<String>())).collect::<String>()
}

fn mutate(rng: &fastrand::Rng, t: &mut Truth, pybis: &mut Vec<Item>, projs: &mut Vec<Proj>) {
    let harsh = *pick(rng, &[0u32, 12, 12, 35]);
    for p in projs.iter_mut() {
        let mut out = vec![];
        for mut i in std::mem::take(&mut p.items) {
            let tag = match i.kind {
                Kind::Sdist => if i.file.name.ends_with(".zip") { "zip".to_string() } else { "tar".into() },
                _ => i.file.name.strip_suffix(".whl").unwrap().splitn(3, '-').nth(2).unwrap().to_string(),
            };
            if chance(rng, harsh) {
                match rng.u8(0..6) {
                    0 => continue, // gone
                    1 => {
                        // replaced: same name, other contents, the page tells the truth
                        let class = if rng.bool() { i.class } else { rng.usize(..CLASSES.len()) };
                        i = make(rng, t, (&p.name, &p.version), i.kind.clone(), &tag, class);
                    }
                    2 | 3 => {
                        // the page still has the old hash
                        let class = if rng.bool() { i.class } else { rng.usize(..CLASSES.len()) };
                        let other = make(rng, t, (&p.name, &p.version), i.kind.clone(), &tag, class);
                        i.file.bytes = if rng.bool() { other.file.bytes } else { Arc::new(i.file.bytes[..i.file.bytes.len() / 2].to_vec()) };
                        i.honest = false;
                    }
                    4 => i.file.hashed = false,
                    _ => {
                        i.file.hashed = false;
                        let other = make(rng, t, (&p.name, &p.version), i.kind.clone(), &tag, i.class);
                        i.file.bytes = other.file.bytes;
                        i.honest = false;
                    }
                }
            }
            out.push(i);
        }
        // things that were not there
        for _ in 0..*pick(rng, &[0usize, 0, 1, 2]) {
            let (kind, tag) = if chance(rng, 35) { (Kind::Sdist, *pick(rng, &["zip", "tar"])) } else { (Kind::Wheel(true), *pick(rng, GOOD_TAGS)) };
            let class = if rng.bool() { 0 } else { rng.usize(..CLASSES.len()) };
            let n = make(rng, t, (&p.name, &p.version), kind, tag, class);
            if !out.iter().any(|i| i.file.name == n.file.name) {
                out.push(n);
            }
        }
        p.items = out;
    }
    let mut out = vec![];
    for mut i in std::mem::take(pybis) {
        if chance(rng, harsh / 3) {
            let stem = i.file.name.strip_suffix(".pybi").unwrap().to_string();
            let (v, tag) = (stem.split('-').nth(1).unwrap(), stem.split('-').nth(2).unwrap());
            match rng.u8(0..3) {
                0 => continue,
                1 => i = make_pybi(t, v, tag),
                _ => {
                    i.file.bytes = make_pybi(t, v, tag).file.bytes;
                    i.honest = false;
                }
            }
        }
        out.push(i);
    }
    if chance(rng, 30) {
        let tag = *pick(rng, &["manylinux_2_12_x86_64", "manylinux_2_5_x86_64"]);
        let n = make_pybi(t, "3.12.3", tag);
        if !out.iter().any(|i| i.file.name == n.file.name) {
            out.push(n);
        }
    }
    *pybis = out;
}

fn pin(name: &str, version: &str, items: &[&Item]) -> PinnedPackage {
    PinnedPackage {
        name: name.try_into().unwrap(),
        version: version.try_into().unwrap(),
        hashes: items.iter().filter(|i| i.file.hashed).map(|i| ArtifactHash::from_hex("sha256", &i.file.sha).unwrap()).collect(),
    }
}

fn blueprint(rng: &fastrand::Rng, pybis: &[Item], projs: &[Proj], all: bool) -> Blueprint {
    let some = |items: &[Item]| -> Vec<Item> { items.iter().filter(|_| all || chance(rng, 75)).cloned().collect() };
    let py = some(pybis);
    Blueprint {
        pybi: pin("cpython_unofficial", "3.12.3", &py.iter().collect::<Vec<_>>()),
        wheels: projs
            .iter()
            .map(|p| {
                let s = some(&p.items);
                let refs: Vec<&Item> = s.iter().collect();
                let class = p.items.first().map_or(0, |i| i.class);
                (pin(&p.name, &p.version, &refs), WheelResolveMetadata { provenance: "somewhere".into(), inner: class_meta(class) })
            })
            .collect(),
        marker_expressions: HashMap::new(),
    }
}

/// Judge an environment that get_env returned.
fn judge(p: &mut Part, env: &Env, bp: &Blueprint, t: &Truth, what: &str) {
    let root = env.python.parent().unwrap().parent().unwrap();
    let look = |path: &std::path::Path| std::fs::read_to_string(path).unwrap_or_else(|e| format!("{}: {e}", path.display()));
    let in_pins = |id: &str, pin: &PinnedPackage| -> Option<usize> {
        let (sha, class) = t.ids.get(id)?;
        pin.hashes.iter().any(|h| h.mode == "sha256" && data(h) == *sha).then_some(*class)
    };
    let id = look(&root.join("which"));
    if in_pins(&id, &bp.pybi).is_none() {
        p.violate("unpinned-interpreter", format!("installed {id:?}, which {} does not list\n{what}", bp.pybi));
    }
    if env.lib_dirs.len() != bp.wheels.len() {
        p.violate("not-all-installed", format!("{} packages in the environment\n{what}", env.lib_dirs.len()));
        return;
    }
    for (dir, (pin, meta)) in env.lib_dirs.iter().zip(&bp.wheels) {
        let module = format!("{}_id.py", normalize(pin.name.normalized()).replace('-', "_"));
        let id = look(&dir.join(module));
        match in_pins(&id, pin) {
            None => p.violate("unpinned-package", format!("installed {id:?} for {}, which is not among its pinned hashes {:?}\n{what}", pin, pin.hashes.iter().map(|h| data(h)[..12].to_string()).collect::<Vec<_>>())),
            Some(class) if class_meta(class) != meta.inner => p.violate("other-metadata", format!("installed {id:?} (metadata class {class}), the blueprint expects {}\n{what}", serde_json::to_string(&meta.inner).unwrap())),
            Some(_) => p.count("packages installed as pinned", 1),
        }
    }
}

fn data(h: &ArtifactHash) -> String {
    h.raw_data.iter().map(|b| format!("{b:02x}")).collect()
}

/// Must this blueprint be installable from this index?
fn must_work(bp: &Blueprint, pybis: &[Item], projs: &[Proj]) -> bool {
    let pinned = |i: &Item, pin: &PinnedPackage| i.file.hashed && pin.hashes.iter().any(|h| data(h) == i.file.sha);
    let compatible = |i: &Item| i.file.name.contains("manylinux");
    let py: Vec<&Item> = pybis.iter().filter(|i| pinned(i, &bp.pybi) && compatible(i)).collect();
    if py.is_empty() || pybis.iter().any(|i| !i.honest) {
        return false;
    }
    bp.wheels.iter().all(|(pin, meta)| {
        let Some(pr) = projs.iter().find(|p| normalize(&p.name) == pin.name.normalized()) else { return false };
        let usable = |k: &dyn Fn(&Kind) -> bool| pr.items.iter().filter(|i| k(&i.kind) && pinned(i, pin)).cloned().collect::<Vec<_>>();
        let w = usable(&|k| *k == Kind::Wheel(true));
        let s = usable(&|k| *k == Kind::Sdist);
        let c = if w.is_empty() { s } else { w };
        !c.is_empty() && c.iter().all(|i| i.honest && class_meta(i.class) == meta.inner)
    })
}

fn work(p: &mut Part) {
    let index = Index::new();
    while p.within() {
        let rng = fastrand::Rng::with_seed(p.rng.u64(..));
        let mut t = Truth { ids: HashMap::new(), next: 0 };
        let mut pybis = vec![make_pybi(&mut t, "3.12.3", NATIVE)];
        for tag in ["manylinux_2_5_x86_64", "win_amd64"] {
            if chance(&rng, 30) {
                pybis.push(make_pybi(&mut t, "3.12.3", tag));
            }
        }
        let mut names = vec!["Alpha-One", "beta.two", "gamma_3", "delta"];
        rng.shuffle(&mut names);
        names.truncate(rng.usize(1..4));
        let mut projs: Vec<Proj> = vec![];
        for n in names {
            let version = pick(&rng, &["1.0", "2.0.post1", "1.0+local.1", "1!0.3"]).to_string();
            let mut items: Vec<Item> = vec![];
            let class = if rng.bool() { 0 } else { rng.usize(..CLASSES.len()) };
            let sdist_only = chance(&rng, 30);
            for _ in 0..rng.usize(1..4) {
                let (kind, tag) = if chance(&rng, 25) || sdist_only {
                    (Kind::Sdist, *pick(&rng, &["zip", "tar"]))
                } else if chance(&rng, 25) {
                    (Kind::Wheel(false), *pick(&rng, BAD_TAGS))
                } else {
                    (Kind::Wheel(true), *pick(&rng, GOOD_TAGS))
                };
                // now and then the files of a release contradict each other
                let class = if chance(&rng, 8) { rng.usize(..CLASSES.len()) } else { class };
                let i = make(&rng, &mut t, (n, &version), kind, tag, class);
                if !items.iter().any(|j| j.file.name == i.file.name || (i.kind == Kind::Sdist && j.kind == Kind::Sdist && i.file.name.len() == j.file.name.len())) {
                    items.push(i);
                }
            }
            projs.push(Proj { name: n.to_string(), version, items });
        }
        let platform = PybiPlatform::new(PLAT);
        let urls = index.urls(1);
        let mut home = Home::new();
        index.set(pages(&pybis, &projs, &rng), rng.bool());
        // the blueprint: by resolving, or as somebody may have edited it
        let bp = if chance(&rng, 35) {
            let brief = Brief {
                python: "cpython_unofficial".try_into().unwrap(),
                requirements: projs.iter().map(|p| format!("{}=={}", p.name, p.version).as_str().try_into().unwrap()).collect(),
                allow_pre: AllowPre::All,
            };
            let db = home.db(&urls);
            p.begin("resolve");
            let got = run(|| brief.resolve(&db, &[&platform], None, &[]));
            p.end();
            match got {
                Out::Ok(b) => {
                    p.count("blueprints by resolving", 1);
                    b
                }
                _ => continue,
            }
        } else {
            let all = rng.bool();
            blueprint(&rng, &pybis, &projs, all)
        };
        let first = describe(&pybis, &projs);
        let mut history = vec![];
        for step in 0..rng.usize(1..4) {
            if step > 0 || rng.bool() {
                mutate(&rng, &mut t, &mut pybis, &mut projs);
            }
            if chance(&rng, 40) {
                home = Home::new();
            } else if chance(&rng, 25) {
                // something else was installed from the same index before
                let other = blueprint(&rng, &pybis, &projs, true);
                index.set(pages(&pybis, &projs, &rng), rng.bool());
                let db = home.db(&urls);
                p.begin("other blueprint");
                let _ = run(|| home.forest.get_env(&db, &other, &[&platform], &[]));
                p.end();
                history.push("another blueprint".to_string());
            }
            index.set(pages(&pybis, &projs, &rng), rng.bool());
            let pins: Vec<String> = std::iter::once(&bp.pybi)
                .chain(bp.wheels.iter().map(|w| &w.0))
                .map(|p| format!("{} {} {:?}", p.name.as_given(), p.version, p.hashes.iter().map(|h| data(h)[..12].to_string()).collect::<Vec<_>>()))
                .collect();
            let what = format!("pinned: {pins:#?}\nfirst index:\n{first}index at install time:\n{}{history:?}", describe(&pybis, &projs));
            let db = home.db(&urls);
            p.begin(&what);
            let got = run(|| home.forest.get_env(&db, &bp, &[&platform], &[]));
            p.end();
            p.case(&what, true);
            let must = must_work(&bp, &pybis, &projs);
            match &got {
                Out::Ok(env) => {
                    p.count("environments", 1);
                    judge(p, env, &bp, &t, &what);
                    if !must {
                        p.count("environments although something was amiss", 1);
                    }
                }
                Out::Err(e) if must => p.violate("not-installed", format!("{}\n{what}", truncate(e, 600))),
                Out::Err(e) => {
                    let k = if e.contains("Metadata mismatch") {
                        "refused: other metadata"
                    } else if e.contains("hash mismatch") {
                        "refused: contents do not match the hash"
                    } else if e.contains("no compatible") || e.contains("NoCompatible") || e.contains("ompatible") {
                        "refused: nothing pinned and compatible"
                    } else {
                        "refused: other reasons"
                    };
                    p.count(k, 1);
                    p.count("refused", 1);
                }
                Out::Panic(e) => p.violate("panic", format!("{e}\n{what}")),
            }
            if p.wants_sample(&rng) {
                p.sample(json!({"pins": pins, "index": describe(&pybis, &projs), "must work": must, "result": got.kind()}));
            }
            history.push(format!("installed: {}", got.kind()));
        }
    }
    let _: (BTreeMap<u8, u8>, HashSet<u8>) = Default::default();
}

pub fn run_(mut c: Ctx) -> ! {
    c.rule = "an installation of a blueprint from an index that changed after the blueprint was made; distinct by pins and index contents".into();
    c.assumptions = vec![
        "Requirements in a different order, or written differently, are not judged.".into(),
        "Build environments (unpinned by design) are not judged.".into(),
    ];
    py();
    parallel(&mut c, 8, 35, 600, work);
    for k in ["environments", "refused"] {
        if c.counters.get(k).copied().unwrap_or(0) == 0 {
            c.problem(format!("never observed: {k}"));
        }
    }
    c.finish()
}
