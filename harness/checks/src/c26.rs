//! C26: the metadata posy reports is the metadata of the file it names.
use crate::arch::*;
use crate::common::*;
use crate::pep508::normalize;
use crate::py::*;
use crate::srv;
use crate::world::*;
use posy::verif::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Kind {
    Wheel,
    Pybi,
    Sdist,
}

/// What a file says about itself, in a form that can be compared.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Truth {
    kind: Kind,
    name: String,
    version: String,
    deps: Vec<String>,
    python: String,
    extras: BTreeSet<String>,
    vars: BTreeMap<String, String>,
    tags: Vec<String>,
    /// for an sdist: can it be built?
    builds: bool,
}

#[derive(Clone, Debug)]
struct Item {
    kind: Kind,
    file: File,
    truth: Truth,
}

#[derive(Clone, Debug)]
struct Rel {
    version: String,
    items: Vec<Item>,
}

struct World {
    name: String,
    rels: Vec<Rel>,
    /// key in the URL -> what the file of that hash is (for files with hashes)
    truth: HashMap<String, Truth>,
    next: usize,
}

fn norm_req(r: &PackageRequirement) -> String {
    r.to_string()
}

fn of_wheel(m: &WheelCoreMetadata, kind: Kind, builds: bool) -> Truth {
    Truth {
        kind,
        name: m.name.normalized().to_string(),
        version: m.version.to_string(),
        deps: m.requires_dist.iter().map(norm_req).collect(),
        python: m.requires_python.to_string(),
        extras: m.extras.iter().map(|e| e.normalized().to_string()).collect(),
        vars: BTreeMap::new(),
        tags: vec![],
        builds,
    }
}

fn of_pybi(m: &PybiCoreMetadata) -> Truth {
    Truth {
        kind: Kind::Pybi,
        name: m.name.normalized().to_string(),
        version: m.version.to_string(),
        deps: vec![],
        python: String::new(),
        extras: BTreeSet::new(),
        vars: m.environment_marker_variables.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        tags: m.tags.clone(),
        builds: true,
    }
}

/// METADATA and what it says.
fn gen_meta(rng: &fastrand::Rng, name: &str, version: &str, id: usize) -> (String, Truth) {
    let mut t = Truth {
        kind: Kind::Wheel,
        name: normalize(name),
        version: Version::try_from(version).unwrap().to_string(),
        deps: vec![],
        python: Specifiers(vec![]).to_string(),
        extras: BTreeSet::new(),
        vars: BTreeMap::new(),
        tags: vec![],
        builds: true,
    };
    let mut m = format!("Metadata-Version: 2.1\nName: {}\nVersion: {version}\n", if rng.bool() { name.to_string() } else { normalize(name) });
    let mut dep = |s: String, m: &mut String| {
        t.deps.push(norm_req(&PackageRequirement::try_from(s.as_str()).unwrap()));
        *m += &format!("Requires-Dist: {s}\n");
    };
    dep(format!("this-is-file-{id}"), &mut m);
    for _ in 0..rng.usize(0..3) {
        dep(format!("dep{}{}", rng.u8(0..4), pick(rng, &["", ">=1", " (<3)", "; python_version < '3'", "[x]; extra == 'tls'"])), &mut m);
    }
    if rng.bool() {
        let p = *pick(rng, &[">=3", ">=2.7,!=3.0.*", "<4"]);
        t.python = Specifiers::try_from(p).unwrap().to_string();
        m += &format!("Requires-Python: {p}\n");
    }
    if rng.bool() {
        t.extras.insert("tls".into());
        m += "Provides-Extra: TLS\n";
    }
    m += "Summary: caf\u{e9}\n";
    if rng.bool() {
        m += "\nName: not-a-header\nRequires-Dist: nor-this\n";
        for _ in 0..rng.usize(0..3) {
            m += &"lorem ipsum \u{2603}\n".repeat(rng.usize(0..2000));
        }
    }
    (m, t)
}

fn dist_of(name: &str) -> String {
    name.replace(['-', '.'], "_")
}

impl World {
    fn make(&mut self, rng: &fastrand::Rng, version: &str, kind: Kind, tag: &str) -> Item {
        self.next += 1;
        let id = self.next;
        let dist = if rng.bool() { dist_of(&self.name) } else { normalize(&self.name).replace('-', "_") };
        let (meta, mut t) = gen_meta(rng, &self.name, version, id);
        t.kind = kind;
        let junk = |n: usize| -> Vec<u8> { (0..n).map(|_| rng.u8(..)).collect() };
        let file = match kind {
            Kind::Wheel | Kind::Sdist => {
                let di = format!("{dist}-{version}.dist-info");
                let mut ms = vec![
                    M::file(&format!("{di}/WHEEL"), "Wheel-Version: 1.0\nGenerator: t\nRoot-Is-Purelib: true\nTag: py3-none-any\n"),
                    M::file(&format!("{di}/RECORD"), ""),
                    M::file(&format!("{dist}/__init__.py"), ""),
                    // not the metadata
                    M::file(&format!("{dist}/_vendor/other-1.0.dist-info/METADATA"), "Metadata-Version: 2.1\nName: other\nVersion: 1.0\n"),
                    M::file("METADATA", "Metadata-Version: 2.1\nName: other\nVersion: 1.0\n"),
                ];
                for i in 0..*pick(rng, &[0usize, 0, 1, 2]) {
                    ms.push(M::file(&format!("{dist}/junk{i}"), junk(rng.usize(0..60_000))).stored());
                }
                let mut md = M::file(&format!("{di}/METADATA"), &meta);
                if rng.bool() {
                    md = md.stored();
                }
                ms.insert(rng.usize(..=ms.len()), md);
                if rng.bool() {
                    rng.shuffle(&mut ms);
                }
                let bytes = zip_bytes(&ms);
                if kind == Kind::Wheel {
                    File::new(&format!("{dist}-{version}-{tag}.whl"), bytes)
                } else {
                    let hook = rng.bool();
                    let hook_metadata = if hook && rng.bool() {
                        let (m, mut t2) = gen_meta(rng, &self.name, version, id);
                        t2.kind = kind;
                        t = t2;
                        Some(m)
                    } else {
                        None
                    };
                    let faults = match rng.u8(0..8) {
                        0 => {
                            t.builds = false;
                            let h = if hook { "prepare_metadata_for_build_wheel" } else { "build_wheel" };
                            vec![(h.to_string(), -1, pick(rng, &["raise", "late-raise", "exit3", "kill"]).to_string())]
                        }
                        _ => vec![],
                    };
                    sdist(
                        &dist,
                        version,
                        &Plan {
                            wheel: (format!("{dist}-{version}-py3-none-any.whl"), bytes),
                            pick: format!("{id}"),
                            metadata_hook: hook,
                            hook_metadata,
                            faults,
                            dynamic: if rng.bool() { Some(vec![]) } else { None },
                            zip: tag == "zip",
                            ..Default::default()
                        },
                    )
                }
            }
            Kind::Pybi => {
                let mut markers = markers_for("3.12.3");
                markers.insert("file_number".into(), id.to_string());
                t.vars = markers.clone();
                t.tags = vec!["py3-none-any".into(), "cp312-cp312-PLATFORM".into()];
                t.deps.clear();
                t.extras.clear();
                t.python = String::new();
                pybi(&PybiSpec {
                    name: &dist,
                    version,
                    plats: tag,
                    markers: &markers,
                    wheel_tags: &["py3-none-any", "cp312-cp312-PLATFORM"],
                    python: None,
                    extra: vec![M::file("junk", junk(rng.usize(0..40_000))).stored()],
                })
            }
        };
        self.truth.insert(file.sha.clone(), t.clone());
        Item { kind, file, truth: t }
    }

    fn pages(&self, extra: &[File]) -> Pages {
        let mut p = Pages::new();
        for r in &self.rels {
            for i in &r.items {
                add(&mut p, 0, &self.name, i.file.clone());
            }
        }
        for f in extra {
            add(&mut p, 0, "cpython_unofficial", f.clone());
        }
        p
    }

    fn describe(&self) -> String {
        self.rels
            .iter()
            .flat_map(|r| r.items.iter())
            .map(|i| format!("  {} {}{}: {}\n", i.file.name, &i.file.sha[..10.min(i.file.sha.len())], if i.file.hashed { "" } else { " NO HASH" }, short(&i.truth)))
            .collect()
    }
}

fn short(t: &Truth) -> String {
    format!("{:?} {} {} {:?} python {:?} extras {:?} vars {:?}{}", t.kind, t.name, t.version, t.deps, t.python, t.extras, t.vars.get("file_number"), if t.builds { "" } else { " (build fails)" })
}

const WHEEL_TAGS: &[&str] = &["py3-none-any", "cp312-cp312-manylinux_2_17_x86_64", "cp39-cp39-win_amd64", "1-py3-none-any", "cp312-cp312-macosx_11_0_arm64"];
const PYBI_TAGS: &[&str] = &[NATIVE, "win_amd64", "macosx_11_0_universal2", "manylinux_2_5_x86_64"];

struct Asked {
    /// keys of the files in the list that was passed, and the answer
    list: Vec<String>,
    answer: (String, Truth),
}

fn key_of(ai: &ArtifactInfo) -> String {
    ai.url.path().trim_matches('/').split('/').nth(1).unwrap_or("").to_string()
}

/// Ask for wheel or interpreter metadata; returns the key of the file named and what was said.
fn ask(db: &PackageDB, kind: Kind, ais: &[&ArtifactInfo], build: bool) -> Out<(String, Kind, Truth)> {
    let target: PackageName = "cpython_unofficial".try_into().unwrap();
    let version: Version = "3.12.3".try_into().unwrap();
    let plat = PybiPlatform::new(NATIVE);
    let plats = [&plat];
    run(|| {
        if kind == Kind::Wheel {
            let builder = WheelBuilder::new(db, &target, &version, &plats, &[])?;
            let (ai, m) = db.get_metadata::<Wheel, _>(ais, if build { Some(&builder) } else { None })?;
            let k = if ai.is::<Wheel>() {
                Kind::Wheel
            } else if ai.is::<Sdist>() {
                Kind::Sdist
            } else {
                Kind::Pybi
            };
            Ok::<_, eyre::Report>((key_of(ai), k, of_wheel(&m, k, true)))
        } else {
            let (ai, m) = db.get_metadata::<Pybi, _>(ais, None)?;
            let k = if ai.is::<Pybi>() { Kind::Pybi } else { Kind::Wheel };
            Ok((key_of(ai), k, of_pybi(&m)))
        }
    })
}

struct Judge<'a> {
    w: &'a World,
    kind: Kind,
    items: Vec<&'a Item>,
    build: bool,
    calm: bool,
}

impl Judge<'_> {
    fn must_work(&self) -> bool {
        let any = |k: Kind| self.items.iter().any(|i| i.kind == k);
        let sdists_fine = any(Kind::Sdist) && self.items.iter().all(|i| i.kind != Kind::Sdist || (i.file.hashed && i.truth.builds));
        self.calm && (any(self.kind) || (self.kind == Kind::Wheel && self.build && sdists_fine))
    }
    fn check(&self, p: &mut Part, got: &Out<(String, Kind, Truth)>, what: &dyn Fn() -> String) {
        match got {
            Out::Ok((key, k, said)) => {
                let Some(item) = self.items.iter().find(|i| i.file.sha == *key) else {
                    p.violate("file-not-asked-about", format!("the answer names {key}\n{}", what()));
                    return;
                };
                if *k != item.kind || !(*k == self.kind || (self.kind == Kind::Wheel && *k == Kind::Sdist)) {
                    p.violate("wrong-kind-of-file", format!("asked for {:?} metadata, got that of {}\n{}", self.kind, item.file.name, what()));
                    return;
                }
                let mut want = item.truth.clone();
                want.builds = true;
                if *said != want {
                    let owner = self.w.truth.iter().find(|(_, t)| t.deps == said.deps && t.vars == said.vars).map(|(s, _)| &s[..10]);
                    p.violate("other-metadata", format!("said of {}:\n   {}\n truth:\n   {}\n (that is the metadata of {owner:?})\n{}", item.file.name, short(said), short(&item.truth), what()));
                    return;
                }
                if !item.truth.builds {
                    p.violate("metadata-of-a-failed-build", what());
                }
                p.count(
                    match (self.kind, *k) {
                        (Kind::Pybi, _) => "interpreter metadata",
                        (_, Kind::Sdist) => "metadata by building",
                        _ => "wheel metadata",
                    },
                    1,
                );
            }
            Out::Err(e) => {
                if self.must_work() {
                    p.violate("no-answer", format!("{}\n{}", truncate(e, 700), what()));
                }
                p.count("errors", 1);
            }
            Out::Panic(e) => p.violate("panic", format!("{e}\n{}", what())),
        }
    }
}

fn work(p: &mut Part, pybi: &File) {
    let index = Index::new();
    let urls = index.urls(1);
    while p.within() {
        let rng = fastrand::Rng::with_seed(p.rng.u64(..));
        let name = pick(&rng, &["Mixed.Pkg", "simple", "under_score", "A--b"]).to_string();
        let mut w = World { name: name.clone(), rels: vec![], truth: HashMap::new(), next: 0 };
        let with_sdists = chance(&rng, 35);
        let mixed = chance(&rng, 35);
        let all_pybis = chance(&rng, 12);
        let mut versions = vec!["1.0", "1.0.post1", "2.0+local.1", "1!0.3rc1", "0"];
        rng.shuffle(&mut versions);
        for v in &versions[..rng.usize(1..4)] {
            let mut items: Vec<Item> = vec![];
            for _ in 0..rng.usize(1..5) {
                let (kind, tag) = if all_pybis || (mixed && chance(&rng, 40)) {
                    (Kind::Pybi, *pick(&rng, PYBI_TAGS))
                } else if with_sdists && chance(&rng, 60) {
                    (Kind::Sdist, *pick(&rng, &["tar", "zip"]))
                } else {
                    (Kind::Wheel, *pick(&rng, WHEEL_TAGS))
                };
                let mut i = w.make(&rng, v, kind, tag);
                if items.iter().any(|j| j.file.name == i.file.name) {
                    continue;
                }
                i.file.hashed = chance(&rng, 88);
                if !i.file.hashed {
                    i.file.sha = format!("nohash{}", w.next);
                }
                items.push(i);
            }
            w.rels.push(Rel { version: v.to_string(), items });
        }
        let mut home = Home::new();
        let mut ranges = rng.bool();
        let mut calm = true;
        let mut history: Vec<String> = vec![];
        let mut asked: HashMap<(String, Kind), Asked> = HashMap::new();
        index.set(w.pages(std::slice::from_ref(pybi)), ranges);
        let n_ops = rng.usize(3..10);
        let mut left = n_ops;
        while left > 0 {
            left -= 1;
            // one process
            let db = home.db(&urls);
            let mut ops = rng.usize(1..4);
            while ops > 0 {
                ops -= 1;
                let rel = pick(&rng, &w.rels).clone();
                let ver: Version = rel.version.as_str().try_into().unwrap();
                let pkg: PackageName = name.as_str().try_into().unwrap();
                let known = match run(|| db.artifacts_for_version(&pkg, &ver)) {
                    Out::Ok(k) => k,
                    o => {
                        p.violate("index", format!("{}\n{}", o.map(|_| ()).describe(), w.describe()));
                        break;
                    }
                };
                // (this process may still know the index as it was)
                let known: Vec<&ArtifactInfo> = known.iter().filter(|ai| rel.items.iter().any(|i| i.file.sha == key_of(ai))).collect();
                if known.is_empty() {
                    continue;
                }
                let mut ais: Vec<&ArtifactInfo> = known.clone();
                if rng.bool() {
                    rng.shuffle(&mut ais);
                    ais.truncate(rng.usize(1..=ais.len()));
                }
                let items: Vec<&Item> = ais.iter().map(|ai| rel.items.iter().find(|i| i.file.sha == key_of(ai)).unwrap()).collect();
                let kind = if items.iter().any(|i| i.kind == Kind::Pybi) && chance(&rng, 60) { Kind::Pybi } else { Kind::Wheel };
                let build = chance(&rng, 80);
                match rng.u8(0..10) {
                    0..=6 => {
                        history.push(format!("ask {kind:?} of {:?}{}{}", ais.iter().map(|a| a.name.to_string()).collect::<Vec<_>>(), if build { "" } else { " without building" }, if calm { "" } else { " (flaky server)" }));
                        let what = || format!("{history:#?}\nranges {ranges}\n{}", w.describe());
                        p.begin(&what());
                        let got = ask(&db, kind, &ais, build);
                        p.end();
                        Judge { w: &w, kind, items: items.clone(), build, calm }.check(p, &got, &what);
                        let list: Vec<String> = items.iter().map(|i| i.file.sha.clone()).collect();
                        let slot = (rel.version.clone(), kind);
                        if let Out::Ok((key, _, said)) = got {
                            if let Some(a) = asked.get(&slot) {
                                if a.list == list {
                                    p.count("repeated questions", 1);
                                    if a.answer.0 != key || a.answer.1 != said {
                                        p.violate("different-answers", format!("first {}\nthen {}\n{}", short(&a.answer.1), short(&said), what()));
                                    }
                                }
                            }
                            if items.iter().all(|i| i.file.hashed) {
                                asked.insert(slot, Asked { list, answer: (key, said) });
                            } else {
                                asked.remove(&slot);
                            }
                        }
                        p.case(&(history.clone(), w.describe()), true);
                        if p.wants_sample(&rng) {
                            p.sample(json!({"history": history, "files": w.describe().lines().collect::<Vec<_>>()}));
                        }
                    }
                    7 | 8 => {
                        // download one whole file; its metadata are its own
                        let (ai, item) = (ais[0], items[0]);
                        history.push(format!("download {}", ai.name));
                        let what = || format!("{history:#?}\n{}", w.describe());
                        p.begin(&what());
                        let got = match item.kind {
                            Kind::Wheel => run(|| db.get_artifact::<Wheel>(ai)?.metadata()).map(|(_, m)| of_wheel(&m, Kind::Wheel, true)),
                            Kind::Pybi => run(|| db.get_artifact::<Pybi>(ai)?.metadata()).map(|(_, m)| of_pybi(&m)),
                            Kind::Sdist => {
                                let _ = run(|| db.get_artifact::<Sdist>(ai).map(|_| ()));
                                p.end();
                                continue;
                            }
                        };
                        p.end();
                        match got {
                            Out::Ok(t) if t == item.truth => p.count("downloads", 1),
                            Out::Ok(t) => p.violate("other-metadata", format!("downloaded {}: {}\n{}", ai.name, short(&t), what())),
                            Out::Err(e) if calm => p.violate("no-answer", format!("{e}\n{}", what())),
                            Out::Err(_) => p.count("errors", 1),
                            Out::Panic(e) => p.violate("panic", format!("{e}\n{}", what())),
                        }
                    }
                    _ => {
                        // several processes ask at once
                        history.push(format!("three processes ask {kind:?} of {:?}", ais.iter().map(|a| a.name.to_string()).collect::<Vec<_>>()));
                        let what = || format!("{history:#?}\n{}", w.describe());
                        p.begin(&what());
                        let order: Vec<String> = items.iter().map(|i| i.file.sha.clone()).collect();
                        let (home, urls, order, pkg, ver) = (&home.dir, &urls, &order, &pkg, &ver);
                        let outs: Vec<_> = std::thread::scope(|s| {
                            let hs: Vec<_> = (0..3)
                                .map(|_| {
                                    s.spawn(move || {
                                        let h = Home::at(home.clone());
                                        let db = h.db(urls);
                                        let known = match run(|| db.artifacts_for_version(pkg, ver)) {
                                            Out::Ok(k) => k,
                                            o => return Out::Err(o.map(|_| ()).describe()),
                                        };
                                        let ais: Vec<&ArtifactInfo> = order.iter().filter_map(|k| known.iter().find(|ai| key_of(ai) == *k)).collect();
                                        ask(&db, kind, &ais, build)
                                    })
                                })
                                .collect();
                            hs.into_iter().map(|h| h.join().unwrap()).collect()
                        });
                        p.end();
                        for got in &outs {
                                Judge { w: &w, kind, items: items.clone(), build, calm }.check(p, got, &what);
                        }
                        p.count("concurrent questions", 3);
                        asked.remove(&(rel.version.clone(), kind));
                    }
                }
            }
            // the world changes
            match rng.u8(0..8) {
                0 => {
                    history.push("other home".into());
                    drop(db);
                    home = Home::new();
                    asked.clear();
                }
                1 | 2 => {
                    // files are replaced by others of the same name; those without a hash keep their URL
                    let World { rels, .. } = &w;
                    let mut rels = rels.clone();
                    for r in &mut rels {
                        for i in &mut r.items {
                            if !chance(&rng, 40) {
                                continue;
                            }
                            let tag = match i.kind {
                                Kind::Sdist => if i.file.name.ends_with(".zip") { "zip".to_string() } else { "tar".into() },
                                _ => i.file.name.rsplit_once('.').unwrap().0.splitn(3, '-').nth(2).unwrap().to_string(),
                            };
                            let mut n = w.make(&rng, &r.version, i.kind, &tag);
                            n.file.name = i.file.name.clone();
                            if !dist_matches(&n.file.name, &name) {
                                continue;
                            }
                            if !i.file.hashed {
                                n.file.hashed = false;
                                n.file.sha = i.file.sha.clone();
                            }
                            *i = n;
                        }
                    }
                    w.rels = rels;
                    history.push("files replaced".into());
                }
                3 => {
                    history.push("hashes vanish".into());
                    for r in &mut w.rels {
                        for i in &mut r.items {
                            if chance(&rng, 30) && i.file.hashed {
                                w.next += 1;
                                i.file.hashed = false;
                                i.file.sha = format!("nohash{}", w.next);
                            }
                        }
                    }
                    asked.clear();
                }
                _ => {}
            }
            ranges = rng.bool();
            index.set(w.pages(std::slice::from_ref(pybi)), ranges);
            calm = !chance(&rng, 25);
            if !calm {
                history.push("server turns flaky".into());
                let mut st = index.state.lock().unwrap();
                for r in &w.rels {
                    for i in &r.items {
                        if !chance(&rng, 60) {
                            continue;
                        }
                        let mut rep = match rng.u8(0..5) {
                            0 => srv::Reply::new(404, "no"),
                            1 => srv::Reply::new(403, "no"),
                            2 => srv::Reply::new(200, &*i.file.bytes),
                            3 => srv::Reply::new(200, ""),
                            _ => {
                                let n = i.file.bytes.len();
                                let a = n.saturating_sub(rng.usize(1..20_000));
                                srv::Reply::new(206, &i.file.bytes[a..]).h("Content-Range", &format!("bytes {a}-{}/{n}", n - 1))
                            }
                        };
                        if rng.bool() && rep.body.len() > 1 {
                            rep.cut = Some(rng.usize(..rep.body.len()));
                        }
                        if i.file.hashed || rep.status >= 400 || rep.body.len() > 1 {
                            st.special.insert(format!("/files/{}/{}", i.file.sha, i.file.name), rep);
                        }
                    }
                }
            }
        }
        // what is remembered of every file is its own, even when nothing can be asked any more
        {
            let mut st = index.state.lock().unwrap();
            st.special.clear();
            for r in &w.rels {
                for i in &r.items {
                    st.special.insert(format!("/files/{}/{}", i.file.sha, i.file.name), srv::Reply::new(404, "gone"));
                }
            }
        }
        let db = home.db(&urls);
        history.push("files vanish from the server; each is asked about".into());
        for r in &w.rels {
            let ver: Version = r.version.as_str().try_into().unwrap();
            let Out::Ok(known) = run(|| db.artifacts_for_version(&name.as_str().try_into().unwrap(), &ver)) else { continue };
            for ai in known {
                let Some(item) = r.items.iter().find(|i| i.file.sha == key_of(ai)) else { continue };
                let what = || format!("{history:#?}\n{}", w.describe());
                for kind in [Kind::Wheel, Kind::Pybi] {
                    p.begin(&what());
                    let got = ask(&db, kind, &[ai], false);
                    p.end();
                    if got.is_ok() {
                        p.count("answers from memory", 1);
                        if !item.file.hashed {
                            // (nothing identifies it; but these servers never allowed to store it either)
                            p.violate("unhashed-remembered", format!("{}\n{}", item.file.name, what()));
                        }
                    }
                    Judge { w: &w, kind, items: vec![item], build: false, calm: false }.check(p, &got, &what);
                }
            }
        }
    }
}

fn dist_matches(file: &str, name: &str) -> bool {
    normalize(file.split('-').next().unwrap_or("")) == normalize(name)
}

pub fn run_(mut c: Ctx) -> ! {
    c.rule = "a question for metadata about a set of files of one release, after a history of other questions, downloads, changes of the index and of the server's abilities, in one or more processes sharing a cache; distinct by history and files".into();
    c.assumptions = vec![
        "Servers do not serve other contents than the index page's hash promises (partial reads cannot be verified, by design); files without a hash may change at any time.".into(),
    ];
    let pybi = real_pybi("cpython_unofficial", "3.12.3", NATIVE, "the only one");
    parallel(&mut c, 8, 35, 600, |p| work(p, &pybi));
    for k in ["wheel metadata", "interpreter metadata", "metadata by building", "answers from memory", "repeated questions"] {
        if !c.violated() && c.counters.get(k).copied().unwrap_or(0) == 0 {
            c.problem(format!("never observed: {k}"));
        }
    }
    c.finish()
}
