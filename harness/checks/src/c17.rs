//! C17: platform tags, and which of several artifacts gets chosen.
use crate::arch::*;
use crate::common::*;
use crate::world::*;
use posy::verif::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// The tags a platform supports, best first (the rules, written down independently).
pub fn model_tags(core: &str) -> Vec<String> {
    let mut core = core.to_string();
    for (old, new) in [("manylinux2014_", "manylinux_2_17_"), ("manylinux2010_", "manylinux_2_12_"), ("manylinux1_", "manylinux_2_5_")] {
        if let Some(arch) = core.strip_prefix(old) {
            core = format!("{new}{arch}");
            break;
        }
    }
    for lib in ["manylinux", "musllinux"] {
        if let Some((maj, min, arch)) = split(&core, lib) {
            let mut out = vec![];
            for m in (0..=min).rev() {
                out.push(format!("{lib}_{maj}_{m}_{arch}"));
                if lib == "manylinux" && maj == 2 {
                    let old = match m {
                        17 => "manylinux2014",
                        12 => "manylinux2010",
                        5 => "manylinux1",
                        _ => continue,
                    };
                    out.push(format!("{old}_{arch}"));
                }
            }
            return out;
        }
    }
    if let Some((maj, min, arch)) = split(&core, "macosx") {
        if maj >= 10 {
            let kinds: Vec<String> = match arch.as_str() {
                "x86_64" => ["x86_64", "universal2", "intel", "fat64", "fat3", "universal"].iter().map(|s| s.to_string()).collect(),
                "arm64" => vec!["arm64".into(), "universal2".into()],
                a => vec![a.into()],
            };
            let mut vs: Vec<(u32, u32)> = (11..=maj).rev().map(|m| (m, 0)).collect();
            vs.extend((0..=if maj == 10 { min } else { 15 }).rev().map(|m| (10, m)));
            return vs.iter().flat_map(|(a, b)| kinds.iter().map(move |k| format!("macosx_{a}_{b}_{k}"))).collect();
        }
    }
    vec![core]
}

fn split(tag: &str, lib: &str) -> Option<(u32, u32, String)> {
    let rest = tag.strip_prefix(lib)?.strip_prefix('_')?;
    let (a, rest) = rest.split_once('_')?;
    let (b, arch) = rest.split_once('_')?;
    Some((a.parse().ok()?, b.parse().ok()?, arch.to_string()))
}

/// Is `tag` supported by `core`, and how good is it (smaller is better; ties are equal)?
fn rank(core: &str, tag: &str) -> Option<(i64, u32)> {
    let alias = |t: &str| {
        for (old, new) in [("manylinux2014_", "manylinux_2_17_"), ("manylinux2010_", "manylinux_2_12_"), ("manylinux1_", "manylinux_2_5_")] {
            if let Some(a) = t.strip_prefix(old) {
                return format!("{new}{a}");
            }
        }
        t.to_string()
    };
    let (c, t) = (alias(core), alias(tag));
    for lib in ["manylinux", "musllinux"] {
        if let (Some((a, b, arch)), Some((x, y, arch2))) = (split(&c, lib), split(&t, lib)) {
            return (a == x && y <= b && arch == arch2).then(|| (b as i64 - y as i64, 0));
        }
    }
    if let (Some((a, b, arch)), Some((x, y, arch2))) = (split(&c, "macosx"), split(&t, "macosx")) {
        let kind = match (arch.as_str(), arch2.as_str()) {
            (p, q) if p == q => 0,
            ("x86_64", "universal2" | "intel" | "fat64" | "fat3" | "universal") => 1,
            ("arm64", "universal2") => 1,
            _ => return None,
        };
        return ((x, y) <= (a, b)).then(|| (-(x as i64 * 1000 + y as i64), kind));
    }
    (c == t).then_some((0, 0))
}

const ARCH: [&str; 6] = ["x86_64", "aarch64", "i686", "armv7l", "ppc64le", "s390x"];

fn gen_core(rng: &fastrand::Rng) -> String {
    match rng.u8(0..9) {
        0 => format!("{}_{}", pick(rng, &["manylinux1", "manylinux2010", "manylinux2014"]), pick(rng, &ARCH)),
        1..=3 => format!("manylinux_{}_{}_{}", pick(rng, &[2, 2, 2, 3, 1]), rng.u32(0..45), pick(rng, &ARCH)),
        4 if rng.bool() => format!("musllinux_2_{}_{}", rng.u32(0..25), pick(rng, &ARCH)),
        4 => format!("musllinux_1_{}_{}", rng.u32(0..9), pick(rng, &ARCH)),
        5 | 6 => {
            let maj = *pick(rng, &[10, 10, 11, 12, 13, 14, 15]);
            let min = if maj == 10 { rng.u32(0..16) } else if chance(rng, 10) { rng.u32(0..7) } else { 0 };
            format!("macosx_{maj}_{min}_{}", pick(rng, &["x86_64", "arm64", "x86_64", "arm64", "universal2"]))
        }
        7 => pick(rng, &["win32", "win_amd64", "win_arm64"]).to_string(),
        _ => pick(rng, &["linux_x86_64", "linux_armv6l", "any", "freebsd_13_amd64", "cygwin_3_x86_64", "macosx_9_3_x86_64"]).to_string(),
    }
}

/// Tags worth asking about, near `core`.
fn probes(rng: &fastrand::Rng, core: &str) -> Vec<String> {
    let mut p = vec![core.to_string()];
    for lib in ["manylinux", "musllinux"] {
        for a in [ARCH[0], ARCH[1], ARCH[2], *pick(rng, &ARCH)] {
            for m in [0, 1, 4, 5, 6, 11, 12, 13, 16, 17, 18, 24, 28, 31, 44, rng.u32(0..60)] {
                p.push(format!("{lib}_2_{m}_{a}"));
                p.push(format!("{lib}_1_{m}_{a}"));
            }
            p.push(format!("{lib}_3_0_{a}"));
            for o in ["1", "2010", "2014"] {
                p.push(format!("{lib}{o}_{a}"));
            }
        }
    }
    for (a, b) in [(10, 0), (10, 4), (10, 9), (10, 12), (10, 14), (10, 15), (11, 0), (12, 0), (13, 0), (14, 0), (15, 0), (16, 0)] {
        for k in ["x86_64", "arm64", "universal2", "intel", "fat64", "fat3", "universal", "fat", "i386", "ppc"] {
            p.push(format!("macosx_{a}_{b}_{k}"));
        }
    }
    for t in ["win32", "win_amd64", "win_arm64", "linux_x86_64", "any", "", "manylinux_2_17", "MANYLINUX_2_17_x86_64", "manylinux2014", "xmanylinux_2_17_x86_64", "musllinux2014_x86_64"] {
        p.push(t.into());
    }
    if let Some((a, b, arch)) = split(core, "manylinux").or(split(core, "musllinux")) {
        let lib = &core[..9];
        for m in [b.saturating_sub(1), b, b + 1] {
            p.push(format!("{lib}_{a}_{m}_{arch}"));
        }
        p.push(format!("{}_{a}_{b}_{arch}", if lib == "manylinux" { "musllinux" } else { "manylinux" }));
        p.push(format!("{lib}_{}_{b}_{arch}", a + 1));
    }
    p
}

fn ambiguous(core: &str, tag: &str) -> bool {
    if let Some((a, b, arch)) = split(core, "macosx") {
        // old-style i386 platforms and minor numbers after macOS 11
        if a < 10 {
            return split(tag, "macosx").is_some() && core != tag;
        }
        if !matches!(arch.as_str(), "x86_64" | "arm64" | "universal2") {
            return true;
        }
        if let Some((x, y, _)) = split(tag, "macosx") {
            return (x >= 11 && y != 0) || (x == 10 && y > 15) || (a >= 11 && b != 0 && x >= a);
        }
    }
    false
}

fn tables(c: &mut Ctx, rng: &fastrand::Rng) {
    for _ in 0..c.n(1500, 20000) {
        let core = gen_core(rng);
        let p = match run(|| Ok::<_, String>(PybiPlatform::new(&core))) {
            Out::Ok(p) => p,
            o => {
                c.violate("platform-panic", format!("{core}: {}", o.describe()));
                continue;
            }
        };
        let tags: Vec<String> = p.tags().cloned().collect();
        c.case(&core, true);
        // soundness, and order
        let mut last: Option<((i64, u32), String)> = None;
        for t in &tags {
            if ambiguous(&core, t) {
                continue;
            }
            match rank(&core, t) {
                None => c.violate("unsupported-tag", format!("platform {core} claims to support {t}")),
                Some(r) => {
                    if let Some((l, lt)) = &last {
                        if *l > r {
                            c.violate("tag-order", format!("platform {core} prefers {lt} to {t}"));
                        }
                    }
                    last = Some((r, t.clone()));
                }
            }
        }
        if tags.iter().collect::<HashSet<_>>().len() != tags.len() {
            c.violate("duplicate-tag", format!("{core}: {tags:?}"));
        }
        for t in probes(rng, &core) {
            if ambiguous(&core, &t) {
                continue;
            }
            c.count("tag questions", 1);
            let got = p.compatibility(&t);
            if got.is_some() != rank(&core, &t).is_some() {
                c.violate("compatibility", format!("platform {core}, tag {t:?}: posy says {got:?}"));
            }
        }
        // all the pairs of compressed sets: the best one counts
        let ps = probes(rng, &core);
        for _ in 0..20 {
            let set: Vec<&String> = (0..rng.usize(1..5)).map(|_| pick(rng, &ps)).collect();
            if set.iter().any(|t| ambiguous(&core, t)) {
                continue;
            }
            let best = set.iter().filter_map(|t| p.compatibility(t)).max();
            if p.max_compatibility(set.iter()) != best || best.is_some() != set.iter().any(|t| rank(&core, t).is_some()) {
                c.violate("best-of-set", format!("platform {core}, tags {set:?}: {:?} vs {best:?}", p.max_compatibility(set.iter())));
            }
        }
        wheel_tags(c, rng, &core, &p, &tags);
        if c.samples.len() < 4 {
            c.sample(json!({"platform": core, "supported tags": tags.len(), "first": tags.iter().take(4).collect::<Vec<_>>()}));
        }
    }
}

fn pybi_meta(tags: &[String]) -> String {
    format!(
        "Metadata-Version: 2.1\nName: cpython\nVersion: 3.11\nPybi-Environment-Marker-Variables: {{}}\nPybi-Paths: {{}}\n{}\n",
        tags.iter().map(|t| format!("Pybi-Wheel-Tag: {t}\n")).collect::<String>()
    )
}

fn templates(rng: &fastrand::Rng) -> Vec<String> {
    let mut v: Vec<String> = [
        "cp311-cp311-PLATFORM", "cp311-abi3-PLATFORM", "cp311-none-PLATFORM", "cp310-abi3-PLATFORM", "py311-none-PLATFORM",
        "py3-none-PLATFORM", "py3-none-any", "py311-none-any", "cp311-none-any", "py3-none-linux_special", "cp311-cp311-PLATFORM",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    if rng.bool() {
        rng.shuffle(&mut v);
    }
    v.truncate(rng.usize(1..=v.len()));
    v
}

fn wheel_tags(c: &mut Ctx, rng: &fastrand::Rng, core: &str, p: &PybiPlatform, tags: &[String]) {
    let ts = templates(rng);
    let meta = pybi_meta(&ts);
    let m: Out<PybiCoreMetadata> = run(|| PybiCoreMetadata::try_from(meta.as_bytes()));
    let w = match m {
        Out::Ok(m) => run(|| p.wheel_platform(&m)),
        o => {
            c.violate("pybi-metadata", o.describe());
            return;
        }
    };
    let Out::Ok(w) = w else {
        c.violate("wheel-platform", w.describe());
        return;
    };
    // the interpreter's order first, and within it the platform's
    let mut want: Vec<String> = vec![];
    for t in &ts {
        if let Some(pre) = t.strip_suffix("-PLATFORM") {
            want.extend(tags.iter().map(|g| format!("{pre}-{g}")));
        } else {
            want.push(t.clone());
        }
    }
    let mut seen = HashSet::new();
    want.retain(|t| seen.insert(t.clone()));
    let got: Vec<String> = w.tags().cloned().collect();
    c.count("wheel platforms", 1);
    if got != want {
        c.violate("wheel-tags", format!("platform {core}, interpreter tags {ts:?}: wheel tags {got:?}, expected {want:?}"));
    }
}

fn native(c: &mut Ctx) {
    extern "C" {
        fn gnu_get_libc_version() -> *const libc::c_char;
    }
    let v = unsafe { std::ffi::CStr::from_ptr(gnu_get_libc_version()) }.to_string_lossy().to_string();
    let mut it = v.split('.');
    let (a, b) = (it.next().unwrap().to_string(), it.next().unwrap().to_string());
    let want = format!("manylinux_{a}_{b}_{}", std::env::consts::ARCH);
    match run(PybiPlatform::native_platforms) {
        Out::Ok(ps) => {
            let cores: Vec<&str> = ps.iter().map(|p| p.core_tag()).collect();
            c.sample(json!({"native platforms": cores}));
            if !cores.contains(&want.as_str()) {
                c.violate("native", format!("this machine runs glibc {v}: expected {want} among {cores:?}"));
            }
            for (tag, is) in [
                (want.clone(), true),
                (format!("manylinux_{a}_{}_{}", b.parse::<u32>().unwrap() + 1, std::env::consts::ARCH), false),
                (format!("manylinux2014_{}", std::env::consts::ARCH), true),
                ("win_amd64".into(), false),
                ("macosx_11_0_arm64".into(), false),
                ("manylinux_2_17_s390x".into(), false),
            ] {
                let p = PybiPlatform::new(&tag);
                match run(|| p.is_native()) {
                    Out::Ok(x) if x == is => {}
                    o => c.violate("native", format!("is_native({tag}) = {:?}, expected {is}", match o { Out::Ok(x) => x.to_string(), o => o.describe() })),
                }
                c.case(("native", &tag), true);
            }
        }
        o => c.violate("native", o.describe()),
    }
}

/// An interpreter for universal2 counts as one for either architecture (by design: that is
/// how posy gives it a definite platform_machine).
pub fn pybi_tags(tags: &[String]) -> Vec<String> {
    tags.iter()
        .flat_map(|t| match t.strip_suffix("_universal2") {
            Some(p) if t.starts_with("macosx_") => vec![format!("{p}_arm64"), format!("{p}_x86_64")],
            _ => vec![t.clone()],
        })
        .collect()
}

const PLATS: [&str; 8] = [
    "manylinux_2_17_x86_64", "manylinux_2_31_x86_64", "musllinux_1_2_x86_64", "macosx_11_0_arm64", "macosx_12_0_x86_64",
    "win_amd64", "win32", "manylinux_2_17_aarch64",
];

fn near_tag(rng: &fastrand::Rng, plats: &[String]) -> String {
    if chance(rng, 75) {
        let t = model_tags(pick::<String>(rng, plats).as_str());
        // biased towards both ends and the aliases
        match rng.u8(0..4) {
            0 => t[rng.usize(..t.len().min(3))].clone(),
            1 => t.iter().filter(|x| !x.contains("linux_") || x.ends_with("_5_x86_64")).next().unwrap_or(&t[0]).clone(),
            _ => pick(rng, &t).clone(),
        }
    } else {
        pick(rng, &["manylinux_2_40_x86_64", "macosx_13_0_arm64", "win_arm64", "manylinux_2_5_i686", "macosx_10_9_fat", "musllinux_1_3_x86_64", "linux_x86_64"]).to_string()
    }
}

fn meta_of(ai: &str) -> WheelResolveMetadata {
    WheelResolveMetadata {
        provenance: ai.into(),
        inner: WheelResolveMetadataInner {
            requires_dist: vec![],
            requires_python: Specifiers(vec![]),
            extras: Default::default(),
        },
    }
}

pub fn pin(name: &str, version: &str, files: &[&File]) -> PinnedPackage {
    PinnedPackage {
        name: name.try_into().unwrap(),
        version: version.try_into().unwrap(),
        hashes: files.iter().map(|f| ArtifactHash::from_hex("sha256", &f.sha).unwrap()).collect(),
    }
}

struct Made {
    pages: Pages,
    platforms: Vec<String>,
    pybis: Vec<(File, Vec<String>, bool)>, // file, tags, pinned
    wheel_templates: Vec<String>,
    wheels: Vec<(File, Vec<String>, bool)>,
}

fn gen(rng: &fastrand::Rng) -> Made {
    let mut platforms: Vec<String> = PLATS.iter().map(|s| s.to_string()).collect();
    rng.shuffle(&mut platforms);
    platforms.truncate(*pick(rng, &[1usize, 1, 2, 3]));
    let mut wheel_templates = templates(rng);
    if !wheel_templates.iter().any(|t| t.ends_with("PLATFORM")) {
        wheel_templates.insert(0, "cp311-cp311-PLATFORM".into());
    }
    let mut pybis: Vec<(File, Vec<String>, bool)> = vec![];
    for k in 0..rng.usize(1..6) {
        let n = *pick(rng, &[1usize, 1, 1, 2, 3]);
        let tags: Vec<String> = (0..n).map(|_| near_tag(rng, &platforms)).collect::<BTreeSet<_>>().into_iter().collect();
        let mut tags = tags;
        rng.shuffle(&mut tags);
        if pybis.iter().any(|(_, t, _)| t == &pybi_tags(&tags)) {
            continue;
        }
        let markers = BTreeMap::from([
            ("python_full_version".to_string(), "3.11.2".to_string()),
            ("python_version".to_string(), "3.11".to_string()),
            ("platform_version".to_string(), format!("file-{k}")),
        ]);
        let wt: Vec<&str> = wheel_templates.iter().map(|s| s.as_str()).collect();
        let f = pybi(&PybiSpec {
            name: "cpython",
            version: "3.11.2",
            plats: &tags.join("."),
            markers: &markers,
            wheel_tags: &wt,
            python: Some(b"#!/bin/sh\n".to_vec()),
            extra: vec![M::file("which", k.to_string())],
        });
        pybis.push((f, pybi_tags(&tags), chance(rng, 80)));
    }
    let mut wheels: Vec<(File, Vec<String>, bool)> = vec![];
    for k in 0..rng.usize(1..7) {
        let pick_some = |xs: &[&str]| -> Vec<String> {
            let n = *pick(rng, &[1usize, 1, 1, 2]);
            (0..n).map(|_| pick(rng, xs).to_string()).collect::<BTreeSet<_>>().into_iter().collect()
        };
        let py = pick_some(&["cp311", "py3", "py311", "cp310", "py2", "cp312"]);
        let abi = pick_some(&["none", "abi3", "cp311", "none", "cp311"]);
        let plat: Vec<String> = if rng.bool() && chance(rng, 60) {
            vec!["any".into()]
        } else {
            (0..*pick(rng, &[1usize, 1, 2])).map(|_| near_tag(rng, &platforms)).collect::<BTreeSet<_>>().into_iter().collect()
        };
        let name = format!("Pkg_a-1.0-{}-{}-{}.whl", py.join("."), abi.join("."), plat.join("."));
        if wheels.iter().any(|(f, _, _)| f.name == name) {
            continue;
        }
        let f = File::new(&name, wheel_bytes("Pkg_a", "1.0", "", &[M::file("which_wheel.py", k.to_string())]));
        let mut all = vec![];
        for p in &py {
            for a in &abi {
                for t in &plat {
                    all.push(format!("{p}-{a}-{t}"));
                }
            }
        }
        let mut f = f;
        if chance(rng, 5) {
            f.hashed = false;
        }
        wheels.push((f, all, chance(rng, 80)));
    }
    let mut pages = Pages::new();
    let mut a: Vec<File> = pybis.iter().map(|p| p.0.clone()).collect();
    let mut b: Vec<File> = wheels.iter().map(|p| p.0.clone()).collect();
    rng.shuffle(&mut a);
    rng.shuffle(&mut b);
    for f in a {
        add(&mut pages, 0, "cpython", f);
    }
    for f in b {
        add(&mut pages, 0, "Pkg_a", f);
    }
    Made { pages, platforms, pybis, wheel_templates, wheels }
}

fn best(files: &[(File, Vec<String>, bool)], tags: &[String]) -> Vec<usize> {
    let score = |i: &usize| tags.iter().position(|t| files[*i].1.contains(t));
    let cand: Vec<usize> = (0..files.len()).filter(|i| files[*i].2 && files[*i].0.hashed && score(i).is_some()).collect();
    let top = cand.iter().map(|i| score(i).unwrap()).min();
    cand.into_iter().filter(|i| score(i) == top).collect()
}

fn install(p: &mut Part) {
    let index = Index::new();
    let mut n = 0u64;
    while p.within() {
        n += 1;
        let rng = fastrand::Rng::with_seed(p.rng.u64(..));
        let m = gen(&rng);
        index.set(m.pages.clone(), rng.bool());
        let home = Home::new();
        let urls = index.urls(1);
        let db = home.db(&urls);
        let plats: Vec<PybiPlatform> = m.platforms.iter().map(|t| PybiPlatform::new(t)).collect();
        let refs: Vec<&PybiPlatform> = plats.iter().collect();
        let bp = Blueprint {
            pybi: pin("cpython", "3.11.2", &m.pybis.iter().filter(|x| x.2).map(|x| &x.0).collect::<Vec<_>>()),
            wheels: vec![(pin("pkg-a", "1.0", &m.wheels.iter().filter(|x| x.2).map(|x| &x.0).collect::<Vec<_>>()), meta_of("x"))],
            marker_expressions: HashMap::new(),
        };
        let what = format!(
            "platforms {:?}\ninterpreters {:?}\ninterpreter's wheel tags {:?}\nwheels {:?}",
            m.platforms,
            m.pybis.iter().map(|(f, _, pin)| format!("{}{}", f.name, if *pin { "" } else { " (not pinned)" })).collect::<Vec<_>>(),
            m.wheel_templates,
            m.wheels.iter().map(|(f, _, pin)| format!("{}{}{}", f.name, if *pin { "" } else { " (not pinned)" }, if f.hashed { "" } else { " (no hash)" })).collect::<Vec<_>>()
        );
        p.begin(&what);
        let got = run(|| home.forest.get_env(&db, &bp, &refs, &[]));
        p.end();
        // expected
        let chosen = m.platforms.iter().find_map(|pl| {
            let b = best(&m.pybis, &model_tags(pl));
            (!b.is_empty()).then(|| (pl.clone(), b))
        });
        p.case(&what, m.pybis.len() + m.wheels.len() > 2);
        let expected = chosen.as_ref().map(|(pl, b)| {
            let mut wt = vec![];
            for t in &m.wheel_templates {
                match t.strip_suffix("-PLATFORM") {
                    Some(pre) => wt.extend(model_tags(pl).iter().map(|g| format!("{pre}-{g}"))),
                    None => wt.push(t.clone()),
                }
            }
            (pl.clone(), b.clone(), best(&m.wheels, &wt))
        });
        match (got, &expected) {
            (Out::Ok(env), Some((pl, pb, wb))) if !wb.is_empty() => {
                p.count("environments", 1);
                let root = env.python.parent().unwrap().parent().unwrap().to_path_buf();
                let k: usize = std::fs::read_to_string(root.join("which")).unwrap_or_default().parse().unwrap_or(99);
                let index_of = |k: usize| m.pybis.iter().position(|(f, _, _)| has(f, k));
                fn has(f: &File, k: usize) -> bool {
                    // the archive that holds this number
                    let z = zip::ZipArchive::new(std::io::Cursor::new(&**f.bytes)).ok();
                    z.and_then(|mut z| {
                        let mut s = String::new();
                        std::io::Read::read_to_string(&mut z.by_name("which").ok()?, &mut s).ok()?;
                        Some(s == k.to_string())
                    })
                    .unwrap_or(false)
                }
                match index_of(k) {
                    Some(i) if pb.contains(&i) => {}
                    i => p.violate("interpreter-choice", format!("{what}\ninstalled {:?}, expected one of {:?}", i.map(|i| &m.pybis[i].0.name), pb.iter().map(|i| &m.pybis[*i].0.name).collect::<Vec<_>>())),
                }
                let want_core = &model_tags(pl)[0];
                if env.platform_core_tag != *want_core {
                    p.violate("platform-choice", format!("{what}\nenvironment for platform {}, expected {want_core}", env.platform_core_tag));
                }
                let w: usize = std::fs::read_to_string(env.lib_dirs[0].join("which_wheel.py")).unwrap_or_default().parse().unwrap_or(99);
                let wi = m.wheels.iter().position(|(f, _, _)| {
                    let z = zip::ZipArchive::new(std::io::Cursor::new(&**f.bytes)).ok();
                    z.and_then(|mut z| {
                        let mut s = String::new();
                        std::io::Read::read_to_string(&mut z.by_name("which_wheel.py").ok()?, &mut s).ok()?;
                        Some(s == w.to_string())
                    })
                    .unwrap_or(false)
                });
                match wi {
                    Some(i) if wb.contains(&i) => {}
                    i => p.violate("wheel-choice", format!("{what}\nplatform {pl}: installed {:?}, expected one of {:?}", i.map(|i| &m.wheels[i].0.name), wb.iter().map(|i| &m.wheels[*i].0.name).collect::<Vec<_>>())),
                }
            }
            (Out::Err(_), None) => p.count("no interpreter", 1),
            (Out::Err(_), Some((_, _, wb))) if wb.is_empty() => p.count("no wheel", 1),
            (o, e) => p.violate(
                if matches!(o, Out::Ok(_)) { "incompatible-installed" } else { "nothing-installed" },
                format!("{what}\nexpected {:?}, got {}", e.as_ref().map(|(pl, pb, wb)| (pl.clone(), pb.clone(), wb.clone())), o.describe()),
            ),
        }
        if n % 60 == 1 {
            p.sample(json!({"platforms": m.platforms, "interpreters": m.pybis.iter().map(|x| x.0.name.clone()).collect::<Vec<_>>(), "wheels": m.wheels.iter().map(|x| x.0.name.clone()).collect::<Vec<_>>(),
                "expected": expected.as_ref().map(|(a, b, w)| json!([a, b, w]))}));
        }
        // and the interpreter that resolution looks at, seen through its markers
        let reqs: Vec<UserRequirement> = (0..6)
            .map(|k| format!("pkg-a; platform_version == 'file-{k}'").as_str().try_into().unwrap())
            .collect();
        let brief = Brief { python: "cpython".try_into().unwrap(), requirements: reqs, allow_pre: Default::default() };
        p.begin(&what);
        let got = run(|| brief.resolve(&db, &refs, None, &[]));
        p.end();
        let all: Vec<(File, Vec<String>, bool)> = m.pybis.iter().map(|(f, t, _)| {
            let mut f = f.clone();
            f.hashed = true;
            (f, t.clone(), true)
        }).collect();
        let chosen = m.platforms.iter().find_map(|pl| {
            let b = best(&all, &model_tags(pl));
            (!b.is_empty()).then_some(b)
        });
        match (got, chosen) {
            (Out::Ok(bp), Some(b)) => {
                p.count("resolutions", 1);
                let on: Vec<String> = bp.marker_expressions.iter().filter(|(_, v)| **v).map(|(k, _)| k.to_string()).collect();
                let ok = b.iter().any(|i| {
                    let k = (0..6).find(|k| {
                        let z = zip::ZipArchive::new(std::io::Cursor::new(&**m.pybis[*i].0.bytes)).unwrap();
                        let mut z = z;
                        let mut s = String::new();
                        std::io::Read::read_to_string(&mut z.by_name("which").unwrap(), &mut s).unwrap();
                        s == k.to_string()
                    });
                    k.map_or(false, |k| on.len() == 1 && on[0].contains(&format!("file-{k}\"")))
                });
                if !ok {
                    p.violate("resolve-choice", format!("{what}\nresolution used the interpreter with {on:?}, expected one of {:?}", b.iter().map(|i| &m.pybis[*i].0.name).collect::<Vec<_>>()));
                }
            }
            (Out::Err(_), None) => {}
            (o, e) => p.violate("resolve-interpreter", format!("{what}\nexpected {e:?}, got {}", o.describe())),
        }
    }
}

pub fn run_(mut c: Ctx) -> ! {
    c.rule = "a platform (all its tags, probed), or an installation/resolution with several candidate artifacts; distinct by platform or by candidate set".into();
    c.assumptions = vec![
        "Two artifacts whose best tags are the same are equally good (build numbers are not judged).".into(),
        "macOS minor versions after 11, 10.16, and i386/ppc platforms are not judged.".into(),
    ];
    let rng = c.rng.clone();
    native(&mut c);
    tables(&mut c, &rng);
    parallel(&mut c, 8, 20, 300, install);
    c.finish()
}
