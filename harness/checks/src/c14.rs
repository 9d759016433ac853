//! C14: whatever resolution returns is a consistent solution. Also the common driver of the
//! three resolver monitors.
use crate::common::*;
use crate::pep440;
use crate::pep508::{self, normalize};
use crate::res::*;
use crate::world::*;
use posy::verif::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

pub struct Case<'a> {
    pub u: &'a Universe,
    pub what: String,
    pub home: &'a Home,
    pub index: &'a Index,
    pub rng: &'a fastrand::Rng,
}

/// Feed random universes, served over HTTP, to `f`.
pub fn drive(p: &mut Part, mix: &[(u32, Knobs)], f: impl Fn(&mut Part, &Case)) {
    let index = Index::new();
    while p.within() {
        let rng = fastrand::Rng::with_seed(p.rng.u64(..));
        let total: u32 = mix.iter().map(|m| m.0).sum();
        let mut r = rng.u32(..total);
        let k = mix.iter().find(|m| if r < m.0 { true } else { r -= m.0; false }).map(|m| &m.1).unwrap();
        let u = universe(&rng, k);
        let home = Home::new();
        index.set(pages(&u), chance(&rng, 50));
        let what = describe(&u);
        f(p, &Case { u: &u, what, home: &home, index: &index, rng: &rng });
    }
}

pub fn knobs() -> Vec<(u32, Knobs)> {
    vec![
        (4, Knobs { pkgs: 5, deps: 2, tight: 60, oddities: true, pybi_variety: true }),
        (3, Knobs { pkgs: 7, deps: 3, tight: 70, oddities: false, pybi_variety: false }),
        (3, Knobs { pkgs: 6, deps: 3, tight: 45, oddities: true, pybi_variety: false }),
        (2, Knobs { pkgs: 3, deps: 3, tight: 80, oddities: true, pybi_variety: false }),
        (1, Knobs { pkgs: 8, deps: 3, tight: 40, oddities: false, pybi_variety: true }),
    ]
}

fn hashes(fs: &[&File]) -> BTreeSet<String> {
    fs.iter().filter(|f| f.hashed).map(|f| f.sha.clone()).collect()
}

fn pin_hashes(p: &PinnedPackage) -> BTreeSet<String> {
    p.hashes.iter().map(|h| h.to_string().rsplit('=').next().unwrap().to_string()).collect()
}

/// All the ways in which `bp` is not what C14 says.
pub fn faults(u: &Universe, bp: &Blueprint, hints: &Hints, urls: &[String]) -> Vec<(String, String)> {
    let mut bad: Vec<(String, String)> = vec![];
    let mut say = |s: &str, d: String| bad.push((s.to_string(), d));
    // ---- the interpreter
    let pv = pep440::parse(&bp.pybi.version.to_string());
    let pb = u.pybis.iter().position(|b| pv.as_ref().map_or(false, |v| pep440::cmp(&b.version, v).is_eq()));
    if bp.pybi.name.normalized() != normalize(&u.pybi_name) || pb.is_none() {
        say("interpreter", format!("{} is not on the index", bp.pybi));
        return bad;
    }
    let pb = pb.unwrap();
    if !satisfied(&u.python, &u.pybis[pb].version) {
        say("interpreter-constraint", format!("{} does not satisfy the python requirement", bp.pybi));
    }
    if pin_hashes(&bp.pybi) != hashes(&u.pybis[pb].files.iter().map(|f| &f.1).collect::<Vec<_>>()) {
        say("interpreter-hashes", format!("{:?}", bp.pybi));
    }
    // which of its files was looked at (C17) decides the marker values
    let mut only = u.clone();
    only.pybis = vec![u.pybis[pb].clone()];
    only.allow = Allow::All;
    only.python.clear();
    for (_, f, _, _) in only.pybis[0].files.iter_mut() {
        f.yanked = None;
    }
    let Some(ch) = choose_pybi(&only, &Default::default()) else {
        say("interpreter-platform", format!("{}: no file for any of {:?}", bp.pybi, u.platforms));
        return bad;
    };
    let env = marker_env(&only, &ch);
    let full = pep440::parse(&env["python_full_version"]).unwrap();
    let m = Model { u, env: env.clone(), full, hints: hints.clone() };
    // ---- the packages
    let s = match solution(u, bp) {
        Ok(s) => s,
        Err(e) => {
            say("pins", e);
            return bad;
        }
    };
    match m.closure(&s) {
        Err(e) => say("unsatisfied", e),
        Ok((reach, open)) => {
            if !open.is_empty() {
                say("missing", format!("needed but not pinned: {open:?}"));
            }
            let extra: Vec<&String> = s.keys().filter(|k| !reach.contains_key(*k)).collect();
            if !extra.is_empty() {
                say("unrelated", format!("pinned but not needed: {extra:?}"));
            }
        }
    }
    for (pin, meta) in &bp.wheels {
        let key = pin.name.normalized();
        let Some(i) = s.get(key) else { continue };
        let pkg = m.pkg(key).unwrap();
        let rel = &pkg.rels[*i];
        if rel.no_wheel || !rel.meta_rp.as_ref().map_or(true, |r| satisfied(&parse_clauses(r), &m.full)) {
            say("requires-python", format!("{pin} does not run on {}", env["python_full_version"]));
        } else if !m.eligible(key).contains(i) {
            // every file yanked or excluded by requires-python, or an unwanted pre-release
            let rp_only = rel.files.iter().all(|(_, f)| {
                f.requires_python.as_ref().map_or(false, |r| !satisfied(&parse_clauses(r), &m.full))
            });
            if rp_only {
                say("requires-python", format!("{pin}: the index says that it does not run on {}", env["python_full_version"]));
            }
        }
        let files: Vec<&File> = rel.files.iter().map(|f| &f.1).collect();
        if pin_hashes(pin) != hashes(&files) {
            say("hashes", format!("{pin}: pinned {:?}, the release has {:?}", pin_hashes(pin), hashes(&files)));
        }
        // the metadata it goes by
        if !urls.is_empty() && !files.iter().any(|f| meta.provenance.contains(&f.sha) && urls.iter().any(|u| meta.provenance.starts_with(u))) {
            say("provenance", format!("{pin}: metadata from {}", meta.provenance));
        }
        let want: Vec<String> =
            rel.deps.iter().map(|d| PackageRequirement::try_from(d.text().as_str()).unwrap().to_string()).collect();
        let got: Vec<String> = meta.inner.requires_dist.iter().map(|r| r.to_string()).collect();
        if want != got {
            say("metadata", format!("{pin}: dependencies {got:?}, the wheel says {want:?}"));
        }
        let got: BTreeSet<String> = meta.inner.extras.iter().map(|e| e.normalized().to_string()).collect();
        let want: BTreeSet<String> = rel.provides.iter().map(|e| normalize(e)).collect();
        if want != got {
            say("metadata", format!("{pin}: extras {got:?}, the wheel says {want:?}"));
        }
    }
    // ---- the markers
    for (expr, value) in &bp.marker_expressions {
        let t = expr.to_string();
        match pep508::parse(&t, false) {
            Some(Some(mk)) => match pep508::eval(&mk, &env) {
                pep508::R::Unknown => {}
                r => {
                    if (r == pep508::R::T) != *value {
                        say("marker", format!("{t} is recorded as {value}, but is {r:?} for this interpreter"));
                    }
                }
            },
            _ => say("marker", format!("recorded marker {t:?} is not one")),
        }
    }
    bad
}

pub fn run_(mut c: Ctx) -> ! {
    c.rule = "a generated index, brief and platform list resolved by posy; distinct by content, non-trivial when at least two packages were pinned".into();
    c.assumptions = vec![
        "Specifiers and markers whose meaning PEP 440/508 leave open are not generated.".into(),
        "Packages are resolved from wheels; sdists are C20's.".into(),
    ];
    let mix = knobs();
    parallel(&mut c, 8, 30, 600, |p| {
        drive(p, &mix, |p, k| {
            let urls = k.index.urls(k.u.indexes);
            let db = k.home.db(&urls);
            let bases = vec![k.index.server.url("/files/")];
            let mut hints = Hints::new();
            let mut like: Option<Blueprint> = None;
            for round in 0..2 {
                p.begin(&k.what);
                let got = resolve(k.u, &db, like.as_ref());
                p.end();
                p.count(&format!("resolutions: {}", got.kind()), 1);
                let Out::Ok(bp) = got else {
                    if got.is_panic() {
                        p.violate("panic", format!("{}\n{}", got.describe(), k.what));
                    }
                    p.case(&k.what, false);
                    return;
                };
                p.case((&k.what, round), bp.wheels.len() > 1);
                p.count("pins", bp.wheels.len() as u64);
                p.count("markers", bp.marker_expressions.len() as u64);
                for (sig, d) in faults(k.u, &bp, &hints, &bases) {
                    p.violate(&sig, format!("{d}\nblueprint: {}\n{}{}", describe_bp(&bp), if round > 0 { "(resolved again with hints)\n" } else { "" }, k.what));
                }
                if bp.wheels.len() > 1 && p.wants_sample(k.rng) {
                    p.sample(json!({"universe": k.what.lines().take(12).collect::<Vec<_>>(), "blueprint": describe_bp(&bp)}));
                }
                // the same answer must survive being written to a lock file
                let text = serde_json::to_string(&bp).unwrap();
                let back: Blueprint = match serde_json::from_str(&text) {
                    Ok(b) => b,
                    Err(e) => {
                        p.violate("lock-file", format!("{e}: {text}"));
                        return;
                    }
                };
                // a doctored hint: other versions than the ones chosen
                if !chance(k.rng, 40) {
                    return;
                }
                let mut back = back;
                for (pin, _) in back.wheels.iter_mut() {
                    if chance(k.rng, 50) {
                        if let Some(pk) = k.u.pkgs.iter().find(|x| normalize(&x.name) == pin.name.normalized()) {
                            if !pk.rels.is_empty() {
                                let r = pick(k.rng, &pk.rels);
                                pin.version = r.version.canonical().as_str().try_into().unwrap();
                                let fs: Vec<&File> = r.files.iter().map(|f| &f.1).filter(|f| f.hashed).collect();
                                pin.hashes = crate::c17::pin("x", "1", &fs).hashes;
                            }
                        }
                    }
                }
                hints = hints_of(&back);
                like = Some(back);
            }
        })
    });
    let _: BTreeMap<u8, u8> = BTreeMap::new();
    c.finish()
}
