//! C16: the newest usable versions, or the ones already pinned.
use crate::c14::{drive, knobs};
use crate::common::*;
use crate::pep440;
use crate::pep508::normalize;
use crate::res::*;
use crate::world::*;
use posy::verif::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

/// Judge one answer. `hints` are the pins it was given.
fn judge(p: &mut Part, u: &Universe, bp: &Blueprint, hints: &Hints, what: &str) {
    let Some(ch) = choose_pybi(u, hints) else {
        p.violate("interpreter", format!("no interpreter is allowed, got {}\n{what}", bp.pybi));
        return;
    };
    let want = &u.pybis[ch.0].version;
    let got = pep440::parse(&bp.pybi.version.to_string()).unwrap();
    if !pep440::cmp(want, &got).is_eq() {
        p.violate("interpreter", format!("interpreter {}, expected {}\n{what}", bp.pybi, want.canonical()));
        return;
    }
    let env = marker_env(u, &ch);
    let full = pep440::parse(&env["python_full_version"]).unwrap();
    let m = Model { u, env, full, hints: hints.clone() };
    let Ok(s) = solution(u, bp) else { return }; // C14's business
    for (key, i) in &s {
        let pkg = m.pkg(key).unwrap();
        let el = m.eligible(key);
        if !el.contains(i) {
            p.violate("not-allowed", format!("{key} {} must not be chosen (pre-release, yanked, or requires another python)\n{}\n{what}", pkg.rels[*i].version.canonical(), describe_bp(bp)));
            continue;
        }
        let ver = |i: usize| &pkg.rels[i].version;
        let hinted = hints.get(key).and_then(|(v, _)| el.iter().find(|j| pep440::cmp(ver(**j), v).is_eq()));
        let better: Vec<usize> = match (hints.contains_key(key), hinted) {
            (_, Some(h)) if h == i => vec![],
            (_, Some(h)) => vec![*h],
            (true, None) => vec![], // what comes after a lost pin is not specified
            (false, None) => el.iter().copied().filter(|j| pep440::cmp(ver(*j), ver(*i)).is_gt()).collect(),
        };
        for j in better {
            let mut t = s.clone();
            t.insert(key.clone(), j);
            p.count("alternatives considered", 1);
            if let Ok((_, open)) = m.closure(&t) {
                if open.is_empty() {
                    p.violate(
                        if hinted.is_some() { "pin-not-kept" } else { "newer-available" },
                        format!("{key} {} chosen although {} would do\n{}\nhints {hints:?}\n{what}", ver(*i).canonical(), ver(j).canonical(), describe_bp(bp)),
                    );
                }
            }
        }
    }
}

fn pins(bp: &Blueprint) -> BTreeMap<String, String> {
    std::iter::once(&bp.pybi)
        .chain(bp.wheels.iter().map(|w| &w.0))
        .map(|p| (p.name.normalized().to_string(), vhash(&pep440::parse(&p.version.to_string()).unwrap())))
        .collect()
}

/// Are all the old pins still usable, as they were?
fn still_usable(u: &Universe, bp: &Blueprint, hints: &Hints) -> bool {
    let Some(ch) = choose_pybi(u, hints) else { return false };
    let got = pep440::parse(&bp.pybi.version.to_string()).unwrap();
    if !pep440::cmp(&u.pybis[ch.0].version, &got).is_eq() {
        return false;
    }
    let env = marker_env(u, &ch);
    let full = pep440::parse(&env["python_full_version"]).unwrap();
    let m = Model { u, env, full, hints: hints.clone() };
    let Ok(s) = solution(u, bp) else { return false };
    s.iter().all(|(k, i)| m.eligible(k).contains(i)) && matches!(m.closure(&s), Ok((r, o)) if o.is_empty() && r.len() == s.len())
}

/// Newer things appear, old things are yanked, some disappear.
fn change(rng: &fastrand::Rng, u: &mut Universe, bp: &Blueprint, gentle: bool) -> String {
    let mut log = vec![];
    for pk in u.pkgs.iter_mut() {
        let pinned = bp.wheels.iter().find(|w| w.0.name.normalized() == normalize(&pk.name));
        if chance(rng, 60) && !pk.rels.is_empty() {
            let mut r = pick(rng, &pk.rels).clone();
            if !r.no_wheel {
                let have: Vec<String> = pk.rels.iter().map(|r| vhash(&r.version)).collect();
                let v = pep440::parse(*pick(rng, &["9.0", "8.1.post2", "1.0.1", "7!0.1", "2.0.1", "9.9rc1", "0.0.1"])).unwrap();
                if !have.contains(&vhash(&v)) {
                    r.version = v;
                    r.files.clear();
                    r.meta_rp = None;
                    if rng.bool() {
                        r.deps.clear();
                    }
                    build_wheels(rng, &pk.name, &mut r, u.indexes, rng.u64(..));
                    log.push(format!("new {} {}", pk.name, r.version.canonical()));
                    pk.rels.push(r);
                }
            }
        }
        for r in pk.rels.iter_mut() {
            let is_pin = pinned.map_or(false, |w| vhash(&pep440::parse(&w.0.version.to_string()).unwrap()) == vhash(&r.version));
            // other files under the same names, or the hashes gone from the page
            if is_pin && chance(rng, 20) && !r.no_wheel {
                let (old, all) = (std::mem::take(&mut r.files), rng.bool());
                build_wheels(rng, &pk.name, r, u.indexes, rng.u64(..));
                for (_, f) in r.files.iter_mut() {
                    match old.iter().find(|(_, g)| g.name == f.name) {
                        Some((_, g)) if !all && rng.bool() => *f = g.clone(),
                        Some((_, g)) => f.requires_python = g.requires_python.clone(),
                        None => {}
                    }
                }
                log.push(format!("replaced {} {}", pk.name, r.version.canonical()));
            }
            if is_pin && chance(rng, 8) {
                for (_, f) in r.files.iter_mut() {
                    f.hashed &= rng.bool();
                }
                log.push(format!("hashes lost: {} {}", pk.name, r.version.canonical()));
            }
            if (is_pin && chance(rng, 30)) || chance(rng, 5) {
                for (_, f) in r.files.iter_mut() {
                    f.yanked = Some("gone".into());
                }
                log.push(format!("yank {} {}", pk.name, r.version.canonical()));
            }
            // a pinned release may gain a file
            if is_pin && chance(rng, 15) && r.wheels == 1 && !r.no_wheel {
                let mut r2 = r.clone();
                r2.files.clear();
                r2.wheels = 3;
                build_wheels(rng, &pk.name, &mut r2, u.indexes, rng.u64(..));
                let new: Vec<_> = r2.files.into_iter().filter(|(_, f)| !r.files.iter().any(|(_, g)| g.name == f.name)).collect();
                log.push(format!("new file for {} {}", pk.name, r.version.canonical()));
                r.files.extend(new);
            }
        }
        if !gentle {
            if chance(rng, 25) {
                if let Some(w) = pinned {
                    let h = vhash(&pep440::parse(&w.0.version.to_string()).unwrap());
                    pk.rels.retain(|r| vhash(&r.version) != h);
                    log.push(format!("removed {} {}", pk.name, w.0.version));
                }
            }
        }
    }
    if !gentle {
        if chance(rng, 30) {
            if let Some(t) = u.pkgs.iter().filter(|p| !p.rels.is_empty()).nth(rng.usize(..u.pkgs.len())) {
                let vs: Vec<_> = t.rels.iter().map(|r| r.version.clone()).collect();
                let clauses = gen_clauses(rng, &vs, 100);
                let d = Dep { name: t.name.clone(), extras: vec![], clauses, marker: None };
                log.push(format!("new requirement {}", d.text()));
                u.roots.push(d);
            }
        } else if u.roots.len() > 1 && chance(rng, 30) {
            u.roots.pop();
            log.push("a requirement less".into());
        }
    }
    // interpreters
    if chance(rng, 40) && !u.pybis.is_empty() {
        let mut b = pick(rng, &u.pybis).clone();
        let v = pick(rng, &["3.10.11", "3.12.1", "3.13.0a2", "3.8.1"]).to_string();
        if !u.pybis.iter().any(|x| x.version.canonical() == v) {
            let mut files = vec![];
            for (i, _, tags, env) in b.files.iter() {
                let mut e = env.clone();
                e.extend(full_env(&v, &tags[0]));
                let marks: BTreeMap<String, String> = e.clone().into_iter().collect();
                let f = pybi(&PybiSpec { name: &u.pybi_name, version: &v, plats: &tags.join("."), markers: &marks, wheel_tags: &["py3-none-any"], python: None, extra: vec![] });
                files.push((*i, f, tags.clone(), e));
            }
            b.files = files;
            b.version = pep440::parse(&v).unwrap();
            log.push(format!("new interpreter {v}"));
            u.pybis.push(b);
        }
    }
    log.join(", ")
}

pub fn run_(mut c: Ctx) -> ! {
    c.rule = "a resolution (without pins, with its own pins, or with pins after the index changed) judged against the set of allowed versions; distinct by content".into();
    c.assumptions = vec![
        "'Newest' is judged one package at a time: no pinned package could be replaced by a newer allowed release with everything else left as it is.".into(),
        "Which version replaces a pin that is no longer usable is not specified.".into(),
    ];
    let mix = knobs();
    parallel(&mut c, 8, 35, 600, |p| {
        drive(p, &mix, |p, k| {
            let urls = k.index.urls(k.u.indexes);
            let none = Hints::new();
            let bp = {
                let db = k.home.db(&urls);
                p.begin(&k.what);
                let got = resolve(k.u, &db, None);
                p.end();
                p.case(&k.what, matches!(&got, Out::Ok(b) if !b.wheels.is_empty()));
                let Out::Ok(bp) = got else {
                    p.count("no answer", 1);
                    return;
                };
                judge(p, k.u, &bp, &none, &k.what);
                p.count("fresh resolutions", 1);
                bp
            };
            // again, nothing changed: through the lock file, with a cold or a warm database
            let bp: Blueprint = serde_json::from_str(&serde_json::to_string(&bp).unwrap()).unwrap();
            let hints = hints_of(&bp);
            if still_usable(k.u, &bp, &hints) {
                let db = k.home.db(&urls);
                p.begin(&k.what);
                let again = resolve(k.u, &db, Some(&bp));
                p.end();
                p.count("resolved again", 1);
                match again {
                    Out::Ok(b2) if pins(&b2) == pins(&bp) => {}
                    Out::Ok(b2) => p.violate("not-stable", format!("{}\nthen with these pins: {}\n{}", describe_bp(&bp), describe_bp(&b2), k.what)),
                    o => p.violate("not-stable", format!("{}\nthen with these pins: {}\n{}", describe_bp(&bp), o.describe(), k.what)),
                }
            }
            // the index moves on
            let mut u2 = k.u.clone();
            let gentle = k.rng.bool();
            let log = change(k.rng, &mut u2, &bp, gentle);
            k.index.set(pages(&u2), k.rng.bool());
            let what = format!("first: {}\nchange: {log}\n{}", describe_bp(&bp), describe(&u2));
            let fresh_home = Home::new();
            let home = if k.rng.bool() { k.home } else { &fresh_home };
            let db = home.db(&urls);
            p.begin(&what);
            let got = resolve(&u2, &db, Some(&bp));
            p.end();
            let keep = still_usable(&u2, &bp, &hints);
            p.case(&what, !log.is_empty());
            match &got {
                Out::Ok(b2) => {
                    judge(p, &u2, b2, &hints, &what);
                    p.count(if keep { "pins kept after a change" } else { "pins adapted after a change" }, 1);
                    if keep && pins(b2) != pins(&bp) {
                        p.violate("pins-moved", format!("became {}\n{what}", describe_bp(b2)));
                    }
                }
                o if keep => p.violate("pins-lost", format!("{}\n{what}", o.describe())),
                _ => p.count("no answer after a change", 1),
            }
            if p.wants_sample(k.rng) {
                p.sample(json!({"first": describe_bp(&bp), "change": log, "then": got.map(|b| describe_bp(&b)).ok()}));
            }
        })
    });
    let _: BTreeSet<u8> = BTreeSet::new();
    c.finish()
}
