//! C15: resolution finds a solution exactly when there is one.
use crate::c14::{drive, knobs};
use crate::common::*;
use crate::pep440;
use crate::res::*;
use serde_json::json;

pub fn run_(mut c: Ctx) -> ! {
    c.rule = "a generated index and brief, resolved by posy and by exhaustive search; distinct by content, non-trivial when the search had to consider a package".into();
    c.assumptions = vec![
        "The interpreter is chosen first, on its own; solvable means solvable for that interpreter.".into(),
        "A release that lacks a requested extra, or whose own metadata excludes the interpreter, is an unusable version.".into(),
        "Universes whose exhaustive search takes more than 60,000 steps are skipped (counted).".into(),
    ];
    let mut mix = knobs();
    mix.push((3, Knobs { pkgs: 4, deps: 4, tight: 90, oddities: true, pybi_variety: false }));
    mix.push((2, Knobs { pkgs: 8, deps: 4, tight: 80, oddities: true, pybi_variety: false }));
    parallel(&mut c, 8, 35, 600, |p| {
        drive(p, &mix, |p, k| {
            let hints = Hints::new();
            let pb = choose_pybi(k.u, &hints);
            let want = match &pb {
                None => Ok(None),
                Some(ch) => {
                    let env = marker_env(k.u, ch);
                    let full = pep440::parse(&env["python_full_version"]).unwrap();
                    Model { u: k.u, env, full, hints }.solve()
                }
            };
            let Ok(want) = want else {
                p.count("search too big", 1);
                return;
            };
            let urls = k.index.urls(k.u.indexes);
            let db = k.home.db(&urls);
            p.begin(&k.what);
            let got = resolve(k.u, &db, None);
            p.end();
            p.case(&k.what, pb.is_some() && !k.u.roots.is_empty());
            match (&got, &want) {
                (Out::Ok(bp), Some(_)) => {
                    p.count("solved", 1);
                    p.count("packages in solutions", bp.wheels.len() as u64);
                }
                (Out::Err(_), None) => p.count("rightly refused", 1),
                (Out::Ok(bp), None) => {
                    p.violate("solved-the-unsolvable", format!("there is no solution, got {}\n{}", describe_bp(bp), k.what));
                }
                (Out::Err(e), Some(s)) => {
                    let sig = if e.contains("pypi didn't tell us") {
                        "bad-requires-python"
                    } else if e.contains("has no extra") {
                        "no-extra"
                    } else if e.contains("self-contradictory") {
                        "contradiction"
                    } else if e.contains("depends on itself") {
                        "self-dependency"
                    } else if e.contains("couldn't find any") {
                        "no-metadata"
                    } else {
                        "not-found"
                    };
                    let s: Vec<String> = s
                        .iter()
                        .map(|(n, i)| format!("{n} {}", k.u.pkgs.iter().find(|x| crate::pep508::normalize(&x.name) == *n).unwrap().rels[*i].version.canonical()))
                        .collect();
                    p.violate(sig, format!("a solution exists: {s:?}; posy says {}\n{}", truncate(e, 600), k.what));
                }
                (Out::Panic(_), _) => p.violate("panic", format!("{}\n{}", got.describe(), k.what)),
            }
            if p.wants_sample(k.rng) {
                p.sample(json!({"universe": k.what.lines().take(12).collect::<Vec<_>>(), "solvable": want.is_some(), "posy": got.kind()}));
            }
        })
    });
    c.finish()
}
