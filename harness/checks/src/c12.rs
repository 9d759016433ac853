//! C12: everything that is printed or serialised reads back to an equal value.
use crate::common::*;
use crate::{gens, pep508};
use posy::verif::*;
use serde_json::json;
use std::collections::HashMap;
use std::fmt::{Debug, Display};

/// print -> parse, serde -> serde; both must give an equal value.
fn roundtrip<T>(c: &mut Ctx, kind: &str, text: &str, v: &T, parse: &dyn Fn(&str) -> Out<T>)
where
    T: Display + Debug + PartialEq,
{
    let printed = match run(|| Ok::<_, String>(v.to_string())) {
        Out::Ok(s) => s,
        o => {
            c.violate(&format!("{kind}-print"), format!("{text:?}: {}", o.describe()));
            return;
        }
    };
    match parse(&printed) {
        Out::Ok(w) if w == *v => {
            let again = w.to_string();
            if again != printed {
                c.violate(&format!("{kind}-unstable"), format!("{text:?} prints {printed:?}, reread prints {again:?}"));
            }
        }
        Out::Ok(w) => c.violate(&format!("{kind}-differs"), format!("{text:?} prints as {printed:?}\n{v:?}\n{w:?}")),
        o => c.violate(&format!("{kind}-unreadable"), format!("{text:?} prints as {printed:?}: {}", o.describe())),
    }
}

fn serde_rt<T>(c: &mut Ctx, kind: &str, v: &T, same: &dyn Fn(&T, &T) -> Result<(), String>) -> Option<String>
where
    T: serde::Serialize + for<'d> serde::Deserialize<'d>,
{
    let text = match run(|| serde_json::to_string_pretty(v)) {
        Out::Ok(t) => t,
        o => {
            c.violate(&format!("{kind}-serialize"), o.describe());
            return None;
        }
    };
    // every way serde_json can hand the data over: borrowed, owned, escaped
    let ways: Vec<(&str, Out<T>)> = vec![
        ("from_str", run(|| serde_json::from_str::<T>(&text))),
        ("from_reader", run(|| serde_json::from_reader::<_, T>(text.as_bytes()))),
        ("from_value", run(|| serde_json::from_value::<T>(serde_json::to_value(v).unwrap()))),
        ("compact", run(|| serde_json::from_slice::<T>(&serde_json::to_vec(v).unwrap()))),
    ];
    for (way, o) in ways {
        match o {
            Out::Ok(w) => {
                if let Err(d) = same(v, &w) {
                    c.violate(&format!("{kind}-json-differs"), format!("{way}: {d}\n{text}"));
                }
            }
            o => c.violate(&format!("{kind}-json-unreadable"), format!("{way}: {}\n{text}", o.describe())),
        }
    }
    Some(text)
}

fn eq<T: PartialEq + Debug>(what: &str, a: &T, b: &T) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(format!("{what}: {a:?} became {b:?}"))
    }
}

fn hash(rng: &fastrand::Rng) -> ArtifactHash {
    let d: String = (0..32).map(|_| format!("{:02x}", rng.u8(..))).collect();
    ArtifactHash::from_hex("sha256", &d).unwrap()
}

fn pin(rng: &fastrand::Rng) -> PinnedPackage {
    let g = crate::pep440::Gen { rng };
    PinnedPackage {
        name: gens::name(rng).as_str().try_into().unwrap(),
        version: g.version(true).canonical().as_str().try_into().unwrap(),
        hashes: (0..rng.usize(0..4)).map(|_| hash(rng)).collect(),
    }
}

fn tryreq<T: for<'a> TryFrom<&'a str, Error = E>, E: Debug>(s: &str) -> Out<T> {
    run(|| T::try_from(s))
}

fn check_req(c: &mut Ctx, r: &gens::Req, got: &Requirement) {
    let printed = got.to_string();
    let mut bad = vec![];
    if got.name.as_given() != r.name {
        bad.push("name");
    }
    if got.extras.iter().map(|e| e.as_given().to_string()).collect::<Vec<_>>() != r.extras {
        bad.push("extras");
    }
    let cl: Vec<_> = got.specifiers.0.iter().map(|s| (s.op.to_string(), s.value.clone())).collect();
    if cl != r.clauses {
        bad.push("specifiers");
    }
    match (&r.marker, &got.env_marker_expr) {
        (None, None) => {}
        (Some(m), Some(g)) => {
            // the printed marker must mean, to an independent parser, what was written
            if let (Some(Some(a)), Some(Some(b))) =
                (pep508::parse(m, true), pep508::parse(&g.to_string(), true))
            {
                if a != b {
                    bad.push("marker");
                }
            } else if matches!(pep508::parse(m, true), Some(Some(_))) {
                bad.push("marker-malformed");
            }
        }
        _ => bad.push("marker-presence"),
    }
    if !bad.is_empty() {
        c.violate(&format!("requirement-{}", bad[0]), format!("{:?} prints as {printed:?}: {bad:?}", r.text));
    }
}

pub fn run_(mut c: Ctx) -> ! {
    c.rule = "generated requirements, markers, specifier sets, names, extras, versions, hashes, file \
        names, briefs and blueprints: printed and parsed again, serialised to JSON and read back four \
        ways; markers also re-read by an independent parser. Non-trivial: distinct texts that posy accepted."
        .into();
    let rng = fastrand::Rng::with_seed(c.rng.u64(..));
    let n = c.n(12_000, 300_000);
    for i in 0..n {
        if !c.within(30, 500) {
            break;
        }
        // requirements of the three kinds
        let r = gens::requirement(&rng, true, 3);
        let with_extra = r.marker.as_deref().map_or(false, |m| m.contains("extra"));
        match tryreq::<PackageRequirement, _>(&r.text) {
            Out::Ok(v) => {
                c.case(&r.text, true);
                check_req(&mut c, &r, &v);
                roundtrip(&mut c, "package-requirement", &r.text, &v, &|s| tryreq(s));
                serde_rt(&mut c, "package-requirement", &v, &|a, b| eq("req", a, b));
            }
            o => c.violate("requirement-rejected", format!("{:?}: {}", r.text, o.describe())),
        }
        if !with_extra {
            match tryreq::<UserRequirement, _>(&r.text) {
                Out::Ok(v) => {
                    check_req(&mut c, &r, &v);
                    roundtrip(&mut c, "user-requirement", &r.text, &v, &|s| tryreq(s));
                    serde_rt(&mut c, "user-requirement", &v, &|a, b| eq("req", a, b));
                }
                o => c.violate("requirement-rejected", format!("{:?}: {}", r.text, o.describe())),
            }
            if r.marker.is_none() && r.extras.is_empty() {
                match tryreq::<PythonRequirement, _>(&r.text) {
                    Out::Ok(v) => {
                        roundtrip(&mut c, "python-requirement", &r.text, &v, &|s| tryreq(s));
                        serde_rt(&mut c, "python-requirement", &v, &|a, b| eq("req", a, b));
                    }
                    o => c.violate("requirement-rejected", format!("{:?}: {}", r.text, o.describe())),
                }
            }
            if let Some(m) = &r.marker {
                let m = m.trim();
                if let Out::Ok(v) = tryreq::<StandaloneMarkerExpr, _>(m) {
                    roundtrip(&mut c, "marker", m, &v, &|s| tryreq(s));
                    serde_rt(&mut c, "marker", &v, &|a, b| eq("marker", a, b));
                    // same truth value after the round trip
                    let env = pep508::gen_env(&rng, chance(&rng, 20));
                    if let Out::Ok(w) = tryreq::<StandaloneMarkerExpr, _>(&v.to_string()) {
                        let (a, b) = (run(|| v.0.eval(&env)), run(|| w.0.eval(&env)));
                        if a.kind() != b.kind() || a.ok() != b.ok() {
                            c.violate("marker-value", format!("{m:?} and its printed form {v} evaluate differently"));
                        }
                    }
                }
            }
        }
        let specs = Specifiers(r.clauses.iter().map(|(o, v)| Specifier { op: o.as_str().try_into().unwrap(), value: v.clone() }).collect());
        roundtrip(&mut c, "specifiers", &r.text, &specs, &|s| tryreq(s));
        serde_rt(&mut c, "specifiers", &specs, &|a, b| eq("specifiers", a, b));

        // names
        let nm = gens::name(&rng);
        match (tryreq::<PackageName, _>(&nm), tryreq::<Extra, _>(&nm)) {
            (Out::Ok(v), Out::Ok(e)) => {
                if v.as_given() != nm || e.as_given() != nm {
                    c.violate("name-spelling", format!("{nm:?} is displayed as {:?}/{:?}", v.as_given(), e.as_given()));
                }
                serde_rt(&mut c, "name", &v, &|a, b| eq("name", &(a, a.as_given()), &(b, b.as_given())));
                serde_rt(&mut c, "extra", &e, &|a, b| eq("extra", &(a, a.as_given()), &(b, b.as_given())));
            }
            (a, b) => c.violate("name-rejected", format!("{nm:?}: {} {}", a.describe(), b.describe())),
        }
        // versions and hashes
        let g = crate::pep440::Gen { rng: &rng };
        let vt = { let v = g.version(true); if rng.bool() { v.canonical() } else { v.respell(&rng) } };
        if let Out::Ok(v) = tryreq::<Version, _>(&vt) {
            roundtrip(&mut c, "version", &vt, &v, &|s| tryreq(s));
            serde_rt(&mut c, "version", &v, &|a, b| eq("version", a, b));
        }
        let h = hash(&rng);
        let ht = h.to_string();
        roundtrip(&mut c, "hash", &ht, &h, &|s| tryreq(s));
        serde_rt(&mut c, "hash", &h, &|a, b| eq("hash", a, b));
        if h.raw_data.len() != 32 || !ht.starts_with("sha256=") {
            c.violate("hash-content", ht.clone());
        }
        let up = format!("sha256={}", ht[7..].to_ascii_uppercase());
        if let Out::Ok(u) = tryreq::<ArtifactHash, _>(&up) {
            if u != h {
                c.violate("hash-case", up);
            }
        }

        // file names
        for f in [gens::wheel_name(&rng), gens::sdist_name(&rng), gens::pybi_name(&rng)] {
            match tryreq::<ArtifactName, _>(&f) {
                Out::Ok(v) => {
                    c.case(&f, true);
                    roundtrip(&mut c, "artifact-name", &f, &v, &|s| tryreq(s));
                    let kind = match &v {
                        ArtifactName::Sdist(_) => "sdist",
                        ArtifactName::Wheel(w) => {
                            roundtrip(&mut c, "wheel-name", &f, w, &|s| tryreq(s));
                            "whl"
                        }
                        ArtifactName::Pybi(p) => {
                            roundtrip(&mut c, "pybi-name", &f, p, &|s| tryreq(s));
                            "pybi"
                        }
                    };
                    let want = f.rsplit('.').next().unwrap();
                    if (kind == "sdist") != (want == "gz" || want == "zip") || (kind != "sdist" && kind != want) {
                        c.violate("artifact-kind", format!("{f} read as {kind}"));
                    }
                    if v.distribution().as_given() != f[..v.distribution().as_given().len().min(f.len())].to_string() {
                        c.violate("artifact-dist", format!("{f}: {:?}", v.distribution().as_given()));
                    }
                }
                Out::Err(_) => c.count("file names refused", 1),
                Out::Panic(p) => c.violate("artifact-name-panic", format!("{f:?}: {p}")),
            }
        }

        if i % 4 == 0 {
            let brief = Brief {
                python: PythonRequirement::try_from(
                    Requirement::parse("cpython_unofficial >= 3, == 3.*", ParseExtra::NotAllowed).unwrap(),
                )
                .unwrap(),
                requirements: (0..rng.usize(0..4))
                    .filter_map(|_| tryreq::<UserRequirement, _>(&gens::requirement(&rng, false, 2).text).ok())
                    .collect(),
                allow_pre: match rng.u8(0..3) {
                    0 => AllowPre::All,
                    1 => AllowPre::default(),
                    _ => AllowPre::Some((0..rng.usize(0..3)).map(|_| gens::name(&rng).as_str().try_into().unwrap()).collect()),
                },
            };
            c.case(format!("{brief:?}"), true);
            let t = serde_rt(&mut c, "brief", &brief, &|a, b| {
                eq("python", &a.python, &b.python)?;
                eq("requirements", &a.requirements, &b.requirements)?;
                match (&a.allow_pre, &b.allow_pre) {
                    (AllowPre::All, AllowPre::All) => Ok(()),
                    (AllowPre::Some(x), AllowPre::Some(y)) => eq("allow_pre", x, y),
                    (x, y) => Err(format!("allow_pre: {x:?} became {y:?}")),
                }
            });
            let mut exprs = HashMap::new();
            for _ in 0..rng.usize(0..4) {
                if let Out::Ok(m) = tryreq::<StandaloneMarkerExpr, _>(pep508::gen_marker(&rng, false, 2).trim()) {
                    exprs.insert(m, rng.bool());
                }
            }
            let bp = Blueprint {
                pybi: pin(&rng),
                wheels: (0..rng.usize(0..4))
                    .map(|k| {
                        (
                            pin(&rng),
                            WheelResolveMetadata {
                                provenance: format!("http://h/{k}/\"é\\x.whl"),
                                inner: WheelResolveMetadataInner {
                                    requires_dist: (0..rng.usize(0..4))
                                        .filter_map(|_| tryreq::<PackageRequirement, _>(&gens::requirement(&rng, true, 2).text).ok())
                                        .collect(),
                                    requires_python: Specifiers(
                                        gens::clauses(&rng, 2)
                                            .into_iter()
                                            .map(|(o, v)| Specifier { op: o.as_str().try_into().unwrap(), value: v })
                                            .collect(),
                                    ),
                                    extras: (0..rng.usize(0..3)).map(|_| gens::name(&rng).as_str().try_into().unwrap()).collect(),
                                },
                            },
                        )
                    })
                    .collect(),
                marker_expressions: exprs,
            };
            c.case(format!("{:?}", bp.wheels), true);
            let t2 = serde_rt(&mut c, "blueprint", &bp, &|a, b| {
                eq("pybi", &a.pybi, &b.pybi)?;
                eq("pybi spelling", &a.pybi.name.as_given(), &b.pybi.name.as_given())?;
                eq("count", &a.wheels.len(), &b.wheels.len())?;
                for ((p, m), (q, w)) in a.wheels.iter().zip(&b.wheels) {
                    eq("pin", p, q)?;
                    eq("provenance", &m.provenance, &w.provenance)?;
                    eq("metadata", &m.inner, &w.inner)?;
                }
                eq("marker expressions", &a.marker_expressions, &b.marker_expressions)
            });
            if i % 1200 == 0 {
                c.sample(json!({"brief": t, "blueprint": t2.map(|s| truncate(&s, 600)), "requirement": r.text}));
            }
        }
    }
    c.finish()
}
