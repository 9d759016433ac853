//! C13: PEP 503 name equivalence, everywhere a name is used.
use crate::common::*;
use crate::{gens, pep508};
use posy::verif::*;
use serde_json::json;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashMap, HashSet};

fn name(s: &str) -> Out<PackageName> {
    run(|| PackageName::try_from(s))
}

pub fn run_(mut c: Ctx) -> ! {
    c.rule = "pairs of names (re-spellings and near misses) compared through every type and operation \
        that carries a name; invalid names must be refused. Non-trivial: distinct pair of spellings."
        .into();
    let rng = fastrand::Rng::with_seed(c.rng.u64(..));
    let n = c.n(60_000, 1_500_000);
    for i in 0..n {
        if !c.within(25, 400) {
            break;
        }
        let a = gens::name(&rng);
        let b = match rng.u8(0..4) {
            0 | 1 => gens::respell(&rng, &a),
            2 => {
                // near miss: one character changed, removed or doubled
                let mut v: Vec<char> = a.chars().collect();
                let k = rng.usize(..v.len());
                match rng.u8(0..4) {
                    0 => v[k] = *pick(&rng, &['-', '_', 'a', 'B', '1']),
                    1 if v.len() > 1 => {
                        v.remove(k);
                    }
                    2 => v.insert(k, v[k]),
                    _ => v.insert(k, *pick(&rng, &['-', '.', 'a'])),
                }
                v.into_iter().collect()
            }
            _ => gens::name(&rng),
        };
        let mut bad: Vec<String> = vec![];
        let mut ok = vec![];
        for s in [&a, &b] {
            let valid = pep508::valid_name(s);
            match (name(s), valid) {
                (Out::Ok(n), true) => {
                    if n.as_given() != s.as_str() {
                        bad.push(format!("as_given {s:?} -> {:?}", n.as_given()));
                    }
                    if n.normalized() != pep508::normalize(s) {
                        bad.push(format!("normalized {s:?} -> {:?}", n.normalized()));
                    }
                    ok.push(n);
                }
                (Out::Err(_), false) => {}
                (o, _) => bad.push(format!("{s:?} valid={valid}: {}", o.describe())),
            }
        }
        if ok.len() == 2 {
            let same = pep508::normalize(&a) == pep508::normalize(&b);
            c.count(if same { "same package" } else { "different packages" }, 1);
            let (x, y) = (&ok[0], &ok[1]);
            let want = pep508::normalize(&a).cmp(&pep508::normalize(&b));
            if (x == y) != same {
                bad.push("==".into());
            }
            if same && hash_of(x) != hash_of(y) {
                bad.push("hash".into());
            }
            if x.cmp(y) != want || y.cmp(x) != want.reverse() {
                bad.push("cmp".into());
            }
            if x.partial_cmp(y) != Some(want) {
                bad.push("partial_cmp".into());
            }
            if HashSet::from([x.clone()]).contains(y) != same || BTreeSet::from([x.clone()]).contains(y) != same {
                bad.push("set membership".into());
            }
            let m: HashMap<PackageName, u8> = HashMap::from([(x.clone(), 1)]);
            if m.get(y).is_some() != same {
                bad.push("map lookup".into());
            }
            let (ex, ey) = (Extra::try_from(a.as_str()).unwrap(), Extra::try_from(b.as_str()).unwrap());
            if (ex == ey) != same || (same && hash_of(&ex) != hash_of(&ey)) || ex.as_given() != a || ex.normalized() != x.normalized() {
                bad.push("extra".into());
            }
            // file names (wheels cannot contain '-')
            let (wa, wb) = (a.replace('-', "_"), b.replace('-', "_"));
            for (fa, fb) in [
                (format!("{wa}-1.0-py3-none-any.whl"), format!("{wb}-1.0-py3-none-any.whl")),
                (format!("{a}-1.0.tar.gz"), format!("{b}-1.0.tar.gz")),
                (format!("{wa}-1.0-any.pybi"), format!("{wb}-1.0-any.pybi")),
            ] {
                match (run(|| ArtifactName::try_from(fa.as_str())), run(|| ArtifactName::try_from(fb.as_str()))) {
                    (Out::Ok(p), Out::Ok(q)) => {
                        if (p.distribution() == q.distribution()) != same || (p == q) != same {
                            bad.push(format!("file names {fa} {fb}"));
                        }
                        if p.distribution() != x {
                            bad.push(format!("file name {fa} vs package {a}"));
                        }
                        if (p.cmp(&q) == Ordering::Equal) != same {
                            bad.push(format!("file name order {fa} {fb}"));
                        }
                    }
                    (p, q) => bad.push(format!("{fa}: {} {fb}: {}", p.describe(), q.describe())),
                }
            }
            // requirement matching: the requirement's name, and the "extra" variable
            let req = run(|| Requirement::parse(&format!("{a}[{b}]>=1; extra == '{b}'"), ParseExtra::Allowed));
            match req {
                Out::Ok(r) => {
                    if (r.name == *y) != same || r.extras[0] != ey {
                        bad.push("requirement".into());
                    }
                    let env = HashMap::from([("extra".to_string(), x.normalized().to_string())]);
                    let v = run(|| r.env_marker_expr.as_ref().unwrap().eval(&env));
                    let looks_like_version = crate::pep440::parse(&pep508::normalize(&a)).is_some();
                    if !looks_like_version {
                        match v {
                            Out::Ok(t) if t == same => {}
                            o => bad.push(format!("marker extra == {b:?} for extra {a:?}: {}", match o { Out::Ok(t) => t.to_string(), o => o.describe() })),
                        }
                    }
                }
                o => bad.push(o.describe()),
            }
            c.case((&a, &b), true);
            if i % 4001 == 0 {
                c.sample(json!({"a": a, "b": b, "same": same}));
            }
        }
        for m in bad {
            let k: String = m.split(|ch: char| !ch.is_alphanumeric()).next().unwrap_or("").to_string();
            c.violate(&format!("name-{k}"), format!("{a:?} {b:?}: {m}"));
        }
    }
    lookups(&mut c, &rng);
    c.finish()
}

/// Dist-info directories in archives: found whatever spelling they use.
fn lookups(c: &mut Ctx, rng: &fastrand::Rng) {
    use crate::arch::*;
    for _ in 0..c.n(300, 5000) {
        let a = gens::name(rng);
        let file = gens::respell(rng, &a).replace('-', "_");
        let other = gens::name(rng);
        let same = chance(rng, 70);
        let dir = if same { gens::respell(rng, &a).replace('-', "_") } else { other.replace('-', "_") };
        let inner = gens::respell(rng, if same { &a } else { &other });
        let really_same = pep508::normalize(&dir) == pep508::normalize(&a);
        let data = zip_bytes(&[
            M::file(&format!("{dir}-1.0.dist-info/METADATA"), format!("Metadata-Version: 2.1\nName: {inner}\nVersion: 1.0\n\n")),
            M::file(&format!("{dir}-1.0.dist-info/WHEEL"), "Wheel-Version: 1.0\nRoot-Is-Purelib: true\nTag: py3-none-any\n"),
            M::file(&format!("{dir}-1.0.dist-info/RECORD"), ""),
        ]);
        let fname = format!("{file}-1.0-py3-none-any.whl");
        let name: WheelName = match run(|| WheelName::try_from(fname.as_str())) {
            Out::Ok(n) => n,
            o => {
                c.violate("wheel-name", format!("{fname}: {}", o.describe()));
                continue;
            }
        };
        let got = run(|| Wheel::new(name, Box::new(std::io::Cursor::new(data))).and_then(|w| w.metadata()));
        c.case((&fname, &dir, &inner), true);
        c.count(if really_same { "dist-info found" } else { "dist-info of another package" }, 1);
        match got {
            Out::Ok((_, m)) if really_same => {
                if m.name.as_given() != inner {
                    c.violate("distinfo-name", format!("{fname} {dir} {inner}: {:?}", m.name));
                }
            }
            Out::Err(_) if !really_same => {}
            o => c.violate("distinfo", format!("wheel {fname} with {dir}-1.0.dist-info, Name: {inner}: expected {}, got {}", if really_same { "metadata" } else { "an error" }, o.kind())),
        }
    }
}
