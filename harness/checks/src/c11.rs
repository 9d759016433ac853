//! C11: marker parsing and evaluation against the PEP 508 reference.
use crate::common::*;
use crate::pep508::{self, R};
use posy::verif::*;
use serde_json::json;

pub fn run(mut c: Ctx) -> ! {
    c.rule = "generated marker expressions (all operators, operand orders, nesting, spacing, old \
        variable names) evaluated in generated environments, some with variables missing; and \
        mutated texts for acceptance. Non-trivial: value decided by the reference."
        .into();
    c.assumptions.push("corners on which PEP 508 and its reference implementation differ (===, backslashes, unspaced keywords, ordering of extras, open PEP 440 questions) are not judged".into());
    let rng = fastrand::Rng::with_seed(c.rng.u64(..));
    let n = c.n(120_000, 3_000_000);
    for i in 0..n {
        if !c.within(25, 500) {
            break;
        }
        let allow = rng.bool();
        let mut text = pep508::gen_marker(&rng, allow || chance(&rng, 5), rng.usize(0..4));
        let mutated = chance(&rng, 30);
        if mutated {
            text = pep508::mutate(&rng, &text);
        }
        let Some(want) = pep508::parse(&text, allow) else {
            c.count("acceptance left open", 1);
            continue;
        };
        // extra is only allowed in package requirements: go through both public types
        let got = if allow {
            let t = format!("pkg{};{}{}", pep508::sp(&rng), pep508::sp(&rng), text);
            crate::common::run(|| PackageRequirement::try_from(t.as_str()))
                .map(|r| r.env_marker_expr.clone().expect("marker dropped"))
        } else if rng.bool() {
            crate::common::run(|| StandaloneMarkerExpr::try_from(text.as_str())).map(|m| m.0)
        } else {
            let t = format!("pkg;{text}");
            crate::common::run(|| UserRequirement::try_from(t.as_str()))
                .map(|r| r.env_marker_expr.clone().expect("marker dropped"))
        };
        let got = match (got, &want) {
            (Out::Panic(p), _) => {
                c.violate("parse-panic", format!("{text:?}: {p}"));
                continue;
            }
            (Out::Ok(_), None) => {
                c.violate("accepts-malformed", format!("{text:?}"));
                continue;
            }
            (Out::Err(e), Some(_)) => {
                c.violate("rejects-wellformed", format!("{text:?}: {e}"));
                continue;
            }
            (Out::Err(_), None) => {
                c.count("malformed rejected", 1);
                c.case(&text, true);
                continue;
            }
            (Out::Ok(m), Some(_)) => m,
        };
        let want = want.unwrap();
        for _ in 0..2 {
            let env = pep508::gen_env(&rng, chance(&rng, 25));
            let w = pep508::eval(&want, &env);
            let g = crate::common::run(|| got.eval(&env));
            c.case((&text, format!("{:?}", env.get("python_full_version"))), w != R::Unknown);
            c.count(&format!("value {w:?}"), 1);
            let ok = match (&g, w) {
                (Out::Panic(_), _) => false,
                (_, R::Unknown) => true,
                (Out::Ok(true), R::T) | (Out::Ok(false), R::F) | (Out::Err(_), R::Err) => true,
                _ => false,
            };
            if !ok {
                let mut e: Vec<_> = env.iter().collect();
                e.sort();
                let d = match &g {
                    Out::Ok(b) => b.to_string(),
                    o => o.describe(),
                };
                c.violate("value", format!("{text:?}\nPEP 508: {w:?}\nposy: {d}\nenv: {e:?}"));
            }
            if i % 9973 == 0 {
                c.sample(json!({"marker": text, "value": format!("{w:?}")}));
            }
        }
    }
    c.finish()
}

/// For tools/cross_check_pep508.py
pub fn dump() {
    let rng = fastrand::Rng::with_seed(7);
    for _ in 0..40000 {
        let mut text = pep508::gen_marker(&rng, true, rng.usize(0..3));
        if chance(&rng, 20) {
            text = pep508::mutate(&rng, &text);
        }
        let Some(p) = pep508::parse(&text, true) else { continue };
        let env = pep508::gen_env(&rng, false);
        let w = match &p {
            None => "malformed".to_string(),
            Some(m) => format!("{:?}", pep508::eval(m, &env)),
        };
        println!("{}", json!({"m": text, "env": env, "w": w}));
    }
}
