//! C09: specifier membership against the PEP 440 reference.
use crate::common::*;
use crate::pep440::{self, Gen, Op, OPS, V};
use posy::verif::*;
use serde_json::json;

struct Spec {
    op: Op,
    v: V,
    wild: bool,
    text: String,
}

fn gen_spec(g: &Gen, anchor: &V) -> Spec {
    let r = g.rng;
    let op = OPS[r.usize(0..OPS.len())];
    let mut v = if r.u8(0..3) == 0 { g.version(true) } else { g.near(anchor) };
    if !matches!(op, Op::Eq | Op::Ne) && r.u8(0..10) != 0 {
        v.local.clear();
    }
    if op == Op::Compat && v.release.len() < 2 && r.u8(0..10) != 0 {
        v.release.push(1);
    }
    let wild = matches!(op, Op::Eq | Op::Ne) && r.u8(0..3) == 0 || r.u8(0..40) == 0;
    if wild && r.u8(0..10) != 0 {
        v.dev = None;
        v.local.clear();
        if r.u8(0..4) != 0 {
            v.pre = None;
            v.post = None;
        }
    }
    let mut text = op.s().to_string();
    text += ["", " "][r.usize(0..2)];
    text += &if r.bool() || wild { v.canonical() } else { v.respell(r) };
    if wild {
        text += ".*";
    }
    // judge what was written, not what was meant (a re-spelling may add ".0" segments,
    // which matter to "~=")
    let body = text[op.s().len()..].trim().trim_end_matches(".*").to_string();
    let v = pep440::parse(&body).expect("generator made an invalid version");
    Spec { op, v, wild, text }
}

fn class(s: &Spec) -> String {
    format!(
        "{}{}{}{}{}{}",
        s.op.s(),
        if s.wild { "*" } else { "" },
        if s.v.pre.is_some() { "-pre" } else { "" },
        if s.v.post.is_some() { "-post" } else { "" },
        if s.v.dev.is_some() { "-dev" } else { "" },
        if !s.v.local.is_empty() { "-local" } else { "" }
    )
}

pub fn run(mut c: Ctx) -> ! {
    c.rule = "random specifier sets (1-3 clauses) x versions near their boundaries, in random \
        spellings; plus systematically malformed text. Non-trivial: at least one clause was \
        decided by the reference (not an open question of the standard)."
        .into();
    let rng = fastrand::Rng::with_seed(c.rng.u64(..));
    let g = Gen { rng: &rng };
    let total = c.n(60_000, 1_500_000);
    for i in 0..total {
        if !c.within(40, 500) {
            break;
        }
        let anchor = g.version(true);
        let specs: Vec<Spec> =
            (0..*pick(&rng, &[1, 1, 1, 2, 3])).map(|_| gen_spec(&g, &anchor)).collect();
        let text = specs.iter().map(|s| s.text.as_str()).collect::<Vec<_>>().join(
            [",", ", ", " ,"][rng.usize(0..3)],
        );
        let vs: Vec<(V, String)> = (0..4)
            .map(|_| {
                let mut v = if rng.u8(0..4) == 0 { g.version(true) } else { g.near(&specs[0].v) };
                if specs[0].wild && rng.u8(0..3) == 0 {
                    // just outside the upper or lower end
                    v = specs[0].v.clone();
                    let up = rng.bool();
                    let step = |n: &mut u128| *n = if up { *n + 1 } else { n.saturating_sub(1) };
                    match (&mut v.post, &mut v.pre) {
                        (Some(p), _) => step(p),
                        (None, Some((_, p))) => step(p),
                        (None, None) => step(v.release.last_mut().unwrap()),
                    }
                    if rng.bool() {
                        v.dev = Some(rng.u128(0..3));
                    }
                    if rng.u8(0..4) == 0 {
                        v.post = Some(rng.u128(0..3));
                    }
                }
                let s = if rng.bool() { v.canonical() } else { v.respell(&rng) };
                let v = pep440::parse(&s).unwrap();
                (v, s)
            })
            .collect();
        let legal: Vec<Option<bool>> =
            specs.iter().map(|s| pep440::legal(s.op, &s.v, s.wild)).collect();
        let parsed = run_spec(&text);
        if parsed.is_panic() {
            c.violate("panic-parse", format!("{text:?}: {}", parsed.describe()));
            continue;
        }
        for (v, vs) in &vs {
            let pv = match crate::common::run(|| Version::try_from(vs.as_str())) {
                Out::Ok(v) => v,
                o => {
                    c.violate("version-rejected", format!("{vs:?}: {}", o.describe()));
                    continue;
                }
            };
            let got: Out<bool> = match &parsed {
                Out::Ok(sp) => crate::common::run(|| sp.satisfied_by(&pv)),
                Out::Err(e) => Out::Err(e.clone()),
                Out::Panic(_) => unreachable!(),
            };
            let bad = legal.iter().any(|l| *l == Some(false));
            let open = legal.iter().any(|l| l.is_none());
            let mut decided = true;
            if got.is_panic() {
                c.violate("panic-eval", format!("{text:?} on {vs:?}: {}", got.describe()));
            } else if open && !got.is_ok() {
                // may be refused; but if it is accepted, then it has only one meaning
                decided = false;
            } else if bad {
                // short-circuiting may hide the illegal clause
                if specs.len() == 1 && got.is_ok() {
                    c.violate(
                        &format!("illegal-accepted {}", class(&specs[0])),
                        format!("{text:?} is not a valid specifier but was evaluated on {vs:?}"),
                    );
                }
            } else {
                let each: Vec<Option<bool>> =
                    specs.iter().map(|s| pep440::contains(s.op, &s.v, s.wild, v)).collect();
                let want = if each.iter().any(|e| *e == Some(false)) {
                    Some(false)
                } else if each.iter().all(|e| *e == Some(true)) {
                    Some(true)
                } else {
                    None
                };
                match (want, &got) {
                    (None, _) => decided = false,
                    (Some(w), Out::Ok(g)) if w == *g => {
                        c.count(if w { "accepted" } else { "rejected" }, 1);
                    }
                    (Some(w), _) => {
                        let sig = format!(
                            "wrong {} {}",
                            specs.iter().map(class).collect::<Vec<_>>().join(","),
                            if w { "excluded" } else { "included" }
                        );
                        c.violate(
                            &sig,
                            format!(
                                "specifier {text:?}, version {vs:?}: PEP 440 says {w}, posy says {}",
                                match &got {
                                    Out::Ok(b) => b.to_string(),
                                    o => o.describe(),
                                }
                            ),
                        );
                    }
                }
                // interval form
                if let Out::Ok(sp) = &parsed {
                    let ranges = crate::common::run(|| -> eyre::Result<bool> {
                        let mut all = true;
                        for s in &sp.0 {
                            let mut n = 0;
                            for r in s.to_ranges()? {
                                if r.start <= pv && pv < r.end {
                                    n += 1;
                                }
                            }
                            if n > 1 {
                                eyre::bail!("overlapping intervals for {s:?}");
                            }
                            all &= n == 1;
                        }
                        Ok(all)
                    });
                    match (&ranges, &got) {
                        (Out::Ok(a), Out::Ok(b)) if a == b => {}
                        _ => c.violate(
                            "interval-disagrees",
                            format!("{text:?} on {vs:?}: direct {} interval {}", 
                                match &got { Out::Ok(b) => b.to_string(), o => o.describe() },
                                match &ranges { Out::Ok(b) => b.to_string(), o => o.describe() }),
                        ),
                    }
                }
            }
            if i < 3 {
                c.sample(json!({"specifier": text, "version": vs, "posy": match &got {
                    Out::Ok(b) => b.to_string(), o => o.describe() }}));
            }
            c.case((&text, vs), decided);
        }
    }

    // malformed text is refused, whatever the numbers
    let huge = ["4294967294", "4294967295", "4294967296", "18446744073709551616", "99999999999999999999999999"];
    let mut bad_texts: Vec<(String, bool)> = vec![];
    for op in ["=", "=<", "=>", "~", "<>", "!", "=~", "===", "<<", ">>", "==="] {
        bad_texts.push((format!("{op}1.0"), true));
        bad_texts.push((format!("{op} 1.0"), true));
    }
    for t in [
        "1.0", "== 1..0", "== .1", "==1.0.", "==1.0*", "==1.*.0", "==*", "==1.0.*.*", ">=1.0.*", "<1.*", "~=1.0.*",
        "~=1", "==1.0+", "==1.0+.a", "==1.0+a..b", ">=1.0+a", "== 1.0 1.0", ">=1.0 <2.0", "==1.0,,==2.0",
        ",==1.0", "==", ">=,", "==1.0+abc.*", "==1.0.dev1.*", "==a.b", "==1.0foo", "==1!", "==!1", "==1!2!3", "(==1.0", "==1.0)",
        "==1.0\u{660}", "==1,0", "== 1. 0", "≥1.0", "==-1", "==1.0-", "==1.0a1a2", "==1.0.dev1.dev2", "==1.0dev1post2",
    ] {
        bad_texts.push((t.into(), true));
    }
    for h in huge {
        for op in OPS {
            for t in [
                format!("{h}"), format!("1.{h}"), format!("1.0a{h}"), format!("1.0.post{h}"), format!("1.0.dev{h}"),
                format!("{h}!1.0"), format!("1.0+{h}"), format!("1.{h}.*"), format!("1.0.{h}"), format!("{h}.*"),
            ] {
                bad_texts.push((format!("{}{}", op.s(), t), false));
            }
        }
    }
    let probes = ["0", "1.0", "1.0a1", "2!1", "1.0.post3", "1.0.dev7", "1.0+x"];
    for (t, must_fail) in &bad_texts {
        for p in probes {
            let pv = Version::try_from(p).unwrap();
            let got = crate::common::run(|| {
                Specifiers::try_from(t.as_str()).and_then(|s| s.satisfied_by(&pv))
            });
            if got.is_panic() {
                c.violate("panic-malformed-or-huge", format!("{t:?} on {p}: {}", got.describe()));
            }
            if *must_fail && got.is_ok() {
                c.violate(&format!("malformed-accepted {t}"), format!("{t:?} evaluated on {p}"));
            }
            c.count("malformed_or_huge", 1);
            c.case(("bad", t, p), true);
        }
    }
    // huge numbers either work as PEP 440 says, or are refused
    for h in huge {
        for (op, spec, v) in [
            (Op::Eq, format!("1.{h}"), format!("1.{h}")),
            (Op::Eq, format!("1.0.dev{h}"), "1.0".to_string()),
            (Op::Ge, "1.0".to_string(), format!("1.0.dev{h}")),
            (Op::Ge, "1.0".to_string(), format!("1.0.post{h}")),
            (Op::Gt, "1.0".to_string(), format!("1.0.post{h}")),
            (Op::Lt, "1.0.post1".to_string(), format!("1.0.post{h}")),
            (Op::Eq, "1.0a0".to_string(), format!("1.0a{h}")),
            (Op::Eq, "1.*".to_string(), format!("1.{h}")),
            (Op::Eq, format!("1.{h}.*"), format!("1.{h}.3")),
            (Op::Compat, format!("1.{h}.3"), format!("1.{h}.4")),
            (Op::Eq, format!("1.0.post{h}"), format!("1.0.post{h}")),
            (Op::Le, format!("1.0.dev{h}"), format!("1.0.dev{h}")),
        ] {
            let wild = spec.ends_with(".*");
            let rs = pep440::parse(spec.trim_end_matches(".*")).unwrap();
            let rv = pep440::parse(&v).unwrap();
            let want = pep440::contains(op, &rs, wild, &rv);
            let got = crate::common::run(|| {
                let s = Specifiers::try_from(format!("{}{}", op.s(), spec))?;
                s.satisfied_by(&Version::try_from(v.as_str())?)
            });
            match (&got, want) {
                (Out::Panic(p), _) => c.violate("panic-malformed-or-huge", format!("{}{spec} on {v}: {p}", op.s())),
                (Out::Ok(g), Some(w)) if *g != w => c.violate(
                    "huge-number-misread",
                    format!("{}{spec} on {v}: PEP 440 says {w}, posy says {g}", op.s()),
                ),
                _ => {}
            }
            c.case(("huge", op, &spec, &v), true);
        }
    }
    c.finish()
}

fn run_spec(text: &str) -> Out<Specifiers> {
    crate::common::run(|| Specifiers::try_from(text))
}

/// Emit reference decisions for cross-checking against Python's `packaging`.
pub fn dump() {
    let rng = fastrand::Rng::with_seed(7);
    let g = Gen { rng: &rng };
    for _ in 0..60000 {
        let a = g.version(true);
        let s = gen_spec(&g, &a);
        let v = g.near(&s.v);
        let vs = v.respell(&rng);
        let v = pep440::parse(&vs).unwrap();
        println!(
            "{}",
            json!({"spec": s.text, "v": vs, "legal": pep440::legal(s.op, &s.v, s.wild),
                "in": pep440::contains(s.op, &s.v, s.wild, &v), "canon": v.canonical(),
                "cmp": pep440::cmp(&s.v, &v) as i8})
        );
    }
}
