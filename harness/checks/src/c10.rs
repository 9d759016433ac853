//! C10: versions are totally ordered as PEP 440 says; Eq/Hash agree; printing re-parses.
use crate::common::*;
use crate::pep440::{self, Gen, V};
use posy::verif::*;
use serde_json::json;
use std::cmp::Ordering;

fn posy_v(s: &str) -> Out<Version> {
    run_(|| Version::try_from(s))
}
fn run_<T, E: std::fmt::Debug>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    crate::common::run(f)
}

pub fn run(mut c: Ctx) -> ! {
    c.rule = "pairs of versions near each other, each in a random PEP 440 spelling, compared with \
        an independent reference; cliques checked for total-order laws; successors probed with \
        versions between. Non-trivial: every distinct pair of spellings."
        .into();
    let rng = fastrand::Rng::with_seed(c.rng.u64(..));
    let g = Gen { rng: &rng };
    let spell = |v: &V| {
        let s = if rng.bool() { v.canonical() } else { v.respell(&rng) };
        let v = pep440::parse(&s).unwrap_or_else(|| panic!("reference cannot parse {s}"));
        (v, s)
    };
    let rounds = c.n(40_000, 1_000_000);
    for i in 0..rounds {
        if !c.within(40, 400) {
            break;
        }
        let a = g.version(true);
        let group: Vec<(V, String)> = [a.clone(), g.near(&a), g.near(&a), a.clone()].iter().map(|v| spell(v)).collect();
        let mut pv = vec![];
        for (_, s) in &group {
            match posy_v(s) {
                Out::Ok(v) => pv.push(v),
                o => {
                    c.violate("version-rejected", format!("{s:?}: {}", o.describe()));
                }
            }
        }
        if pv.len() != group.len() {
            continue;
        }
        for x in 0..group.len() {
            for y in 0..group.len() {
                let want = pep440::cmp(&group[x].0, &group[y].0);
                let got = pv[x].cmp(&pv[y]);
                let (sx, sy) = (&group[x].1, &group[y].1);
                if got != want {
                    c.violate("order", format!("{sx} vs {sy}: PEP 440 {want:?}, posy {got:?}"));
                }
                if pv[x].partial_cmp(&pv[y]) != Some(got) {
                    c.violate("partial-order", format!("{sx} vs {sy}"));
                }
                if (pv[x] == pv[y]) != (want == Ordering::Equal) {
                    c.violate("equality", format!("{sx} == {sy} is {} but order is {want:?}", pv[x] == pv[y]));
                }
                if want == Ordering::Equal {
                    c.count("equal_pairs_differently_spelled", (sx != sy) as u64);
                    if hash_of(&pv[x]) != hash_of(&pv[y]) {
                        c.violate("hash", format!("{sx} and {sy} are equal but hash differently"));
                    }
                } else {
                    c.count("ordered_pairs", 1);
                }
                c.case((sx, sy), true);
            }
        }
        // display round trip
        for k in 0..group.len() {
            let printed = pv[k].to_string();
            match posy_v(&printed) {
                Out::Ok(v) if v == pv[k] => {
                    if pep440::parse(&printed).map(|r| pep440::cmp(&r, &group[k].0)) != Some(Ordering::Equal) {
                        c.violate("display-meaning", format!("{} printed as {printed}", group[k].1));
                    }
                }
                o => c.violate("display-roundtrip", format!("{} printed as {printed}: {}", group[k].1, o.describe())),
            }
            if pv[k].is_prerelease() != group[k].0.is_prerelease() {
                c.violate("is-prerelease", format!("{}: posy says {}", group[k].1, pv[k].is_prerelease()));
            }
        }
        // successor: greater, and no other version strictly between (with the same public part excepted)
        for k in 0..2 {
            let next = match run_(|| Ok::<_, ()>(pv[k].next())) {
                Out::Ok(n) => n,
                o => {
                    c.violate("next-panics", format!("{}: {}", group[k].1, o.describe()));
                    continue;
                }
            };
            if next <= pv[k] {
                c.violate("next-not-greater", format!("{}.next() = {next}", group[k].1));
            }
            for _ in 0..4 {
                let w = g.near(&group[k].0);
                let w = if rng.bool() { w.public() } else { w };
                if pep440::cmp(&w.public(), &group[k].0.public()) == Ordering::Equal && group[k].0.local.is_empty() {
                    continue; // local versions of the version itself
                }
                if let Out::Ok(pw) = posy_v(&w.canonical()) {
                    if pv[k] < pw && pw < next {
                        c.violate(
                            "next-skips",
                            format!("{} < {} < next() = {next}", group[k].1, w.canonical()),
                        );
                    }
                    c.count("successor_probes", 1);
                }
            }
        }
        if i < 6 {
            let mut sorted = pv.clone();
            sorted.sort();
            let sorted: Vec<String> = sorted.iter().map(|v| v.to_string()).collect();
            let vs: Vec<String> = group.iter().map(|g| g.1.clone()).collect();
            c.sample(json!({"versions": vs, "sorted": sorted}));
        }
    }
    // whole-population sort agrees (transitivity at scale)
    let mut pop: Vec<(V, Version)> = vec![];
    for _ in 0..c.n(3000, 30000) {
        let (v, s) = spell(&g.version(true));
        if let Out::Ok(p) = posy_v(&s) {
            pop.push((v, p));
        }
    }
    let mut by_posy = pop.clone();
    by_posy.sort_by(|a, b| a.1.cmp(&b.1));
    for w in by_posy.windows(2) {
        if pep440::cmp(&w[0].0, &w[1].0) == Ordering::Greater {
            c.violate("sort", format!("{} sorted before {}", w[0].1, w[1].1));
        }
        c.case((w[0].1.to_string(), w[1].1.to_string()), true);
    }
    // extremes: numbers around the representation limits are ordered right or refused
    let nums: [u128; 7] = [0, 7, 4294967293, 4294967294, 4294967295, 4294967296, 20230101123456];
    let mut ext: Vec<(V, String)> = vec![];
    for n in nums {
        for s in [
            format!("1.0.dev{n}"), format!("1.0a{n}"), format!("1.0rc{n}"), format!("1.0.post{n}"), format!("1.0.post{n}.dev{n}"),
            format!("1.{n}"), format!("{n}"), format!("{n}!0"), format!("1.0+{n}"), format!("1.0+a.{n}"), format!("1.0a{n}.dev{n}"), format!("0.0.dev{n}"),
        ] {
            ext.push((pep440::parse(&s).unwrap(), s));
        }
    }
    for s in ["0.dev0", "0a0.dev0", "0", "1.0", "1.0.dev0", "1.0a0", "1.0.post0", "1.0+a", "1.0+abc99999999999", "1.0+g20230101123456"] {
        ext.push((pep440::parse(s).unwrap(), s.to_string()));
    }
    let pe: Vec<Out<Version>> = ext.iter().map(|(_, s)| posy_v(s)).collect();
    for x in 0..ext.len() {
        if let Out::Panic(p) = &pe[x] {
            c.violate("extreme-panic", format!("{}: {p}", ext[x].1));
        }
        if let Out::Ok(a) = &pe[x] {
            let a = a.clone();
            if pep440::parse(&a.to_string()).map(|r| pep440::cmp(&r, &ext[x].0)) != Some(Ordering::Equal) {
                c.violate("extreme-misread", format!("{} was read as {}", ext[x].1, a));
            }
            match run_(|| Ok::<_, ()>(a.next())) {
                Out::Ok(n) if n > a => {}
                Out::Ok(n) => c.violate("extreme-next", format!("{}.next() = {n}", ext[x].1)),
                o => c.violate("extreme-next", format!("{}: {}", ext[x].1, o.describe())),
            }
            if a < *VERSION_ZERO || a >= *VERSION_INFINITY {
                c.violate("outside-sentinels", format!("{} is outside [VERSION_ZERO, VERSION_INFINITY)", ext[x].1));
            }
            for y in 0..ext.len() {
                if let Out::Ok(b) = &pe[y] {
                    let want = pep440::cmp(&ext[x].0, &ext[y].0);
                    if a.cmp(b) != want {
                        c.violate("extreme-order", format!("{} vs {}: want {want:?}, posy {:?}", ext[x].1, ext[y].1, a.cmp(b)));
                    }
                    c.case(("ext", x, y), true);
                }
            }
        } else {
            c.count("extreme_refused", 1);
        }
    }
    c.finish()
}
