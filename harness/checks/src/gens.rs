//! Generators of names, requirements and file names, together with what they must mean.
use crate::common::{chance, pick};
use crate::pep440::{Gen, Op, OPS};
use crate::pep508;

pub const NAMES: [&str; 22] = [
    "foo", "Foo", "foo-bar", "foo_bar", "foo.bar", "FOO-.-bar", "foo--bar", "a", "A", "1", "0x", "a1", "z.z.z",
    "Twisted", "zope.interface", "ruamel_yaml", "ruamel-yaml", "fooBAR", "foo-barbaz", "x-1.0", "i_o__u", "q9-_.w",
];

pub fn name(rng: &fastrand::Rng) -> String {
    if rng.bool() {
        return pick(rng, &NAMES).to_string();
    }
    let n = rng.usize(1..10);
    let mut s = String::new();
    for i in 0..n {
        let edge = i == 0 || i == n - 1;
        let c = if edge || chance(rng, 70) {
            *pick(rng, &['a', 'b', 'c', 'Z', 'Q', '0', '7', 'x', 'Y'])
        } else {
            *pick(rng, &['-', '_', '.'])
        };
        s.push(c);
    }
    s
}

/// Another spelling of the same name.
pub fn respell(rng: &fastrand::Rng, s: &str) -> String {
    let mut out = String::new();
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if matches!(c[i], '-' | '_' | '.') {
            while i < c.len() && matches!(c[i], '-' | '_' | '.') {
                i += 1;
            }
            for _ in 0..rng.usize(1..4) {
                out.push(*pick(rng, &['-', '_', '.']));
            }
        } else {
            out.push(if rng.bool() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() });
            i += 1;
        }
    }
    out
}

/// (op, value) pairs whose text is a legal specifier.
pub fn clauses(rng: &fastrand::Rng, max: usize) -> Vec<(String, String)> {
    let g = Gen { rng };
    (0..rng.usize(0..=max))
        .map(|_| {
            let op = *pick(rng, &OPS);
            let mut v = g.version(false);
            if op == Op::Compat && v.release.len() < 2 {
                v.release.push(0);
            }
            let mut t = v.canonical();
            if matches!(op, Op::Eq | Op::Ne) {
                if chance(rng, 25) {
                    v.pre = None;
                    v.post = None;
                    v.dev = None;
                    t = v.canonical() + ".*";
                } else if chance(rng, 15) {
                    v.local = g.local();
                    t = v.canonical();
                }
            }
            (op.s().to_string(), t)
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct Req {
    pub name: String,
    pub extras: Vec<String>,
    pub clauses: Vec<(String, String)>,
    pub marker: Option<String>,
    pub text: String,
}

pub fn requirement(rng: &fastrand::Rng, extra: bool, depth: usize) -> Req {
    let sp = || *pick(rng, &["", "", " ", "  ", "\t"]);
    let name = name(rng);
    let extras: Vec<String> =
        if chance(rng, 40) { (0..rng.usize(0..4)).map(|_| self::name(rng)).collect() } else { vec![] };
    let clauses = clauses(rng, 3);
    let marker = if chance(rng, 45) {
        Some(pep508::gen_marker(rng, extra, rng.usize(0..=depth)))
    } else {
        None
    };
    let mut t = format!("{}{}", sp(), name);
    if !extras.is_empty() || chance(rng, 5) {
        t += sp();
        t += "[";
        t += sp();
        for (i, e) in extras.iter().enumerate() {
            if i > 0 {
                t += &format!("{},{}", sp(), sp());
            }
            t += e;
        }
        t += sp();
        t += "]";
    }
    t += sp();
    if !clauses.is_empty() {
        let paren = chance(rng, 40);
        if paren {
            t += "(";
        }
        for (i, (o, v)) in clauses.iter().enumerate() {
            if i > 0 {
                t += &format!("{},", if paren || rng.bool() { sp() } else { "" });
            }
            t += &format!("{}{o}{}{v}", sp(), sp());
        }
        if paren {
            t += ")";
        }
    }
    if let Some(m) = &marker {
        t += &format!("{};{}{}", sp(), sp(), m);
    }
    t += sp();
    Req { name, extras, clauses, marker, text: t }
}

pub const PLATS: [&str; 9] = [
    "any", "manylinux_2_17_x86_64", "manylinux2014_x86_64", "win_amd64", "macosx_11_0_arm64",
    "macosx_10_9_universal2", "linux_x86_64", "musllinux_1_1_x86_64", "manylinux_2_5_i686",
];

pub fn tags(rng: &fastrand::Rng, from: &[&str]) -> String {
    (0..*pick(rng, &[1usize, 1, 1, 2, 3])).map(|_| pick(rng, from).to_string()).collect::<Vec<_>>().join(".")
}

pub fn file_version(rng: &fastrand::Rng) -> String {
    let g = Gen { rng };
    let v = g.version(true);
    let s = if rng.bool() { v.canonical() } else { v.respell(rng).trim().replace('-', ".") };
    // a spelling may lose validity when '-' is replaced (1.0-1 -> 1.0.1 is fine but different)
    s
}

pub fn wheel_name(rng: &fastrand::Rng) -> String {
    let n = name(rng).replace('-', "_");
    let build = match rng.u8(0..6) {
        0 => "-1",
        1 => "-2abc",
        2 => "-0",
        3 => "-abc",
        _ => "",
    };
    format!(
        "{n}-{}{build}-{}-{}-{}.whl",
        file_version(rng),
        tags(rng, &["py3", "py2", "cp310", "cp37", "pp39"]),
        tags(rng, &["none", "abi3", "cp310", "cp37m"]),
        tags(rng, &PLATS)
    )
}

pub fn pybi_name(rng: &fastrand::Rng) -> String {
    let n = name(rng).replace('-', "_");
    let build = *pick(rng, &["", "", "-1", "-3b"]);
    format!("{n}-{}{build}-{}.pybi", file_version(rng), tags(rng, &PLATS))
}

pub fn sdist_name(rng: &fastrand::Rng) -> String {
    format!("{}-{}.{}", name(rng), file_version(rng), pick(rng, &["tar.gz", "zip"]))
}
