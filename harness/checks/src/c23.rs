//! C23: METADATA / WHEEL / pybi metadata, against Python's own email.parser (a live
//! subprocess), and the mandatory-field rules of the core metadata specification.
use crate::common::*;
use crate::{arch, gens, pep440};
use posy::verif::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

const HELPER: &str = r#"
import sys, json, base64, email
for line in sys.stdin:
    data = base64.b64decode(line)
    m = email.message_from_string(data.decode("utf-8", "replace"))
    p = m.get_payload()
    json.dump({"fields": [[k, v] for k, v in m.raw_items()], "body": p if isinstance(p, str) else None,
               "defects": [type(d).__name__ for d in m.defects]}, sys.stdout)
    sys.stdout.write("\n"); sys.stdout.flush()
"#;

struct Reference {
    child: Child,
    stdin: ChildStdin,
    out: BufReader<ChildStdout>,
}

impl Reference {
    fn start() -> Reference {
        let mut child = Command::new("python3")
            .args(["-I", "-S", "-c", HELPER])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("python3");
        Reference { stdin: child.stdin.take().unwrap(), out: BufReader::new(child.stdout.take().unwrap()), child }
    }
    fn read(&mut self, data: &[u8]) -> Value {
        self.stdin.write_all(data_b64(data).as_bytes()).unwrap();
        self.stdin.write_all(b"\n").unwrap();
        self.stdin.flush().unwrap();
        let mut line = String::new();
        self.out.read_line(&mut line).unwrap();
        serde_json::from_str(&line).expect("reference reader answered")
    }
}

impl Drop for Reference {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn data_b64(d: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(T[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}

fn recase(rng: &fastrand::Rng, s: &str) -> String {
    match rng.u8(0..5) {
        0 => s.to_ascii_lowercase(),
        1 => s.to_ascii_uppercase(),
        2 => s.chars().map(|c| if rng.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => s.to_string(),
    }
}

#[derive(Default, Clone)]
struct File {
    fields: Vec<(String, String)>,
    body: Option<String>,
}

fn text(rng: &fastrand::Rng) -> String {
    let n = rng.usize(0..4);
    (0..n)
        .map(|_| {
            *pick(rng, &[
                "A library", "für Ünïcode", "日本語", "a: b", "x;y", "  spaced  ", "\t", "ends ", "\u{2028}", "\u{b}vt", "\u{c}ff", "\u{85}", "\u{1c}", "nul\0", "'quoted'", "=?utf-8?q?x?=", ">From me", ">x",
                "-----", "\u{a0}", "emoji 🎉",
            ])
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn spec(rng: &fastrand::Rng) -> String {
    gens::clauses(rng, 3).iter().map(|(o, v)| format!("{o}{v}")).collect::<Vec<_>>().join(",")
}

fn make(rng: &fastrand::Rng, pybi: bool) -> File {
    let g = pep440::Gen { rng };
    let mut f = vec![];
    let mut push = |n: &str, v: String| f.push((recase(rng, n), v));
    push("Metadata-Version", pick(rng, &["1.0", "1.2", "2.0", "2.1", "2.1", "2.1", "2.2", "2.3", "2.99", "2.4"]).to_string());
    push("Name", gens::name(rng));
    push("Version", g.version(false).canonical());
    for _ in 0..rng.usize(0..5) {
        match rng.u8(0..4) {
            0 => push("Classifier", format!("A :: {}", text(rng).trim())),
            1 => push("Summary", text(rng)),
            2 => push(*pick(rng, &["X-Unknown", "License", "Project-URL", "Description-Content-Type", "Dynamic", "!#$%&'*+", "a"]), text(rng)),
            _ => push("License", (0..rng.usize(1..4)).map(|_| text(rng)).collect::<Vec<_>>().join("\n")),
        }
    }
    for _ in 0..rng.usize(0..4) {
        let mut r = gens::requirement(rng, true, 2).text;
        if rng.bool() {
            r = r.trim().to_string();
        }
        if chance(rng, 2) {
            r = pick(rng, &["foo (>=1", "foo >", "foo ; python_version", "==1.0", "foo[bar", "???", "foo; os_name == posix", "foo @@ x", "foo >=1 <2"]).to_string();
        }
        push("Requires-Dist", r);
    }
    for _ in 0..rng.usize(0..3) {
        push("Provides-Extra", gens::name(rng));
    }
    if rng.bool() {
        let bad = *pick(rng, &[">= three", ">=", "abc", "3.7+", "=>3.6", ">=3.6;<4"]);
        push("Requires-Python", if chance(rng, 4) { bad.into() } else { spec(rng) });
    }
    if pybi {
        let jsonish = |v: Value| if rng.bool() { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() };
        push("Pybi-Environment-Marker-Variables", jsonish(json!({"os_name": "posix", "python_version": "3.11", "platform_version": "#1 é"})));
        push("Pybi-Paths", jsonish(json!({"stdlib": "lib/python3.11", "scripts": "bin", "data": ".", "purelib": "lib/x/../y"})));
        for _ in 0..rng.usize(0..4) {
            push("Pybi-Wheel-Tag", pick(rng, &["cp311-cp311-PLATFORM", "py3-none-any", "cp311-abi3-PLATFORM", "py31-none-PLATFORM"]).to_string());
        }
    }
    if chance(rng, 60) {
        shuffle(rng, &mut f);
    }
    let body = match rng.u8(0..4) {
        0 => None,
        1 => Some(String::new()),
        _ => Some((0..rng.usize(1..6)).map(|_| text(rng)).collect::<Vec<_>>().join("\n") + *pick(rng, &["", "\n", "\n\n"])),
    };
    File { fields: f, body }
}

fn render(rng: &fastrand::Rng, f: &File) -> Vec<u8> {
    let mode = rng.u8(0..8);
    let nl = || match mode {
        0..=3 => "\n",
        4 | 5 => "\r\n",
        6 => *pick(rng, &["\n", "\r\n"]),
        _ => *pick(rng, &["\n", "\r\n", "\r"]),
    };
    let mut o = String::new();
    for (i, (n, v)) in f.fields.iter().enumerate() {
        if i > 0 {
            o += nl();
        }
        o += n;
        o += ":";
        o += *pick(rng, &[" ", " ", " ", "", "\t", "   ", " \t "]);
        for (j, l) in v.split('\n').enumerate() {
            if j > 0 {
                o += nl();
                o += *pick(rng, &[" ", "        ", "\t", "       |"]);
            }
            o += l;
        }
    }
    match &f.body {
        None => o += *pick(rng, &["", "\n", "\n", "\r\n"]),
        Some(b) => {
            o += nl();
            o += nl();
            for (i, l) in b.split('\n').enumerate() {
                if i > 0 {
                    o += nl();
                }
                o += l;
            }
        }
    }
    let mut b = o.into_bytes();
    if chance(rng, 10) {
        // mangled UTF-8, or a stray byte
        let i = rng.usize(0..=b.len());
        b.insert(i, *pick(rng, &[0x80u8, 0xe9, 0xff, 0xc3, b'\r', b'\n', b' ', b':', b'x']));
    }
    b
}

/// Break a mandatory-field rule; returns what was broken.
fn sabotage(rng: &fastrand::Rng, f: &mut File, pybi: bool) -> &'static str {
    let mut must = vec!["metadata-version", "name", "version"];
    if pybi {
        must.extend(["pybi-environment-marker-variables", "pybi-paths"]);
    }
    let key = *pick(rng, &must);
    let at = f.fields.iter().position(|(n, _)| n.eq_ignore_ascii_case(key)).unwrap();
    match rng.u8(0..5) {
        0 => {
            f.fields.remove(at);
            "mandatory field missing"
        }
        1 => {
            let other = match key {
                "metadata-version" => "1.1",
                "name" => "other-name-entirely",
                "version" => "9999.1",
                _ => "{\"z\": \"z\"}",
            };
            let i = rng.usize(0..=f.fields.len());
            f.fields.insert(i, (recase(rng, key), other.into()));
            "mandatory field given twice with different values"
        }
        2 => {
            let i = f.fields.iter().position(|(n, _)| n.eq_ignore_ascii_case("metadata-version")).unwrap();
            f.fields[i].1 = pick(rng, &["3.0", "3", "3.1", "4.0", "10.0", "20.1", "1!1.0"]).to_string();
            "unsupported major Metadata-Version"
        }
        3 => {
            f.fields[at].1 = match key {
                "metadata-version" => *pick(rng, &["", "two", "2.x"]),
                "name" => *pick(rng, &["", "-x", "a b", "x!"]),
                "version" => *pick(rng, &["", "one", "1.0-", "1..0"]),
                _ => *pick(rng, &["", "[1]", "{", "{\"a\": 1}"]),
            }
            .into();
            "mandatory field invalid"
        }
        _ => {
            f.fields.retain(|(n, _)| !n.eq_ignore_ascii_case("requires-python"));
            f.fields.push((recase(rng, "Requires-Python"), ">=3.7".into()));
            let i = rng.usize(0..=f.fields.len());
            f.fields.insert(i, (recase(rng, "Requires-Python"), "<3".into()));
            "contradictory Requires-Python"
        }
    }
}

pub fn run_(mut ctx: Ctx) -> ! {
    ctx.rule = "one metadata file read by posy and by Python's email.parser; distinct non-trivial = distinct file".into();
    ctx.assumptions.push("where email.parser itself reports a defect, posy may refuse the file".into());
    ctx.assumptions.push("values of single fields are interpreted by posy's own requirement/version parsers (monitored by C09-C13)".into());
    let rng = ctx.rng.clone();
    let mut py = Reference::start();
    let n = ctx.n(25_000, 400_000);
    for i in 0..n {
        if !ctx.within(60, 800) {
            break;
        }
        let pybi = i % 3 == 0;
        let mut f = make(&rng, pybi);
        let broken = if i % 7 == 0 { Some(sabotage(&rng, &mut f, pybi)) } else { None };
        let data = render(&rng, &f);
        if data.first().map_or(true, |b| matches!(b, b'\n' | b'\r')) {
            continue;
        }
        let want = py.read(&data);
        ctx.case(&data, true);
        let defects = want["defects"].as_array().map_or(0, |d| d.len());
        let shown = || format!("file: {:?}\nemail.parser: {}", String::from_utf8_lossy(&data), truncate(&want.to_string(), 3000));
        let mut fields: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for kv in want["fields"].as_array().unwrap() {
            fields.entry(kv[0].as_str().unwrap().to_ascii_lowercase()).or_default().push(kv[1].as_str().unwrap().into());
        }
        // 1. the raw reader
        let textual = String::from_utf8_lossy(&data).into_owned();
        let got = run(|| RFC822ish::parse(&textual));
        match &got {
            Out::Panic(_) => ctx.violate("reader-panic", format!("{}\n{}", shown(), got.describe())),
            Out::Err(e) => {
                if defects == 0 {
                    ctx.violate("reader-refuses", format!("{}\nposy: {e}", shown()));
                } else {
                    ctx.count("refused files that email.parser calls defective", 1);
                }
            }
            Out::Ok(r) if defects == 0 => {
                let mine: BTreeMap<String, Vec<String>> = r.fields.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                if mine != fields {
                    ctx.violate("fields", format!("{}\nposy: {mine:?}", shown()));
                }
                if r.body.clone().unwrap_or_default() != want["body"].as_str().unwrap_or("") {
                    ctx.violate("body", format!("{}\nposy: {:?}", shown(), r.body));
                }
                ctx.count("files read identically", 1);
            }
            Out::Ok(_) => ctx.count("accepted files that email.parser calls defective", 1),
        }
        if defects > 0 {
            continue;
        }
        // 2. what is extracted
        let one = |k: &str| fields.get(k).filter(|v| v.len() == 1).map(|v| v[0].clone());
        let distinct = |k: &str| fields.get(k).map_or(0, |v| v.iter().collect::<HashSet<_>>().len());
        let major = one("metadata-version").and_then(|v| {
            let ok = v.split('.').all(|p| !p.is_empty() && p.len() < 6 && p.chars().all(|c| c.is_ascii_digit()));
            ok.then(|| v.split('.').next().unwrap().parse::<u32>().unwrap())
        });
        let name = one("name").and_then(|v| PackageName::try_from(v.as_str()).ok());
        let version = one("version").and_then(|v| Version::try_from(v.as_str()).ok());
        let must_refuse = ["metadata-version", "name", "version"].iter().any(|k| distinct(k) != 1 )
            || major.map_or(false, |m| m >= 3)
            || one("name").is_some() && name.is_none()
            || one("version").is_some() && version.is_none()
            || distinct("requires-python") > 1 && !pybi
            || pybi && ["pybi-environment-marker-variables", "pybi-paths"].iter().any(|k| distinct(k) != 1);
        let reqs: Option<Vec<PackageRequirement>> = fields
            .get("requires-dist")
            .map_or(Some(vec![]), |v| v.iter().map(|r| PackageRequirement::try_from(r.as_str()).ok()).collect());
        let extras: Option<HashSet<Extra>> = fields
            .get("provides-extra")
            .map_or(Some(HashSet::new()), |v| v.iter().map(|r| Extra::try_from(r.as_str()).ok()).collect());
        let rp = match fields.get("requires-python") {
            None => Some(Specifiers(vec![])),
            Some(v) if v.len() == 1 => Specifiers::try_from(v[0].as_str()).ok(),
            _ => None,
        };
        let sane = !must_refuse && major.is_some() && name.is_some() && version.is_some();
        if pybi {
            let m = run(|| PybiCoreMetadata::try_from(data.as_slice()));
            // components that exist on every platform (no trailing dots, blanks, odd characters)
            let plain = |p: &str| p.split('/').all(|c| c == "." || c == ".." || !c.ends_with('.')) && p.chars().all(|c| c.is_ascii_alphanumeric() || matches!(c, '.' | '_' | '/'));
            let vars: Option<BTreeMap<String, String>> =
                one("pybi-environment-marker-variables").and_then(|v| serde_json::from_str(&v).ok());
            let paths: Option<BTreeMap<String, String>> = one("pybi-paths").and_then(|v| serde_json::from_str(&v).ok());
            match m {
                Out::Panic(p) => ctx.violate("pybi-panic", format!("{}\n{p}", shown())),
                Out::Err(e) => {
                    if sane && vars.is_some() && paths.as_ref().map_or(false, |p| p.values().all(|v| plain(v))) {
                        ctx.violate("pybi-refused", format!("{}\nposy: {e}", shown()));
                    } else {
                        ctx.count("pybi metadata refused", 1);
                    }
                }
                Out::Ok(m) => {
                    if must_refuse || vars.is_none() || paths.is_none() {
                        ctx.violate("pybi-accepted", format!("{}\n{broken:?}\nposy: {m:?}", shown()));
                        continue;
                    }
                    if !sane {
                        continue;
                    }
                    let mine: BTreeMap<String, String> = m.environment_marker_variables.clone().into_iter().collect();
                    let tags = fields.get("pybi-wheel-tag").cloned().unwrap_or_default();
                    if Some(&m.name) != name.as_ref()
                        || m.name.as_given() != name.as_ref().unwrap().as_given()
                        || Some(&m.version) != version.as_ref()
                        || Some(&mine) != vars.as_ref()
                        || m.tags != tags
                        || m.paths.len() != paths.as_ref().unwrap().len()
                        || m.paths.iter().any(|(k, v)| lexical(&paths.as_ref().unwrap()[k]) != lexical(&v.to_string()))
                    {
                        ctx.violate("pybi-values", format!("{}\nposy: {m:?}", shown()));
                    }
                    ctx.count("pybi metadata extracted", 1);
                }
            }
            continue;
        }
        let m = run(|| WheelCoreMetadata::try_from(data.as_slice()));
        match m {
            Out::Panic(p) => ctx.violate("wheel-panic", format!("{}\n{p}", shown())),
            Out::Err(e) => {
                if sane && reqs.is_some() && extras.is_some() && rp.is_some() {
                    ctx.violate("wheel-refused", format!("{}\nposy: {e}", shown()));
                } else {
                    ctx.count("wheel metadata refused", 1);
                }
            }
            Out::Ok(m) => {
                if must_refuse {
                    ctx.violate("wheel-accepted", format!("{}\n{broken:?}\nposy: {m:?}", shown()));
                    continue;
                }
                if !sane {
                    continue;
                }
                // nothing is left out because it cannot be understood
                if m.requires_dist.len() < fields.get("requires-dist").map_or(0, |v| v.len()) {
                    ctx.violate("requirement-dropped", format!("{}\nposy: {:?}", shown(), m.requires_dist));
                    continue;
                }
                if rp.is_none() && one("requires-python").is_some() && m.requires_python == Specifiers(vec![]) {
                    ctx.violate("requires-python-dropped", shown());
                    continue;
                }
                let (Some(reqs), Some(extras), Some(rp)) = (reqs, extras, rp) else { continue };
                if Some(&m.name) != name.as_ref()
                    || m.name.as_given() != name.as_ref().unwrap().as_given()
                    || Some(&m.version) != version.as_ref()
                    || m.requires_dist != reqs
                    || m.requires_python != rp
                    || m.extras != extras
                {
                    ctx.violate("wheel-values", format!("{}\nposy: {m:?}\nwanted {reqs:?} {rp:?} {extras:?}", shown()));
                }
                ctx.count("wheel metadata extracted", 1);
                // 3. the same file inside a wheel
                if i % 10 == 1 {
                    let dist = m.name.as_given().replace(|c| c == '-' || c == '.', "_");
                    let mut ms = arch::wheel_members(&dist, &m.version.to_string(), "", &[]);
                    for x in &mut ms {
                        if x.name.ends_with(b"/METADATA") {
                            x.data = data.clone();
                        }
                    }
                    shuffle(&rng, &mut ms);
                    let Ok(wn) = WheelName::try_from(format!("{dist}-{}-py3-none-any.whl", m.version).as_str()) else { continue };
                    let w = run(|| Wheel::new(wn, Box::new(std::io::Cursor::new(arch::zip_bytes(&ms))))?.metadata());
                    match w {
                        Out::Ok((blob, wm)) => {
                            ctx.count("read from inside a wheel", 1);
                            if blob != data || wm.requires_dist != m.requires_dist || wm.version != m.version {
                                ctx.violate("in-wheel", format!("{}\nposy: {wm:?}", shown()));
                            }
                        }
                        o => ctx.violate("in-wheel-refused", format!("{}\n{}", shown(), o.map(|_| ()).describe())),
                    }
                }
            }
        }
        if i % 5000 == 1 {
            ctx.sample(json!({"file": truncate(&textual, 500), "fields": fields.len()}));
        }
    }
    for c in ["files read identically", "wheel metadata extracted", "wheel metadata refused", "pybi metadata extracted", "pybi metadata refused", "read from inside a wheel"] {
        if ctx.counters.get(c).copied().unwrap_or(0) == 0 {
            ctx.problem(format!("never saw: {c}"));
        }
    }
    ctx.finish()
}

/// Lexical normal form of a relative path, to compare with what posy prints.
fn lexical(p: &str) -> Vec<&str> {
    let mut o = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." if o.last().map_or(false, |l| *l != "..") => {
                o.pop();
            }
            c => o.push(c),
        }
    }
    o
}
