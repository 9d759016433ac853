//! C22: text and bytes from outside are parsed or rejected; no panic, hang or stack overflow.
//!
//! The parsers run in a child process (a stack overflow or abort kills only that), on a
//! thread with the 8 MiB stack posy's main thread has; the parent watches for death,
//! for cases that never come back, and for CPU time growing faster than the input.
use crate::common::*;
use crate::{gens, pep508, srv};
use posy::verif::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use url::Url;

pub const KINDS: [&str; 17] = [
    "user-requirement", "package-requirement", "python-requirement", "marker", "specifiers", "version",
    "package-name", "extra", "artifact-name", "artifact-hash", "wheel-metadata", "pybi-metadata", "rfc822",
    "entry-points", "index-page", "brief", "blueprint",
];
const HTTP_KIND: u8 = 100;

// ---------------------------------------------------------------- worker (child process)

fn full_env() -> HashMap<String, String> {
    [
        ("os_name", "posix"), ("sys_platform", "linux"), ("platform_machine", "x86_64"),
        ("platform_python_implementation", "CPython"), ("platform_release", "5.15"), ("platform_system", "Linux"),
        ("platform_version", "#1 SMP"), ("python_version", "3.11"), ("python_full_version", "3.11.2"),
        ("implementation_name", "cpython"), ("implementation_version", "3.11.2"), ("extra", "foo"),
    ]
    .iter()
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .collect()
}

fn ranges(s: &Specifiers) -> usize {
    s.0.iter().filter_map(|s| s.to_ranges().ok()).map(|r| r.len()).sum()
}

/// Parse, and do with the result what posy does with it.
fn consume(kind: &str, data: &[u8]) -> Result<(), String> {
    let text = || String::from_utf8_lossy(data).into_owned();
    let e = |e: eyre::Report| format!("{e:?}");
    match kind {
        "user-requirement" => {
            let r = UserRequirement::try_from(text().as_str()).map_err(e)?;
            let _ = r.to_string();
            if let Some(m) = &r.env_marker_expr {
                let _ = m.eval(&full_env());
            }
        }
        "package-requirement" => {
            let r = PackageRequirement::try_from(text().as_str()).map_err(e)?;
            let _ = r.to_string();
            if let Some(m) = &r.env_marker_expr {
                let _ = m.eval(&full_env());
            }
            let _ = ranges(&r.specifiers);
        }
        "python-requirement" => {
            let r = PythonRequirement::try_from(text().as_str()).map_err(e)?;
            let _ = r.to_string();
        }
        "marker" => {
            let m = StandaloneMarkerExpr::try_from(text().as_str()).map_err(e)?;
            let _ = m.to_string();
            let _ = m.0.eval(&full_env());
        }
        "specifiers" => {
            let s = Specifiers::try_from(text().as_str()).map_err(e)?;
            let _ = s.to_string();
            for v in ["0", "1.0", "1.0a1.dev3", "2!3.4+loc", "99999999"] {
                let _ = s.satisfied_by(&Version::try_from(v).unwrap());
            }
            let _ = ranges(&s);
        }
        "version" => {
            let v = Version::try_from(text().as_str()).map_err(e)?;
            let _ = v.to_string();
            let _ = v.is_prerelease();
            let o = Version::try_from("1.0").unwrap();
            let _ = (v < o, v == o, hash_of(&v));
            let s = format!(">={v}");
            if let Ok(s) = Specifiers::try_from(s.as_str()) {
                let _ = ranges(&s);
            }
        }
        "package-name" => {
            let n = PackageName::try_from(text().as_str()).map_err(e)?;
            let _ = (n.as_given().len(), n.normalized().len());
        }
        "extra" => {
            let _ = Extra::try_from(text().as_str()).map_err(e)?;
        }
        "artifact-name" => {
            let n = ArtifactName::try_from(text().as_str()).map_err(e)?;
            let _ = n.to_string();
            if let ArtifactName::Wheel(w) = &n {
                let _ = w.all_tags().len();
            }
            for p in n.split_multiplatform_pybis() {
                let _ = p.to_string();
            }
        }
        "artifact-hash" => {
            let h = ArtifactHash::try_from(text().as_str()).map_err(e)?;
            let _ = h.to_string();
            let _ = h.checker(std::io::sink()).map(|_| ());
            let _ = PathKey::key(&h);
        }
        "wheel-metadata" => {
            let m = WheelCoreMetadata::try_from(data).map_err(e)?;
            let _ = ranges(&m.requires_python);
        }
        "pybi-metadata" => {
            let m = PybiCoreMetadata::try_from(data).map_err(e)?;
            for p in ["manylinux_2_17_x86_64", "macosx_11_0_arm64"] {
                let _ = PybiPlatform::new(p).wheel_platform(&m).map(|_| ());
            }
        }
        "rfc822" => {
            let _ = RFC822ish::parse(&text()).map_err(e)?;
        }
        "entry-points" => {
            let _ = parse_entry_points(&text()).map_err(e)?;
        }
        "index-page" => {
            let url = Url::parse("http://index.example/simple/foo/").unwrap();
            let p = parse_html(&url, "text/html; charset=utf-8", data).map_err(e)?;
            let mut m = indexmap::IndexMap::new();
            pack_by_version(p, &mut m).map_err(e)?;
        }
        "brief" => {
            let b: Brief = serde_json::from_slice(data).map_err(|e| e.to_string())?;
            let _ = serde_json::to_string(&b);
        }
        "blueprint" => {
            let b: Blueprint = serde_json::from_slice(data).map_err(|e| e.to_string())?;
            let _ = serde_json::to_string(&b);
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn cpu_us() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000 + t.tv_nsec as u64 / 1000
}

/// Everything posy does with a response, for one raw server answer.
fn consume_http(raw: &[u8], dir: &std::path::Path) -> Result<(), String> {
    let raw = raw.to_vec();
    let server = srv::Server::start(Arc::new(move |_r: &srv::Req| srv::Act::Raw(raw.clone())));
    let _ = std::fs::remove_dir_all(dir);
    let http = Http::new(
        KVFileStore::new(&dir.join("http")).map_err(|e| e.to_string())?,
        KVFileStore::new(&dir.join("hashed")).map_err(|e| e.to_string())?,
    );
    let mut err = String::new();
    let url = Url::parse(&server.url("/simple/foo/")).unwrap();
    for _ in 0..2 {
        if let Err(e) = fetch_simple_api(&http, &url) {
            err = format!("{e:?}");
        }
        let ai = ArtifactInfo {
            name: ArtifactName::try_from("foo-1.0.tar.gz").unwrap(),
            url: Url::parse(&server.url("/f/foo-1.0.tar.gz")).unwrap(),
            hash: None,
            requires_python: None,
            dist_info_metadata: Default::default(),
            yanked: Default::default(),
        };
        match http.get_lazy(&ai) {
            Ok(mut f) => {
                let mut b = [0u8; 4096];
                let mut total = 0;
                while total < 1 << 20 {
                    match f.read(&mut b) {
                        Ok(0) => break,
                        Ok(n) => total += n,
                        Err(e) => {
                            err = e.to_string();
                            break;
                        }
                    }
                }
            }
            Err(e) => err = format!("{e:?}"),
        }
    }
    if err.is_empty() {
        Ok(())
    } else {
        Err(err)
    }
}

pub fn worker() -> ! {
    let t = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(|| {
            let tmp = scratch();
            let mut i = std::io::stdin().lock();
            let mut o = std::io::stdout().lock();
            loop {
                let mut h = [0u8; 5];
                if i.read_exact(&mut h).is_err() {
                    break;
                }
                let mut data = vec![0; u32::from_le_bytes(h[1..5].try_into().unwrap()) as usize];
                i.read_exact(&mut data).unwrap();
                let t0 = cpu_us();
                let out = if h[0] == HTTP_KIND {
                    run(|| consume_http(&data, &tmp.path().join("h")))
                } else {
                    run(|| consume(KINDS[h[0] as usize], &data))
                };
                let us = cpu_us() - t0;
                let (code, detail) = match out {
                    Out::Ok(()) => (0u8, String::new()),
                    Out::Err(e) => (1, truncate(&e, 200)),
                    Out::Panic(p) => (2, truncate(&p, 1000)),
                };
                let mut m = vec![code];
                m.extend(us.to_le_bytes());
                m.extend((detail.len() as u32).to_le_bytes());
                m.extend(detail.as_bytes());
                o.write_all(&m).unwrap();
                o.flush().unwrap();
            }
        })
        .unwrap();
    let _ = t.join();
    std::process::exit(0);
}

// ---------------------------------------------------------------- parent

pub enum Ran {
    Done { code: u8, us: u64, detail: String },
    Died(String),
    Hung,
}

pub struct Worker {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<(u8, u64, String)>,
}

impl Worker {
    pub fn start() -> Worker {
        let mut child = Command::new(std::env::current_exe().unwrap())
            .arg("c22-worker")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("worker");
        let stdin = child.stdin.take().unwrap();
        let mut out: ChildStdout = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || loop {
            let mut h = [0u8; 13];
            if out.read_exact(&mut h).is_err() {
                return;
            }
            let us = u64::from_le_bytes(h[1..9].try_into().unwrap());
            let mut d = vec![0; u32::from_le_bytes(h[9..13].try_into().unwrap()) as usize];
            if out.read_exact(&mut d).is_err() || tx.send((h[0], us, String::from_utf8_lossy(&d).into_owned())).is_err() {
                return;
            }
        });
        Worker { child, stdin, rx }
    }
    pub fn run(&mut self, kind: u8, data: &[u8], limit: Duration) -> Ran {
        let mut m = vec![kind];
        m.extend((data.len() as u32).to_le_bytes());
        m.extend(data);
        let wrote = self.stdin.write_all(&m).and_then(|_| self.stdin.flush());
        match if wrote.is_ok() { self.rx.recv_timeout(limit) } else { Err(RecvTimeoutError::Disconnected) } {
            Ok((code, us, detail)) => Ran::Done { code, us, detail },
            Err(RecvTimeoutError::Timeout) => {
                let _ = self.child.kill();
                let _ = self.child.wait();
                *self = Worker::start();
                Ran::Hung
            }
            Err(RecvTimeoutError::Disconnected) => {
                let st = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
                *self = Worker::start();
                Ran::Died(st)
            }
        }
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Where a panic came from: file and line for dependencies (which don't change), only the
/// file for posy itself.
pub fn panic_site(detail: &str) -> String {
    let loc = detail.rsplit(", ").next().unwrap_or("");
    let mut it = loc.split(':');
    let (file, line) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
    match file.split_once(".cargo/registry/src/") {
        Some((_, f)) => format!("{}:{line}", f.split_once('/').map_or(f, |x| x.1)),
        None => file.rsplit('/').next().unwrap_or("").to_string(),
    }
}

// ---------------------------------------------------------------- inputs

fn hexs(rng: &fastrand::Rng, n: usize) -> String {
    (0..n).map(|_| format!("{:02x}", rng.u8(..))).collect()
}

fn valid(rng: &fastrand::Rng, kind: &str) -> Vec<u8> {
    let spec = || gens::clauses(rng, 4).iter().map(|(o, v)| format!("{o}{v}")).collect::<Vec<_>>().join(",");
    let g = crate::pep440::Gen { rng };
    let metadata = || {
        let nl = *pick(rng, &["\n", "\r\n"]);
        let mut m = format!("Metadata-Version: 2.1{nl}Name: {}{nl}Version: {}{nl}", gens::name(rng), g.version(false).canonical());
        for _ in 0..rng.usize(0..4) {
            m += &format!("Requires-Dist: {}{nl}", gens::requirement(rng, true, 2).text.trim());
        }
        if rng.bool() {
            m += &format!("Requires-Python: {}{nl}", spec());
        }
        if rng.bool() {
            m += &format!("Provides-Extra: {}{nl}", gens::name(rng));
        }
        m
    };
    match kind {
        "user-requirement" => gens::requirement(rng, false, 3).text.into_bytes(),
        "package-requirement" => gens::requirement(rng, true, 3).text.into_bytes(),
        "python-requirement" => format!("{} {}", gens::name(rng), spec()).into_bytes(),
        "marker" => pep508::gen_marker(rng, false, 4).into_bytes(),
        "specifiers" => spec().into_bytes(),
        "version" => g.version(true).respell(rng).into_bytes(),
        "package-name" | "extra" => gens::name(rng).into_bytes(),
        "artifact-name" => match rng.u8(0..3) {
            0 => gens::wheel_name(rng),
            1 => gens::pybi_name(rng),
            _ => gens::sdist_name(rng),
        }
        .into_bytes(),
        "artifact-hash" => format!("{}={}", pick(rng, &["sha256", "md5", "sha512"]), hexs(rng, 32)).into_bytes(),
        "wheel-metadata" => (metadata() + "\nbody\n").into_bytes(),
        "pybi-metadata" => (metadata()
            + "Pybi-Environment-Marker-Variables: {\"os_name\": \"posix\", \"python_version\": \"3.11\"}\n\
               Pybi-Paths: {\"stdlib\": \"lib/python3.11\", \"scripts\": \"bin\", \"data\": \".\"}\n\
               Pybi-Wheel-Tag: cp311-cp311-PLATFORM\nPybi-Wheel-Tag: py3-none-any\n\nhi\n")
            .into_bytes(),
        "rfc822" => metadata().into_bytes(),
        "entry-points" => format!(
            "[console_scripts]\n{}={}:main [x,y]\nfoo = a.b.c : d.e # hm\n\n[gui_scripts]\nq=qq:rr\n; c\n[other]\nx = y\n",
            gens::name(rng),
            gens::name(rng).replace('-', "_")
        )
        .into_bytes(),
        "index-page" => {
            let mut p = String::from("<!doctype html><html><head><meta name=\"pypi:repository-version\" content=\"1.0\"><base href=\"/x/\"></head><body>");
            for _ in 0..rng.usize(1..5) {
                p += &format!(
                    "<a href=\"{}#sha256={}\" data-requires-python=\"{}\" data-yanked>x</a><br>\n",
                    gens::wheel_name(rng), hexs(rng, 32), spec().replace('<', "&lt;")
                );
            }
            (p + "</body></html>").into_bytes()
        }
        "brief" => json!({
            "python": format!("cpython {}", spec()),
            "requirements": (0..rng.usize(0..4)).map(|_| gens::requirement(rng, false, 2).text).collect::<Vec<_>>(),
            "allow_pre": if rng.bool() { json!(":all:") } else { json!([gens::name(rng)]) },
        })
        .to_string()
        .into_bytes(),
        "blueprint" => json!({
            "pybi": {"name": "cpython", "version": "3.11.2", "hashes": [format!("sha256={}", hexs(rng, 32))]},
            "wheels": [[{"name": gens::name(rng), "version": g.version(false).canonical(), "hashes": [format!("sha256={}", hexs(rng, 32))]},
                {"provenance": "http://x/", "requires-dist": [gens::requirement(rng, true, 2).text], "requires-python": spec(), "extras": [gens::name(rng)]}]],
            "marker-expressions": {"python_version == '3.11'": true},
        })
        .to_string()
        .into_bytes(),
        _ => unreachable!(),
    }
}

const BITS: [&str; 74] = [
    "(", ")", "[", "]", "((((((((", "))))))))", "'", "\"", ";", ",", "==", "===", "~=", "!=", "<", ">", "<=", ">=", ".*", "*", "+", "!",
    "1!", "999999999999999999999999", "4294967295", "4294967296", "18446744073709551616", ".", "..", "../../", "/", "\\", "\0", "\r", "\n", "\r\n", "\t", " ", "  ",
    "\u{a0}", "\u{2028}", "é", "İ", "ß", "𝔘", "\u{feff}", "-", "--", "_", "=", "==1", "#", ":", "::", "@", "and", " or ", " not in ", "in", "extra", "python_version",
    "os_name", "dev", "post", "rc1", "a", "-1", ".whl", ".pybi", ".tar.gz", "<a href=", "</", "{", "}",
];

fn mutate(rng: &fastrand::Rng, mut b: Vec<u8>, other: &[u8]) -> Vec<u8> {
    for _ in 0..rng.usize(1..5) {
        let at = |rng: &fastrand::Rng, b: &Vec<u8>| rng.usize(0..=b.len());
        match rng.u8(0..8) {
            0 => {
                let i = at(rng, &b);
                b.insert(i, rng.u8(..));
            }
            1 if !b.is_empty() => {
                let i = rng.usize(..b.len());
                b.remove(i);
            }
            2 if !b.is_empty() => {
                let i = rng.usize(..b.len());
                b[i] = rng.u8(..);
            }
            3 if !b.is_empty() => {
                let i = rng.usize(..b.len());
                let j = (i + rng.usize(1..12)).min(b.len());
                let p = b[i..j].to_vec();
                let k = at(rng, &b);
                for _ in 0..rng.usize(1..6) {
                    b.splice(k..k, p.clone());
                }
            }
            4 if !b.is_empty() => {
                let i = rng.usize(..b.len());
                let j = (i + rng.usize(1..20)).min(b.len());
                b.drain(i..j);
            }
            5 => {
                let k = at(rng, &b);
                let i = rng.usize(0..=other.len());
                let j = (i + rng.usize(0..20)).min(other.len());
                b.splice(k..k, other[i..j].to_vec());
            }
            6 if !b.is_empty() => {
                let i = rng.usize(..b.len());
                b.truncate(i);
            }
            _ => {
                let k = at(rng, &b);
                b.splice(k..k, pick(rng, &BITS).bytes());
            }
        }
    }
    b
}

type Growing = Box<dyn Fn(usize) -> String + Send>;

/// Families of inputs that grow with n, aimed at backtracking, recursion and quadratic loops.
fn families() -> Vec<(&'static str, &'static str, Growing)> {
    let mut v: Vec<(&'static str, &'static str, Growing)> = vec![];
    fn rep(s: &'static str) -> impl Fn(usize) -> String {
        move |n| s.repeat(n / s.len().max(1))
    }
    fn wrap(a: &'static str, s: &'static str, z: &'static str) -> Growing {
        Box::new(move |n| format!("{a}{}{z}", rep(s)(n)))
    }
    fn nest(a: &'static str, o: &'static str, m: &'static str, c: &'static str, z: &'static str) -> Growing {
        Box::new(move |n| {
            let k = n / (o.len() + c.len()).max(1);
            format!("{a}{}{m}{}{z}", o.repeat(k), c.repeat(k))
        })
    }
    for k in ["marker", "user-requirement", "package-requirement"] {
        let p = if k == "marker" { "" } else { "foo; " };
        v.push((k, "parens", nest(p, "(", "os_name == 'x'", ")", "")));
        v.push((k, "parens open", nest(p, "(", "os_name == 'x'", "", "")));
        v.push((k, "parens spaced", nest(p, "( ", "os_name == 'x'", " )", "")));
        v.push((k, "parens and", nest(p, "(os_name == 'x' and ", "os_name == 'x'", ")", "")));
        v.push((k, "parens or after", nest(p, "(", "os_name == 'x'", " or os_name == 'y')", "")));
        v.push((k, "parens bad end", nest(p, "(", "os_name == 'x'", ")", " !")));
        v.push((k, "and chain", wrap(p, "os_name == 'x' and ", "os_name == 'y'")));
        v.push((k, "or chain", wrap(p, "os_name != 'x' or ", "os_name == 'y'")));
        v.push((k, "mixed chain", wrap(p, "os_name != 'x' or python_version >= '3' and ", "os_name == 'y'")));
        v.push((k, "chain bad end", wrap(p, "os_name == 'x' and ", "os_name == 'y")));
        v.push((k, "long string", wrap(if k == "marker" { "os_name == '" } else { "foo; os_name == '" }, "y", "'")));
        v.push((k, "version string", wrap(if k == "marker" { "python_version == '" } else { "foo; python_version == '" }, "1.", "0'")));
        v.push((k, "in string", wrap(if k == "marker" { "'yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyz' in '" } else { "foo; 'yyyyyyyyyyyyyyyz' in '" }, "y", "'")));
        v.push((k, "blanks", wrap(p, " ", "os_name == 'y'")));
        v.push((k, "blanks inside", wrap(if k == "marker" { "os_name" } else { "foo; os_name" }, " ", "== 'y'")));
    }
    for k in ["user-requirement", "package-requirement", "python-requirement", "specifiers"] {
        let p = if k == "specifiers" { "" } else { "foo " };
        let pp = if k == "specifiers" { "==" } else { "foo ==" };
        v.push((k, "spec chain", wrap(p, ">=1,", ">=1")));
        v.push((k, "spec ne chain", wrap(p, "!=1.5.*,", "!=1")));
        v.push((k, "spec distinct", Box::new(move |n| format!("{p}{}", (0..n / 12).map(|i| format!("!=1.{i}.*")).collect::<Vec<_>>().join(",")))));
        v.push((k, "spec blanks", wrap(p, " ", ">=1")));
        v.push((k, "spec long release", wrap(pp, "1.", "0")));
        v.push((k, "spec long zero release", wrap(pp, "0.", "0")));
        v.push((k, "spec long star", wrap(pp, "1.", "*")));
        v.push((k, "spec long local", wrap(if k == "specifiers" { "==1+" } else { "foo ==1+" }, "a.", "0")));
        v.push((k, "spec digits", wrap(pp, "1", "")));
        v.push((k, "spec commas", wrap(p, ",", "")));
        v.push((k, "spec parens", nest(p, "(", ">=1", ")", "")));
        v.push((k, "spec compat", wrap(if k == "specifiers" { "~=" } else { "foo ~=" }, "3.", "4")));
    }
    for k in ["user-requirement", "package-requirement"] {
        v.push((k, "extras", wrap("foo[", "bar,", "baz]")));
        v.push((k, "extras open", wrap("foo[", "bar,", "baz")));
        v.push((k, "extras blanks", wrap("foo[bar", " ", ",x]")));
        v.push((k, "long name", wrap("f", "o", "")));
        v.push((k, "name separators", wrap("f", "-", "o")));
        v.push((k, "url", wrap("foo @ http://", "x/", "")));
        v.push((k, "leading blanks", wrap("", " ", "foo")));
    }
    v.push(("version", "release", wrap("", "1.", "0")));
    v.push(("version", "zeros", wrap("", "0.", "0")));
    v.push(("version", "zero digits", wrap("", "0", "")));
    v.push(("version", "digits", wrap("", "9", "")));
    v.push(("version", "local", wrap("1+", "a.", "0")));
    v.push(("version", "local digits", wrap("1+", "1", "")));
    v.push(("version", "epochs", wrap("", "1!", "0")));
    v.push(("version", "blanks", wrap("1", " ", "")));
    v.push(("version", "leading blanks", wrap("", " ", "1x")));
    v.push(("version", "words", wrap("1", "post", "")));
    v.push(("version", "dots", wrap("1", ".", "")));
    for k in ["package-name", "extra"] {
        v.push((k, "long", wrap("a", "bcd", "")));
        v.push((k, "separators", wrap("a", "-_.", "b")));
        v.push((k, "separators end", wrap("a", "-_.", "")));
        v.push((k, "blanks", wrap("a", " ", "")));
        v.push((k, "alternating", wrap("a", "-b", "")));
    }
    v.push(("artifact-name", "tags", wrap("foo-1.0-", "py3.", "py3-none-any.whl")));
    v.push(("artifact-name", "dashes", wrap("foo", "-1", ".whl")));
    v.push(("artifact-name", "dashes sdist", wrap("foo", "-1", ".tar.gz")));
    v.push(("artifact-name", "dashes only", wrap("foo", "-", ".zip")));
    v.push(("artifact-name", "long version", wrap("foo-1", ".1", ".zip")));
    v.push(("artifact-name", "long name", wrap("f", "o_", "-1.0.tar.gz")));
    v.push(("artifact-name", "pybi platforms", wrap("cpython-3.11-", "linux_x86_64.", "any.pybi")));
    v.push(("artifact-name", "build number", wrap("foo-1.0-", "1", "-py3-none-any.whl")));
    v.push(("artifact-name", "tag product", Box::new(|n| {
        let k = n / 6;
        format!("foo-1.0-{}x-{}y-{}z.whl", "a.".repeat(k), "b.".repeat(k), "c.".repeat(k))
    })));
    v.push(("artifact-name", "universal2 pybi", wrap("cpython-3.11-", "macosx_11_0_universal2.", "any.pybi")));
    v.push(("index-page", "tag product", Box::new(|n| {
        let k = n / 6;
        format!("<a href='foo-1.0-{}x-{}y-{}z.whl'>x</a>", "a.".repeat(k), "b.".repeat(k), "c.".repeat(k))
    })));
    v.push(("artifact-hash", "hex", wrap("sha256=", "0a", "")));
    v.push(("artifact-hash", "mode", wrap("s", "ha", "=00")));
    v.push(("artifact-hash", "equals", wrap("sha256", "=", "")));
    for k in ["wheel-metadata", "rfc822", "pybi-metadata"] {
        let h = "Metadata-Version: 2.1\nName: foo\nVersion: 1\n";
        v.push((k, "fields", wrap(h, "A: b\n", "\n")));
        v.push((k, "requires", wrap(h, "Requires-Dist: foo (>=1); extra == 'x'\n", "\n")));
        v.push((k, "extras", wrap(h, "Provides-Extra: foo\n", "\n")));
        v.push((k, "wheel tags", wrap(h, "Pybi-Wheel-Tag: a-b-PLATFORM\n", "Pybi-Environment-Marker-Variables: {}\nPybi-Paths: {}\n\n")));
        v.push((k, "folded", wrap("Metadata-Version: 2.1\nName: foo\nVersion: 1\nX: y", "\n  z", "\n\nbody")));
        v.push((k, "body", wrap("Metadata-Version: 2.1\nName: foo\nVersion: 1\n\n", "body\n", "")));
        v.push((k, "blank lines", wrap(h, "\n", "")));
        v.push((k, "crs", wrap(h, "\r", "")));
        v.push((k, "colons", wrap(h, ":", "")));
        v.push((k, "field name", wrap(h, "a", ": b")));
        v.push((k, "separator blanks", wrap("Metadata-Version: 2.1\nName: foo\nVersion: 1\nX:", " ", "y\n")));
        v.push((k, "requires nested", nest("Metadata-Version: 2.1\nName: foo\nVersion: 1\nRequires-Dist: x; ", "(", "os_name == 'x'", ")", "\n")));
        v.push((k, "json depth", nest("Metadata-Version: 2.1\nName: foo\nVersion: 1\nPybi-Paths: {}\nPybi-Environment-Marker-Variables: ", "[", "", "]", "\n")));
        v.push((k, "path depth", wrap("Metadata-Version: 2.1\nName: foo\nVersion: 1\nPybi-Environment-Marker-Variables: {}\nPybi-Paths: {\"a\": \"", "b/", "\"}\n")));
    }
    v.push(("entry-points", "entries", wrap("[console_scripts]\n", "a = b.c:d\n", "")));
    v.push(("entry-points", "sections", wrap("", "[a]\nx=yy:zz\n", "")));
    v.push(("entry-points", "blanks", wrap("[a]\n", " ", "")));
    v.push(("entry-points", "blanks in line", wrap("[a]\nx", " ", "y")));
    v.push(("entry-points", "equals", wrap("[a]\n", "=", "")));
    v.push(("entry-points", "brackets", wrap("[a]\nx = yy:zz ", "[", "]")));
    v.push(("entry-points", "comments", wrap("[a]\n", "#;", "")));
    v.push(("entry-points", "header", wrap("[", "[]", "]")));
    v.push(("entry-points", "dotted", wrap("[a]\nx = a", ".b", ":")));
    v.push(("index-page", "links", wrap("", "<a href=foo-1.0.tar.gz>", "")));
    v.push(("index-page", "closed links", wrap("", "<a href=foo-1.0.tar.gz>x</a>", "")));
    v.push(("index-page", "divs", wrap("", "<div>", "")));
    v.push(("index-page", "formatting", wrap("", "<b><i><p>", "")));
    v.push(("index-page", "tables", wrap("", "<table><tr><td>", "")));
    v.push(("index-page", "templates", wrap("", "<template>", "")));
    v.push(("index-page", "templates closed", nest("", "<template>", "<a href=foo-1.0.zip>", "</template>", "")));
    v.push(("index-page", "svg", wrap("", "<svg><foreignObject>", "")));
    v.push(("index-page", "math", wrap("", "<math><mi>", "</p>")));
    v.push(("index-page", "entities", wrap("<a href='", "&amp;", "'>")));
    v.push(("index-page", "percents", wrap("<a href='foo-1.0", "%41", ".tar.gz'>")));
    v.push(("index-page", "attributes", Box::new(|n| format!("<a {} href=foo-1.zip>", (0..n / 8).map(|i| format!("a{i}=x ")).collect::<String>()))));
    v.push(("index-page", "text", wrap("", "x<", "")));
    v.push(("index-page", "comment", wrap("<!--", "-", "")));
    v.push(("index-page", "path", wrap("<a href='", "x/../", "foo-1.0.zip'>")));
    v.push(("index-page", "selects", wrap("", "<select><option><a href=foo-1.0.zip>", "")));
    v.push(("brief", "array depth", nest("{\"python\": ", "[", "", "]", "}")));
    v.push(("brief", "object depth", nest("{\"python\": \"p\", \"requirements\": [], \"zzz\": ", "{\"a\":", "1", "}", "}")));
    v.push(("brief", "requirements", wrap("{\"python\": \"cpython\", \"requirements\": [", "\"foo >= 1\",", "\"x\"]}")));
    v.push(("brief", "allow pre", wrap("{\"python\": \"cpython\", \"requirements\": [], \"allow_pre\": [", "\"foo\",", "\"x\"]}")));
    v.push(("brief", "nested marker", nest("{\"python\": \"cpython\", \"requirements\": [\"foo; ", "(", "os_name == 'x'", ")", "\"]}")));
    v.push(("brief", "escapes", wrap("{\"python\": \"", "\\u0041", "\", \"requirements\": []}")));
    v.push(("blueprint", "wheels", wrap("{\"pybi\": {\"name\": \"a\", \"version\": \"1\", \"hashes\": []}, \"marker-expressions\": {}, \"wheels\": [",
        "[{\"name\": \"a\", \"version\": \"1\", \"hashes\": []}, {\"provenance\": \"\", \"requires-dist\": [], \"requires-python\": \"\", \"extras\": []}],",
        "[{\"name\": \"a\", \"version\": \"1\", \"hashes\": []}, {\"provenance\": \"\", \"requires-dist\": [], \"requires-python\": \"\", \"extras\": []}]]}")));
    v.push(("blueprint", "marker nest", nest("{\"pybi\": {\"name\": \"a\", \"version\": \"1\", \"hashes\": []}, \"wheels\": [], \"marker-expressions\": {\"", "(", "os_name == 'x'", ")", "\": true}}")));
    v
}

const HEADERS: [&str; 20] = [
    "Content-Length", "Content-Type", "Content-Range", "Cache-Control", "ETag", "Last-Modified", "Expires", "Date", "Age",
    "Vary", "Location", "Transfer-Encoding", "Content-Encoding", "Set-Cookie", "Retry-After", "Pragma", "Connection", "Accept-Ranges", "X-Foo", "Warning",
];

fn http_raw(rng: &fastrand::Rng) -> Vec<u8> {
    let vals: [&[u8]; 44] = [
        b"", b"0", b"5", b"-1", b"99999999999999999999", b"18446744073709551615", b"text/html", b"text/html; charset=\"", b";;;", b"text/", b"/",
        b"bytes 0-1/5", b"bytes 0-1/*", b"bytes */5", b"bytes 5-0/2", b"bytes 0-99999999999999999999/5", b"bytes 0-1/18446744073709551615", b"bytes", b"items 1-2/3",
        b"max-age=99999999999999999999999", b"max-age=-5", b"max-age=\"", b"no-store, no-store=\"", b"public, max-age=60, stale-while-revalidate=99999999999999999999", b"\"etag\"", b"W/\"", b"W/", b"\xff\xfe",
        b"Thu, 01 Jan 1970 00:00:00 GMT", b"Thu, 99 Foo 99999 00:00:00 GMT", b"0", b"Fri, 31 Dec 9999999 23:59:59 GMT", b"18446744073709551615", b"*", b"Accept-Encoding, X-Foo, , ,", b"/foo", b"http://[", b"gzip", b"chunked", b"chunked, chunked",
        b"identity", b"\"\x80\"", b"a=b; c", b"close",
    ];
    let status = *pick(rng, &["200", "200", "200", "206", "206", "404", "304", "301", "302", "416", "999", "100", "099", "abc", "20", "70000"]);
    let mut o = format!("{} {status} {}\r\n", pick(rng, &["HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/9.9", "HTP"]), pick(rng, &["OK", "", "\u{e9}"])).into_bytes();
    for _ in 0..rng.usize(0..8) {
        let h = *pick(rng, &HEADERS);
        // permanent-redirect loops and waits are C07/C25's business; keep targets local
        o.extend(h.as_bytes());
        o.extend(pick(rng, &[&b": "[..], b":", b": ", b":", b": ", b" : ", b"\t:"]).iter());
        match rng.u8(0..8) {
            0 => o.extend((0..rng.usize(0..20)).map(|_| rng.u8(..)).filter(|b| *b != b'\n')),
            1 => o.extend(b"x".repeat(rng.usize(0..5000))),
            2 if h == "Content-Range" => o.extend(format!("bytes {}-{}/{}", rng.u64(0..10), rng.u64(0..10), rng.u64(0..10)).bytes()),
            _ => o.extend(*pick(rng, &vals)),
        }
        o.extend(pick(rng, &[&b"\r\n"[..], b"\r\n", b"\r\n", b"\n"]).iter());
    }
    if chance(rng, 3) {
        o.extend(b"NoColonHere\r\n");
    }
    if !chance(rng, 5) {
        o.extend(b"\r\n");
    }
    o.extend(pick(rng, &[&b""[..], b"<a href=foo-1.0.tar.gz>", b"5\r\nhello\r\n0\r\n\r\n", b"zz\r\nhello", b"\x1f\x8b\x08\0\0\0\0\0\0\x03", b"hello"]).iter());
    o
}

/// The i-th input of a kind: valid, or mutated, spliced with another kind, or junk.
fn input(rng: &fastrand::Rng, ki: usize, i: usize) -> Vec<u8> {
    let base = valid(rng, KINDS[ki]);
    match i % 5 {
        0 => base,
        1 => {
            let other = KINDS[rng.usize(..KINDS.len())];
            mutate(rng, base, &valid(rng, other))
        }
        4 if chance(rng, 20) => (0..rng.usize(0..60)).map(|_| rng.u8(..)).collect(),
        4 if chance(rng, 30) => (0..rng.usize(0..12)).flat_map(|_| pick(rng, &BITS).bytes()).collect(),
        _ => {
            let o = base.clone();
            mutate(rng, base, &o)
        }
    }
}

/// Run one family at growing sizes; returns (bytes, µs) pairs.
fn family(
    w: &mut Worker,
    kind: &str,
    what: &str,
    f: &dyn Fn(usize) -> String,
    sizes: &[usize],
    violate: &mut dyn FnMut(String, String),
) -> Vec<(usize, u64)> {
    let limit = Duration::from_secs(60);
    let idx = KINDS.iter().position(|x| *x == kind).unwrap() as u8;
    let sig = |c: &str| format!("{c}-{kind}-{what}").replace(' ', "_");
    let mut todo: Vec<usize> = sizes.iter().rev().copied().collect();
    let mut times: Vec<(usize, u64)> = vec![];
    let mut slow_from = None;
    while let Some(n) = todo.pop() {
        let s = f(n);
        let shown = format!("{kind} / {what}, {} bytes: {:?}\n(bytes, µs) so far: {times:?}", s.len(), truncate(&s, 300));
        let us = match w.run(idx, s.as_bytes(), limit) {
            Ran::Done { code: 2, detail, .. } => {
                violate(sig("panic"), format!("{shown}\n{detail}"));
                break;
            }
            Ran::Died(st) => {
                violate(sig("died"), format!("process died ({st})\n{shown}"));
                break;
            }
            Ran::Hung => {
                violate(sig("superlinear"), format!("no answer in {limit:?}\n{shown}"));
                break;
            }
            Ran::Done { us, .. } => us,
        };
        times.push((s.len(), us));
        match slow_from {
            None if us > 400_000 || (us > 100_000 && todo.is_empty()) => {
                slow_from = Some(times.len() - 1);
                todo = vec![n * 4, n * 2];
            }
            Some(i) if times.len() == i + 3 => {
                let t = |k: usize| times[k].1 as f64;
                if t(i + 1) > t(i) * 3.0 && t(i + 2) > t(i + 1) * 3.0 {
                    violate(sig("superlinear"), format!("{shown}\nlast: {us} µs"));
                }
            }
            _ => {}
        }
    }
    times
}

pub fn run_(mut ctx: Ctx) -> ! {
    ctx.rule = "one parser fed one input in a child process (8 MiB stack); distinct non-trivial = distinct input".into();
    ctx.assumptions.push("time is CPU time of an unoptimised build; only growth far beyond linear on inputs up to 256 KiB is reported".into());
    let rng = ctx.rng.clone();
    // 1. valid and mutated inputs of every kind, the kinds spread over parallel workers
    let mut per: BTreeMap<String, [u64; 2]> = BTreeMap::new();
    let n = ctx.n(3000, 40_000);
    let until = std::time::Instant::now() + Duration::from_secs(ctx.n(120, 1000) as u64);
    let jobs = Arc::new(Mutex::new((0..KINDS.len()).collect::<Vec<_>>()));
    let (tx, rx) = channel();
    let seed = rng.u64(..);
    for _ in 0..8 {
        let (jobs, tx) = (jobs.clone(), tx.clone());
        std::thread::spawn(move || {
            let mut w = Worker::start();
            loop {
                let Some(ki) = jobs.lock().unwrap().pop() else { return };
                let rng = fastrand::Rng::with_seed(seed ^ (ki as u64) << 32);
                for i in 0..n {
                    if std::time::Instant::now() > until {
                        break;
                    }
                    let data = input(&rng, ki, i);
                    let r = w.run(ki as u8, &data, Duration::from_secs(30));
                    if tx.send((ki, i, data, r)).is_err() {
                        return;
                    }
                }
            }
        });
    }
    drop(tx);
    for (ki, i, data, r) in rx {
        let kind = KINDS[ki];
        ctx.case((kind, &data), true);
        let shown = || format!("{kind}: {:?}", truncate(&String::from_utf8_lossy(&data), 3000));
        match r {
            Ran::Done { code: 2, detail, .. } => ctx.violate(&format!("panic-{kind}-{}", panic_site(&detail)), format!("{}\n{detail}", shown())),
            Ran::Done { code, us, .. } => {
                per.entry(kind.to_string()).or_default()[(code != 0) as usize] += 1;
                if us > 5_000_000 {
                    ctx.violate(&format!("slow-{kind}"), format!("{us} µs of CPU for {} bytes\n{}", data.len(), shown()));
                }
            }
            Ran::Died(s) => ctx.violate(&format!("died-{kind}"), format!("process died ({s})\n{}", shown())),
            Ran::Hung => ctx.violate(&format!("hang-{kind}"), format!("no answer in 30 s\n{}", shown())),
        }
        if i == 0 {
            ctx.sample(json!({"kind": kind, "input": truncate(&String::from_utf8_lossy(&data), 200)}));
        }
    }
    for (k, [a, b]) in &per {
        ctx.count(&format!("{k} accepted"), *a);
        ctx.count(&format!("{k} rejected"), *b);
        if *a == 0 || *b == 0 {
            ctx.problem(format!("{k}: {a} accepted, {b} rejected"));
        }
    }

    // 2. growth: CPU time must not grow much faster than the input
    // Each family runs at growing sizes. Beyond 0.4 s the growth is judged by doubling twice
    // more: a linear algorithm doubles its time (once it may jump, when the regex engine
    // switches to a slower strategy), a quadratic one quadruples it both times.
    let sizes: &[usize] = match ctx.tier {
        Tier::Quick => &[2_000, 16_000, 48_000],
        Tier::Thorough => &[1_000, 4_000, 16_000, 64_000, 192_000],
    };
    let mut slowest = (0u64, String::new());
    let verbose = std::env::var_os("VERIF_GROWTH").is_some();
    let found = Arc::new(Mutex::new(vec![]));
    let runs = Arc::new(Mutex::new(vec![]));
    let jobs = Arc::new(Mutex::new(families().into_iter().rev().collect::<Vec<_>>()));
    let threads: Vec<_> = (0..8)
        .map(|_| {
            let (jobs, found, runs) = (jobs.clone(), found.clone(), runs.clone());
            let sizes = sizes.to_vec();
            std::thread::spawn(move || {
                let mut w = Worker::start();
                loop {
                    let Some((kind, what, f)) = jobs.lock().unwrap().pop() else { return };
                    let times = family(&mut w, kind, what, &*f, &sizes, &mut |sig, d| found.lock().unwrap().push((sig, d)));
                    runs.lock().unwrap().push((kind, what, times));
                }
            })
        })
        .collect();
    for t in threads {
        if t.join().is_err() {
            ctx.problem("growth thread died");
        }
    }
    for (sig, d) in found.lock().unwrap().drain(..) {
        ctx.violate(&sig, d);
    }
    for (kind, what, times) in runs.lock().unwrap().drain(..) {
        for (n, us) in times {
            ctx.case((kind, what, n), true);
            ctx.count("growth runs", 1);
            if us > slowest.0 {
                slowest = (us, format!("{kind}/{what}/{n}"));
            }
            if verbose {
                println!("{kind:20} {what:22} {n:8} {us:10} µs");
            }
        }
    }
    ctx.count("slowest growth run (µs)", slowest.0);
    ctx.sample(json!({"slowest growth run": slowest.1, "us": slowest.0}));

    // 3. raw HTTP answers, spread over parallel workers (some answers are retried for 8 s)
    let jobs: Arc<Mutex<Vec<Vec<u8>>>> = Arc::new(Mutex::new((0..ctx.n(400, 6000)).map(|_| http_raw(&rng)).collect()));
    let results = Arc::new(Mutex::new(vec![]));
    let until = std::time::Instant::now() + Duration::from_secs(ctx.n(30, 400) as u64);
    let threads: Vec<_> = (0..24)
        .map(|_| {
            let (jobs, results) = (jobs.clone(), results.clone());
            std::thread::spawn(move || {
                let mut w = Worker::start();
                loop {
                    if std::time::Instant::now() > until {
                        return;
                    }
                    let Some(j) = jobs.lock().unwrap().pop() else { return };
                    let r = w.run(HTTP_KIND, &j, Duration::from_secs(300));
                    results.lock().unwrap().push((j, r));
                }
            })
        })
        .collect();
    for t in threads {
        let _ = t.join();
    }
    for (raw, r) in results.lock().unwrap().drain(..) {
        ctx.case(("http", &raw), true);
        let shown = || format!("server answered: {:?}", truncate(&String::from_utf8_lossy(&raw), 3000));
        match r {
            Ran::Done { code: 2, detail, .. } => ctx.violate(&format!("panic-http-{}", panic_site(&detail)), format!("{}\n{detail}", shown())),
            Ran::Done { code, us, .. } => {
                ctx.count(if code == 0 { "http ok" } else { "http error" }, 1);
                if us > 10_000_000 {
                    ctx.violate("slow-http", format!("{us} µs of CPU\n{}", shown()));
                }
            }
            Ran::Died(s) => ctx.violate("died-http", format!("process died ({s})\n{}", shown())),
            Ran::Hung => ctx.violate("hang-http", shown()),
        }
    }
    ctx.finish()
}
