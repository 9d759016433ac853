//! C19: installed environments run what their packages declare.
use crate::arch::*;
use crate::common::*;
use crate::pep508::normalize;
use crate::py::*;
use crate::world::*;
use posy::verif::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Entry,
    Script,
    /// not a '#!python' one
    Other,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum End {
    Code(i32),
    Signal(i32),
}

/// A program that a package brings along.
#[derive(Clone, Debug)]
struct Prog {
    name: String,
    kind: Kind,
    gui: bool,
    who: String,
    end: End,
    /// fails as listed in known_findings.txt
    docstring_and_future: bool,
    note: String,
}

struct Dist {
    name: String,
    version: String,
    file: File,
    progs: Vec<Prog>,
    /// module -> what its `who` is
    modules: BTreeMap<String, String>,
    entry_points: String,
}

const REPORT: &str = r#"
import json, os, sys
def report(who, f=None):
    with open(os.environ["C19_OUT"], "a") as o:
        o.write(json.dumps({"who": who, "argv": sys.argv, "pybi": os.environ.get("VERIF_PYBI"), "mark": os.environ.get("C19_MARK"),
            "path": sys.path, "main": sys.modules["__main__"].__name__, "stdin": sys.stdin.read()}) + "\n")
"#;

/// How a function ends, and how its process does then.
fn ending(rng: &fastrand::Rng) -> (String, End) {
    match rng.u8(0..9) {
        0 => ("return None".into(), End::Code(0)),
        1 => {
            let k = rng.i32(0..256);
            (format!("return {k}"), End::Code(k))
        }
        2 => ("return True".into(), End::Code(1)),
        3 => ("return 'sorry'".into(), End::Code(1)),
        4 => {
            let k = rng.i32(0..256);
            (format!("raise SystemExit({k})"), End::Code(k))
        }
        5 => ("raise ValueError('planned')".into(), End::Code(1)),
        6 => ("import os; os.kill(os.getpid(), 9)".into(), End::Signal(9)),
        7 => ("import os; os._exit(7)".into(), End::Code(7)),
        _ => ("pass".into(), End::Code(0)),
    }
}

fn function(path: &[&str], who: &str, end: &str) -> String {
    let mut s = String::new();
    let mut pad = String::new();
    for c in &path[..path.len() - 1] {
        s += &format!("{pad}class {c}:\n");
        pad += "    ";
        s += &format!("{pad}x = 1\n");
    }
    if path.len() > 1 {
        s += &format!("{pad}@staticmethod\n");
    }
    s += &format!("{pad}def {}(*a):\n{pad}    assert not a\n{pad}    from c19_report import report\n{pad}    report({})\n{pad}    {end}\n", path[path.len() - 1], serde_json::to_string(who).unwrap());
    s
}

fn ws(rng: &fastrand::Rng) -> &'static str {
    *pick(rng, &["", "", " ", " ", "  ", "\t", " \t"])
}

fn gen_name(rng: &fastrand::Rng, used: &mut BTreeSet<String>) -> String {
    loop {
        let base = *pick(rng, &["run", "x", "Run_It", "do-it", "a.b", "2to3", "a+b", "with space", "naïve", "π", "x.py", "tool.exe.sh", "_", "console_scripts", "a,b", "a@b", "(p)", "import"]);
        let name = if rng.bool() { base.to_string() } else { format!("{base}{}", rng.u8(..)) };
        if used.insert(name.to_lowercase()) {
            return name;
        }
    }
}

fn gen_dist(rng: &fastrand::Rng, i: usize, version: &str, used: &mut BTreeSet<String>) -> Dist {
    let name = format!("{}{i}", pick(rng, &["Pkg", "pkg-x", "pkg.y_z"]));
    let dist = name.replace(['-', '.'], "_");
    let mut d = Dist { name, version: version.into(), file: File::new("x", vec![]), progs: vec![], modules: BTreeMap::new(), entry_points: String::new() };
    let mut ms: Vec<M> = vec![];
    let tag = |what: &str| format!("{dist} {version} {what} #{}", rng.u32(..));
    // importable things
    let m = tag("module");
    ms.push(M::file(&format!("mod_{i}.py"), format!("who = {}\n", serde_json::to_string(&m).unwrap())));
    d.modules.insert(format!("mod_{i}"), m);
    if rng.bool() {
        // a part of a namespace package that several share
        let m = tag("namespace");
        ms.push(M::file(&format!("c19ns/part{i}.py"), format!("who = {}\n", serde_json::to_string(&m).unwrap())));
        d.modules.insert(format!("c19ns.part{i}"), m);
    }
    if chance(rng, 30) {
        // found through a .pth file
        let m = tag("pth");
        ms.push(M::file(&format!("c19-{i}.pth"), format!("# comment\nc19_inner{i}\n")));
        ms.push(M::file(&format!("c19_inner{i}/behind_pth{i}.py"), format!("who = {}\n", serde_json::to_string(&m).unwrap())));
        d.modules.insert(format!("behind_pth{i}"), m);
    }
    if chance(rng, 30) {
        let m = tag("platlib");
        ms.push(M::file(&format!("{dist}-{version}.data/platlib/plat_{i}.py"), format!("who = {}\n", serde_json::to_string(&m).unwrap())));
        d.modules.insert(format!("plat_{i}"), m);
    }
    // entry points
    let mut sections: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    let mut letters: Vec<char> = "abcdefghijk".chars().skip(i * 2).take(2).collect();
    for n in 0..rng.usize(0..6) {
        let object: &[&str] = *pick(rng, &[&["main"] as &[&str], &["f"], &["App", "run"], &["A", "B", "c"], &["été"], &["main_2"], &["_x"], &["O", "k"]]);
        let who = tag(&format!("entry {n}"));
        let (end, e) = ending(rng);
        let mut body = function(object, &who, &end);
        let mut note = String::new();
        if rng.bool() {
            // must only run as what was asked for
            body += "if __name__ == '__main__': raise RuntimeError('run as __main__')\n";
        }
        let module = match rng.u8(0..8) {
            0 if !letters.is_empty() => {
                let l = letters.remove(0).to_string();
                ms.push(M::file(&format!("{l}.py"), &body));
                l
            }
            1 => {
                ms.push(M::file(&format!("top{i}_{n}/__init__.py"), &body));
                format!("top{i}_{n}")
            }
            2 => {
                ms.push(M::file(&format!("ns{i}_{n}/sub/mod.py"), &body));
                format!("ns{i}_{n}.sub.mod")
            }
            3 if object.len() == 1 => {
                // the package hides its module behind the function
                note = "the package has an attribute with the module's name".into();
                let o = object[0];
                ms.push(M::file(&format!("hide{i}_{n}/__init__.py"), format!("from .{o} import {o}\n")));
                ms.push(M::file(&format!("hide{i}_{n}/{o}.py"), &body));
                format!("hide{i}_{n}.{o}")
            }
            4 => {
                ms.push(M::file(&format!("módulo{i}_{n}.py"), &body));
                format!("módulo{i}_{n}")
            }
            5 => {
                ms.push(M::file(&format!("pkg{i}_{n}/__init__.py"), "def main(): raise RuntimeError('wrong main')\nf = main\n"));
                ms.push(M::file(&format!("pkg{i}_{n}/cli.py"), &body));
                format!("pkg{i}_{n}.cli")
            }
            _ => {
                ms.push(M::file(&format!("_cli{i}_{n}.py"), &body));
                format!("_cli{i}_{n}")
            }
        };
        let gui = chance(rng, 30);
        let name = gen_name(rng, used);
        let extras = match rng.u8(0..5) {
            0 => format!("{}[{}]", ws(rng), pick(rng, &["a", "a,b", "a, b", " a , b-c ", ""])),
            _ => "".into(),
        };
        let line = format!("{name}{}={}{module}{}:{}{}{extras}{}", ws(rng), ws(rng), ws(rng), ws(rng), object.join("."), ws(rng));
        sections.entry(if gui { "gui_scripts" } else { "console_scripts" }).or_default().push(line);
        d.progs.push(Prog { name, kind: Kind::Entry, gui, who, end: e, docstring_and_future: false, note });
    }
    // sections that aren't scripts
    for s in ["pytest11", "Console_Scripts", "console_scripts.more", "a b", "gui", "x-y.z:w"] {
        if chance(rng, 20) {
            let v = sections.entry(s).or_default();
            for _ in 0..rng.usize(0..3) {
                v.push(format!("{}{}={}{}{}", pick(rng, &["not-a-script", "run", "n"]), rng.u8(..), ws(rng), pick(rng, &["mod_0", "x.y.z", "a:b", "a.b:c.d [e]", "q"]), ws(rng)));
            }
        }
    }
    for s in ["console_scripts", "gui_scripts"] {
        if chance(rng, 15) {
            sections.entry(s).or_default();
        }
    }
    if !sections.is_empty() || chance(rng, 20) {
        let nl = if chance(rng, 20) { "\r\n" } else { "\n" };
        let mut order: Vec<&str> = sections.keys().copied().collect();
        shuffle(rng, &mut order);
        let mut t = String::new();
        let noise = |t: &mut String| {
            for _ in 0..rng.usize(0..2) {
                *t += *pick(rng, &["", "   ", "\t", "# a comment", "; another = one:x", "#[console_scripts]", "#x=y:z", ";"]);
                *t += nl;
            }
        };
        for s in order {
            noise(&mut t);
            t += &format!("[{s}]{}{nl}", pick(rng, &["", "", " ", "\t"]));
            for l in &sections[s] {
                noise(&mut t);
                t += l;
                t += nl;
            }
        }
        noise(&mut t);
        if rng.bool() {
            t = t.trim_end_matches(nl).to_string();
        }
        d.entry_points = t.clone();
        ms.push(M::file(&format!("{dist}-{version}.dist-info/entry_points.txt"), t));
    }
    // scripts
    for n in 0..rng.usize(0..4) {
        let who = tag(&format!("script {n}"));
        let (end, e) = ending(rng);
        let (end, e) = if end.starts_with("return") { ("pass".into(), End::Code(0)) } else { (end, e) };
        let body = format!("from c19_report import report\nreport({})\n{end}\n", serde_json::to_string(&who).unwrap());
        let (mut kind, mut gui, mut daf) = (Kind::Script, false, false);
        let mut note = "";
        let text: Vec<u8> = match rng.u8(0..13) {
            0 | 1 => {
                gui = true;
                format!("#!pythonw\n{body}").into()
            }
            2 => format!("#!python\r\n{}", body.replace('\n', "\r\n")).into(),
            3 => {
                note = "latin-1";
                let mut v = format!("#!python\n{}\nassert len('", pick(rng, &["# -*- coding: latin-1 -*-", "# vim: set fileencoding=latin-1 :", "#coding=latin-1"])).into_bytes();
                v.extend([0xe9, 0xe8]);
                v.extend(format!("') == 2\n{body}").into_bytes());
                v
            }
            4 => format!("#!python\n# -*- coding: utf-8 -*-\nassert len('é😀') == 2\n{body}").into(),
            5 => format!("#!python\nfrom __future__ import annotations\n{body}").into(),
            6 => {
                kind = Kind::Other;
                let code = if let End::Code(k) = e { k } else { 3 };
                d.progs.push(Prog { name: String::new(), kind, gui: false, who: who.clone(), end: End::Code(code), docstring_and_future: false, note: "".into() });
                format!("#!/bin/sh\nprintf '%s\\n' '{{\"who\": \"{who}\", \"sh\": true}}' >> \"$C19_OUT\"\nexit {code}\n").into()
            }
            7 => {
                kind = Kind::Other;
                format!("#!/usr/bin/env python\n{body}").into()
            }
            8 if chance(rng, 30) => {
                daf = true;
                format!("#!python\n\"\"\"What this does.\"\"\"\nfrom __future__ import annotations\n{body}").into()
            }
            9 => format!("#!python\n\n\n{}", body.trim_end()).into(),
            10 => format!("#!python\n'''a docstring'''\nx = '''\n'''\n{body}").into(),
            // some more than what's read at once
            11 => format!("#!python\n{}\n{body}", "# filling\n".repeat(rng.usize(700..3000))).into(),
            _ => format!("#!python\n{body}").into(),
        };
        let name = gen_name(rng, used);
        ms.push(M::file(&format!("{dist}-{version}.data/scripts/{name}"), text));
        if kind == Kind::Other && d.progs.last().map_or(false, |p| p.name.is_empty()) {
            d.progs.last_mut().unwrap().name = name;
        } else {
            d.progs.push(Prog { name, kind, gui, who, end: e, docstring_and_future: daf, note: note.into() });
        }
    }
    let bytes = wheel_bytes(&dist, version, "Requires-Dist: c19-report\n", &ms);
    d.file = File::new(&format!("{dist}-{version}-py3-none-any.whl"), bytes);
    d
}

/// What the command line of a child asks for.
#[derive(serde::Serialize, serde::Deserialize)]
struct Job {
    cwd: Option<PathBuf>,
    forest: PathBuf,
    cache: PathBuf,
    url: String,
    python: String,
    reqs: Vec<String>,
}

#[derive(Default, serde::Serialize, serde::Deserialize)]
struct Made {
    vars: BTreeMap<String, String>,
    pins: BTreeMap<String, String>,
}

fn make(j: &Job) -> Out<Made> {
    run(|| {
        let forest = EnvForest::new(&j.forest)?;
        let store = KVDirStore::new(&j.cache.join("build-store"))?;
        let db = PackageDB::new(&[j.url.parse()?], &j.cache, &forest, &store)?;
        let plat = PybiPlatform::new(NATIVE);
        let brief = Brief {
            python: j.python.as_str().try_into()?,
            requirements: j.reqs.iter().map(|r| r.as_str().try_into()).collect::<Result<_, _>>()?,
            allow_pre: AllowPre::All,
        };
        let bp = brief.resolve(&db, &[&plat], None, &[])?;
        let env = forest.get_env(&db, &bp, &[&plat], &[])?;
        let mut made = Made::default();
        for (k, v) in env.env_vars()? {
            made.vars.insert(k.into(), v.into_string().map_err(|v| eyre::eyre!("{v:?}"))?);
        }
        made.pins = bp.wheels.iter().map(|(p, _)| (p.name.normalized().to_string(), p.version.to_string())).collect();
        Ok::<_, eyre::Report>(made)
    })
}

pub fn child(args: &[String]) -> ! {
    let j: Job = serde_json::from_str(&std::fs::read_to_string(&args[0]).unwrap()).unwrap();
    std::env::set_current_dir(j.cwd.as_ref().unwrap()).unwrap();
    match make(&j) {
        Out::Ok(m) => {
            std::fs::write(&args[1], serde_json::to_string(&m).unwrap()).unwrap();
            std::process::exit(0)
        }
        o => {
            eprintln!("{}", o.map(|_| ()).describe());
            std::process::exit(1)
        }
    }
}

struct Ran {
    end: Option<End>,
    entries: Vec<Value>,
    raw: String,
    stderr: String,
}

struct Place<'a> {
    dir: &'a Path,
    vars: BTreeMap<String, String>,
}

impl Place<'_> {
    fn run(&self, argv: &[&str], input: &str) -> Ran {
        let out = self.dir.join("out");
        let _ = std::fs::remove_file(&out);
        let mut c = Command::new("/usr/bin/env");
        c.args(argv).env_clear().envs(&self.vars).env("HOME", self.dir.join("home")).env("C19_OUT", &out).env("LC_ALL", "C.UTF-8");
        let r = c.current_dir(self.dir.join("elsewhere")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn();
        let mut child = r.expect("env");
        let _ = child.stdin.take().unwrap().write_all(input.as_bytes());
        let o = child.wait_with_output().expect("env");
        let end = o.status.code().map(End::Code).or(o.status.signal().map(End::Signal));
        let raw = std::fs::read_to_string(&out).unwrap_or_default();
        Ran { end, entries: read_log(&out), raw, stderr: String::from_utf8_lossy(&o.stderr).into_owned() }
    }
}

fn work(p: &mut Part) {
    let index = Index::new();
    let url = index.urls(1)[0].to_string();
    while p.within() {
        let rng = fastrand::Rng::with_seed(p.rng.u64(..));
        let tmp = scratch();
        let n = rng.usize(1..5);
        let dists: Vec<Vec<Dist>> = {
            let mut v = vec![];
            let mut used = BTreeSet::new();
            for i in 0..n {
                // versions of one project may well have the same scripts
                let before = used.clone();
                let a = gen_dist(&rng, i, "1.0", &mut used);
                let mut other = before;
                let mut b = gen_dist(&rng, i, "2.0", &mut other);
                if b.name != a.name {
                    // (a different spelling of the name would be a different project)
                    b = gen_dist_named(&rng, i, "2.0", &mut BTreeSet::new(), &a.name);
                }
                used.extend(b.progs.iter().map(|p| p.name.to_lowercase()));
                v.push(vec![a, b]);
            }
            v
        };
        // (with names used by more than one project it's open which one runs)
        let mut owner: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
        for (i, vs) in dists.iter().enumerate() {
            for q in vs.iter().flat_map(|d| &d.progs) {
                owner.entry(q.name.to_lowercase()).or_default().insert(i);
            }
        }
        let pythons: Vec<(String, File, Layout)> = {
            let mut vs = vec!["3.12.3", "3.11.9", "3.13.0"];
            shuffle(&rng, &mut vs);
            vs.truncate(2);
            vs.iter()
                .map(|v| {
                    let l = *pick(&rng, LAYOUTS);
                    (v.to_string(), real_pybi_at("cpython_unofficial", v, NATIVE, v, &l), l)
                })
                .collect()
        };
        let mut pages = Pages::new();
        for (_, f, _) in &pythons {
            add(&mut pages, 0, "cpython_unofficial", f.clone());
        }
        add(&mut pages, 0, "c19-report", File::new("c19_report-1.0-py3-none-any.whl", wheel_bytes("c19_report", "1.0", "", &[M::file("c19_report.py", REPORT)])));
        for d in dists.iter().flatten() {
            add(&mut pages, 0, &d.name, d.file.clone());
        }
        index.set(pages, rng.bool());

        // traps
        let home_lib = tmp.path().join("home/.local/lib");
        for v in ["python3.12", "python3.11", "python3.13"] {
            let d = home_lib.join(v).join("site-packages");
            std::fs::create_dir_all(&d).unwrap();
            std::fs::write(d.join("c19_user_trap.py"), "").unwrap();
            std::fs::write(d.join("usercustomize.py"), "import os\nopen(os.environ['C19_OUT'], 'a').write('usercustomize\\n')\n").unwrap();
        }
        let elsewhere = tmp.path().join("elsewhere");
        std::fs::create_dir_all(&elsewhere).unwrap();
        std::fs::write(elsewhere.join("c19_cwd_trap.py"), "").unwrap();
        std::fs::write(elsewhere.join("c19-cwd.pth"), "import os; open(os.environ['C19_OUT'], 'a').write('pth of the current directory\\n')\n").unwrap();

        let long = "d".repeat(120);
        let where_: String = match rng.u8(0..9) {
            0 => "with space/and  more".into(),
            1 => "it's \"quoted\"".into(),
            2 => "$HOME `x` $(y)".into(),
            3 => "ünï 😀".into(),
            4 => format!("{long}/{long}/{long}"),
            5 => "a;b&c|d*?[e]".into(),
            6 => "back\\slash%20".into(),
            _ => "forest".into(),
        };
        for round in 0..2 {
            let which = rng.usize(..pythons.len());
            let mut chosen: Vec<&Dist> = dists.iter().map(|v| &v[rng.usize(..2)]).filter(|_| chance(&rng, 75)).collect();
            if round == 0 && chance(&rng, 5) {
                chosen.clear();
            }
            let relative = chance(&rng, 20);
            let j = Job {
                cwd: relative.then(|| tmp.path().into()),
                forest: if relative { PathBuf::from(&where_) } else { tmp.path().join(&where_) },
                cache: tmp.path().join("cache"),
                url: url.clone(),
                python: format!("cpython_unofficial=={}", pythons[which].0),
                reqs: chosen.iter().map(|d| format!("{}=={}", d.name, d.version)).collect(),
            };
            let what = || {
                format!(
                    "{:?} with {} ({:?}) in {}{where_}\n{}",
                    j.reqs,
                    j.python,
                    pythons[which].2,
                    if relative { "(relative) " } else { "" },
                    chosen.iter().map(|d| format!("--- {}\n{}\n{}\n", d.name, d.entry_points, d.progs.iter().map(|p| format!("  {p:?}\n")).collect::<String>())).collect::<String>()
                )
            };
            p.begin(&what());
            let made = if relative {
                let (jp, op) = (tmp.path().join("job"), tmp.path().join("made"));
                std::fs::write(&jp, serde_json::to_string(&j).unwrap()).unwrap();
                let o = Command::new(std::env::current_exe().unwrap()).arg("c19-child").args([&jp, &op]).output().unwrap();
                p.count("relative locations", 1);
                if o.status.success() {
                    Out::Ok(serde_json::from_str(&std::fs::read_to_string(&op).unwrap()).unwrap())
                } else {
                    Out::Err(String::from_utf8_lossy(&o.stderr).into_owned())
                }
            } else {
                make(&j)
            };
            p.end();
            p.case(&(what(), round), true);
            let made = match made {
                Out::Ok(m) => m,
                o => {
                    p.violate("not-installed", format!("{}\n{}", o.describe(), what()));
                    continue;
                }
            };
            p.count("environments", 1);
            let expected: BTreeMap<String, String> = chosen
                .iter()
                .map(|d| (normalize(&d.name), d.version.clone()))
                .chain((!chosen.is_empty()).then(|| ("c19-report".to_string(), "1.0".to_string())))
                .collect();
            if made.pins != expected {
                p.violate("pins", format!("{:?}\n{}", made.pins, what()));
            }
            let root = tmp.path().join(&where_);
            let python = made.vars.get("POSY_PYTHON").cloned().unwrap_or_default();
            let layout = pythons[which].2;
            let pybi = Path::new(&python).ancestors().nth(1 + layout.scripts.split('/').count()).unwrap_or(Path::new("")).to_path_buf();
            let id = std::fs::read_to_string(pybi.join("which")).unwrap_or_default();
            if id != pythons[which].0 || !Path::new(&python).is_absolute() {
                p.violate("interpreter", format!("POSY_PYTHON={python} is {id:?}, not {}\n{}", pythons[which].0, what()));
                continue;
            }
            let pythonw = made.vars.get("POSY_PYTHONW").cloned().unwrap_or_default();
            if !(Path::new(&pythonw).starts_with(&pybi) && Path::new(&pythonw).exists()) {
                p.violate("interpreter", format!("POSY_PYTHONW={pythonw}\n{}", what()));
            }
            // an interpreter for gui scripts that can be told from the other
            let w = tmp.path().join("pythonw");
            std::fs::write(&w, format!("#!/bin/sh\nC19_MARK=w\nexport C19_MARK\nexec '{}' \"$@\"\n", pythonw.replace('\'', "'\\''"))).unwrap();
            std::fs::set_permissions(&w, std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
            let mut place = Place { dir: tmp.path(), vars: made.vars.clone() };
            place.vars.insert("POSY_PYTHONW".into(), w.to_string_lossy().into_owned());

            // what can be imported, as seen by whatever 'python' is on the PATH
            let probe = "import sys, os, json, importlib, importlib.metadata as m\nr = {'pybi': os.environ.get('VERIF_PYBI'), 'path': sys.path, 'dists': [[d.metadata['Name'], d.version] for d in m.distributions()], 'mods': {}, 'traps': [], 'argv': sys.argv[1:]}\nfor x in sys.argv[1:]:\n  try: r['mods'][x] = importlib.import_module(x).who\n  except Exception as e: r['mods'][x] = 'failed: ' + repr(e)\nfor x in ('c19_user_trap',):\n  try: importlib.import_module(x); r['traps'].append(x)\n  except ImportError: pass\nopen(os.environ['C19_OUT'], 'a').write(json.dumps(r) + '\\n')\n";
            let mods: BTreeMap<String, String> = chosen.iter().flat_map(|d| d.modules.clone()).collect();
            let mut argv = vec!["python", "-c", probe];
            argv.extend(mods.keys().map(|k| k.as_str()));
            let r = place.run(&argv, "");
            p.count("interpreters run", 1);
            let Some(v) = r.entries.first().filter(|_| r.end == Some(End::Code(0)) && r.entries.len() == 1 && r.raw.lines().count() == 1) else {
                p.violate("interpreter", format!("{:?} {}\n{}\n{}", r.end, truncate(&r.raw, 300), truncate(&r.stderr, 600), what()));
                continue;
            };
            let real_pybi_root = pybi.canonicalize().unwrap_or_default();
            if v["pybi"].as_str() != Some(&real_pybi_root.to_string_lossy()) {
                p.violate("interpreter", format!("python on the PATH is in {}, not {}\n{}", v["pybi"], pybi.display(), what()));
            }
            let got: BTreeMap<String, String> = v["mods"].as_object().into_iter().flatten().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").into())).collect();
            if got != mods {
                p.violate("imports", format!("{got:?}\ninstead of {mods:?}\n{}", what()));
            }
            let seen: BTreeMap<String, String> = v["dists"].as_array().into_iter().flatten().map(|d| (normalize(d[0].as_str().unwrap_or("")), d[1].as_str().unwrap_or("").into())).collect();
            if seen != expected {
                p.violate("distributions", format!("{seen:?} instead of {expected:?}\n{}", what()));
            }
            if v["traps"] != json!([]) {
                p.violate("foreign-packages", format!("{} can be imported\n{}", v["traps"], what()));
            }
            for s in v["path"].as_array().into_iter().flatten().filter_map(|s| s.as_str()) {
                if s.contains("/.local/lib/") || s.contains("elsewhere") {
                    p.violate("foreign-packages", format!("{s} is on sys.path\n{}", what()));
                }
            }

            // the programs
            let path: Vec<PathBuf> = std::env::split_paths(&made.vars["PATH"]).filter(|d| d.starts_with(&root)).collect();
            let mut there: BTreeMap<String, PathBuf> = BTreeMap::new();
            for d in &path {
                if *d == pybi.join(layout.scripts) {
                    continue;
                }
                for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                    there.insert(e.file_name().to_string_lossy().into_owned(), e.path());
                }
            }
            let mut wanted: BTreeSet<String> = BTreeSet::new();
            for q in chosen.iter().flat_map(|d| &d.progs) {
                wanted.insert(q.name.clone());
                if q.kind != Kind::Other {
                    wanted.insert(format!("{}.exe", q.name));
                }
            }
            let have: BTreeSet<String> = there.keys().cloned().collect();
            if have != wanted {
                p.violate("programs", format!("there are {:?} too many, {:?} are missing\n{}", have.difference(&wanted).collect::<Vec<_>>(), wanted.difference(&have).collect::<Vec<_>>(), what()));
            }
            let mut all: Vec<&Prog> = chosen.iter().flat_map(|d| &d.progs).filter(|q| owner[&q.name.to_lowercase()].len() == 1).collect();
            shuffle(&rng, &mut all);
            for q in all.into_iter().take(6) {
                if !p.within() {
                    break;
                }
                let Some(file) = there.get(&q.name) else { continue };
                let mut args: Vec<&str> = vec![];
                for _ in 0..rng.usize(0..5) {
                    args.push(*pick(&rng, &["", "plain", "two words", "-c", "--help", "it's", "\"", "$HOME", "*", "a\nb", "\\", "ü😀", "-", "--", "#", "x=y", "-E"]));
                }
                let input = pick(&rng, &["", "in\nput", "ünï"]).to_string();
                let what = || format!("{q:?} with {args:?}\n{}", what());
                // directly, or as on Windows
                let exe = q.kind != Kind::Other && chance(&rng, 25);
                let exe_path = format!("{}.exe", file.to_string_lossy());
                let mut argv: Vec<&str> = if exe { vec![if q.gui { &place.vars["POSY_PYTHONW"] } else { "python" }, &exe_path] } else { vec![&q.name] };
                argv.extend(&args);
                let r = place.run(&argv, &input);
                p.count(if exe { "windows launchers run" } else { "programs run" }, 1);
                p.case(&what(), true);
                let sig = if q.docstring_and_future && !exe { "docstring-before-future-import" } else { "program" };
                if r.end != Some(q.end) || r.entries.len() != 1 || r.raw.lines().count() != 1 {
                    p.violate(sig, format!("{}{:?} instead of {:?}, reports {}\n{}\n{}", if q.docstring_and_future && !exe { "on Unix, a script with a docstring before its 'from __future__ import' fails: " } else { "" }, r.end, q.end, truncate(&r.raw, 300), truncate(&r.stderr, 700), what()));
                    continue;
                }
                let v = &r.entries[0];
                if v["who"] != json!(q.who) {
                    p.violate("other-program", format!("{} ran\n{}", v["who"], what()));
                    continue;
                }
                if v["sh"] == json!(true) {
                    continue;
                }
                let argv: Vec<&str> = v["argv"].as_array().into_iter().flatten().filter_map(|x| x.as_str()).collect();
                if argv.len() != args.len() + 1 || argv[1..] != args[..] {
                    p.violate("arguments", format!("{argv:?}\n{}", what()));
                } else if let Some(base) = Path::new(argv[0]).file_name() {
                    let base = base.to_string_lossy();
                    if base != q.name.as_str() && !(exe && q.kind == Kind::Script && base == format!("{}.exe", q.name)) {
                        p.violate("arguments", format!("argv[0] is {:?}\n{}", argv[0], what()));
                    }
                }
                if v["pybi"].as_str() != Some(&real_pybi_root.to_string_lossy()) {
                    p.violate("interpreter", format!("runs with {}, not {}\n{}", v["pybi"], pybi.display(), what()));
                }
                if q.kind != Kind::Other && (v["mark"] == json!("w")) != q.gui {
                    p.violate("console-or-gui", format!("{}\n{}", v["mark"], what()));
                }
                if v["stdin"] != json!(input) {
                    p.violate("stdin", format!("{}\n{}", v["stdin"], what()));
                }
                if v["main"] != json!("__main__") {
                    p.violate("program", format!("{}\n{}", v["main"], what()));
                }
                for s in v["path"].as_array().into_iter().flatten().filter_map(|s| s.as_str()) {
                    if s.contains("/.local/lib/") || s.contains("elsewhere") || s.is_empty() {
                        p.violate("foreign-packages", format!("{s:?} is on sys.path\n{}", what()));
                    }
                }
                if !q.note.is_empty() {
                    p.count(&format!("special: {}", q.note), 1);
                }
                if exe {
                    // the launcher before the archive: console or window?
                    let b = std::fs::read(&exe_path).unwrap_or_default();
                    let at = b.get(0x3c..0x40).map_or(0, |x| u32::from_le_bytes(x.try_into().unwrap()) as usize);
                    let subsystem = b.get(at + 92..at + 94).map(|x| u16::from_le_bytes(x.try_into().unwrap()));
                    if b.get(at..at + 4) != Some(b"PE\0\0") || subsystem != Some(if q.gui { 2 } else { 3 }) {
                        p.violate("windows-launcher", format!("subsystem {subsystem:?}\n{}", what()));
                    }
                }
                if p.wants_sample(&rng) {
                    p.sample(json!({"program": format!("{q:?}"), "arguments": args, "as windows launcher": exe, "ended": format!("{:?}", r.end), "installed in": where_}));
                }
                // without the environment, nothing may run
                if q.kind != Kind::Other && !exe && chance(&rng, 10) {
                    let mut vars = made.vars.clone();
                    vars.remove("POSY_PYTHON");
                    vars.remove("POSY_PYTHONW");
                    let r = Place { dir: tmp.path(), vars }.run(&[&q.name], "");
                    if r.end == Some(End::Code(0)) || !r.raw.is_empty() {
                        p.violate("without-environment", format!("{:?} {}\n{}", r.end, r.raw, what()));
                    }
                    p.count("programs run without the environment", 1);
                }
            }
        }
    }
}

/// Another version of the same project.
fn gen_dist_named(rng: &fastrand::Rng, i: usize, version: &str, used: &mut BTreeSet<String>, name: &str) -> Dist {
    loop {
        let d = gen_dist(rng, i, version, used);
        if d.name == name {
            return d;
        }
    }
}

pub fn run_(mut c: Ctx) -> ! {
    c.rule = "environments made from generated wheels (modules, namespace packages, .pth files, entry points, scripts), and their programs run with generated arguments; distinct by environment, program and arguments".into();
    c.assumptions = vec![
        "The interpreter in the pybi is a front for the system's Python (with that one's site.py, without its site-packages).".into(),
        "Windows launchers are judged by running the archive in them with Python, and by their subsystem.".into(),
    ];
    py();
    parallel(&mut c, 8, 40, 600, work);
    for k in ["environments", "interpreters run", "programs run", "windows launchers run", "programs run without the environment", "relative locations"] {
        if !c.violated() && c.counters.get(k).copied().unwrap_or(0) == 0 {
            c.problem(format!("never observed: {k}"));
        }
    }
    c.finish()
}
