#![allow(dead_code)]
// A small package index on the loopback interface, and posy pointed at it.
use crate::srv;
use posy::verif::*;

use std::collections::HashMap;
use std::io::{Cursor, Write};
use std::path::Path;
use std::sync::{Arc, Mutex};

pub fn sha(data: &[u8]) -> String {
    ring::digest::digest(&ring::digest::SHA256, data).as_ref().iter().map(|b| format!("{b:02x}")).collect()
}

pub fn zip(members: &[(&str, &str)]) -> Vec<u8> {
    let mut z = zip::ZipWriter::new(Cursor::new(vec![]));
    for (n, body) in members {
        z.start_file(*n, Default::default()).unwrap();
        z.write_all(body.as_bytes()).unwrap();
    }
    z.finish().unwrap().into_inner()
}

/// (file name, contents)
pub fn wheel(file: &str, meta: &str) -> (String, Vec<u8>) {
    let mut p = file.split('-');
    let (d, v) = (p.next().unwrap(), p.next().unwrap());
    let info = format!("{d}-{v}.dist-info");
    let data = zip(&[
        (&format!("{info}/METADATA"), &format!("Metadata-Version: 2.1\nName: {d}\nVersion: {v}\n{meta}")),
        (&format!("{info}/WHEEL"), "Wheel-Version: 1.0\nRoot-Is-Purelib: true\nTag: py3-none-any\n"),
        (&format!("{info}/RECORD"), ""),
        (&format!("{d}.py"), &format!("FILE = {file:?}\n")),
    ]);
    (file.to_string(), data)
}

pub fn pybi(version: &str, plat: &str) -> (String, Vec<u8>) {
    let vars = format!(
        r#"{{"implementation_name": "cpython", "implementation_version": "{version}", "os_name": "posix", "platform_machine": "x86_64", "platform_python_implementation": "CPython", "platform_system": "Linux", "python_full_version": "{version}", "python_version": "3.10", "sys_platform": "linux"}}"#
    );
    let paths = r#"{"stdlib": "lib/python3", "platstdlib": "lib/python3", "purelib": "lib/python3/site-packages", "platlib": "lib/python3/site-packages", "include": "include", "platinclude": "include", "scripts": "bin", "data": "."}"#;
    let data = zip(&[
        ("pybi-info/PYBI", &format!("Pybi-Version: 1.0\nGenerator: t\nTag: {plat}\n")),
        ("pybi-info/METADATA", &format!("Metadata-Version: 2.1\nName: cpython_unofficial\nVersion: {version}\nPybi-Environment-Marker-Variables: {vars}\nPybi-Paths: {paths}\nPybi-Wheel-Tag: py3-none-PLATFORM\nPybi-Wheel-Tag: py3-none-any\n")),
        ("pybi-info/RECORD", ""),
        ("lib/python3/site.py", "ENABLE_USER_SITE = None\n"),
        ("lib/python3/site-packages/README", "x"),
    ]);
    (format!("cpython_unofficial-{version}-{plat}.pybi"), data)
}

#[derive(Default)]
pub struct Site {
    /// project -> (file name, attributes such as ` data-yanked=""`, contents, hash on the page?)
    pub pages: HashMap<String, Vec<(String, String, Vec<u8>, bool)>>,
}

pub struct Index {
    pub site: Arc<Mutex<Site>>,
    pub server: srv::Server,
}

impl Index {
    pub fn new() -> Index {
        let site: Arc<Mutex<Site>> = Default::default();
        let st = site.clone();
        let server = srv::Server::start(Arc::new(move |r: &srv::Req| {
            let st = st.lock().unwrap();
            let path = r.path().to_string();
            let seg: Vec<&str> = path.trim_matches('/').split('/').collect();
            srv::Act::Reply(match seg.as_slice() {
                ["simple", name] => match st.pages.get(*name) {
                    Some(fs) => srv::Reply::html(
                        fs.iter()
                            .map(|(n, attr, d, hashed)| {
                                let h = sha(d);
                                let frag = if *hashed { format!("#sha256={h}") } else { String::new() };
                                format!("<a href=\"/files/{h}/{}{frag}\"{attr}>{n}</a>\n", n.replace('+', "%2B"))
                            })
                            .collect::<String>(),
                    ),
                    None => srv::Reply::new(404, "no"),
                },
                ["files", h, _] => match st.pages.values().flatten().find(|f| sha(&f.2) == *h) {
                    Some(f) => srv::Reply::new(200, &f.2),
                    None => srv::Reply::new(404, "no"),
                },
                _ => srv::Reply::new(404, "?"),
            })
        }));
        Index { site, server }
    }
    pub fn add(&self, project: &str, file: (String, Vec<u8>)) {
        self.add_with(project, file, "", true)
    }
    pub fn add_with(&self, project: &str, file: (String, Vec<u8>), attr: &str, hashed: bool) {
        self.site.lock().unwrap().pages.entry(project.into()).or_default().push((file.0, attr.into(), file.1, hashed));
    }
    pub fn url(&self) -> url::Url {
        self.server.url("/simple/").parse().unwrap()
    }
}

pub struct Home {
    pub dir: tempfile::TempDir,
    pub build_forest: EnvForest,
    pub build_store: KVDirStore,
    pub forest: EnvForest,
}

impl Home {
    pub fn new() -> Home {
        let dir = tempfile::tempdir().unwrap();
        Home {
            build_forest: EnvForest::new(&dir.path().join("bf")).unwrap(),
            build_store: KVDirStore::new(&dir.path().join("bs")).unwrap(),
            forest: EnvForest::new(&dir.path().join("f")).unwrap(),
            dir,
        }
    }
    pub fn db(&self, index: &Index) -> PackageDB<'_> {
        PackageDB::new(&[index.url()], &self.dir.path().join("cache"), &self.build_forest, &self.build_store).unwrap()
    }
}

pub fn brief(reqs: &[&str]) -> Brief {
    Brief {
        python: "cpython_unofficial >= 3".try_into().unwrap(),
        requirements: reqs.iter().map(|r| (*r).try_into().unwrap()).collect(),
        allow_pre: Default::default(),
    }
}

pub fn resolve(index: &Index, reqs: &[&str], plat: &str, like: Option<&Blueprint>) -> Result<Blueprint, String> {
    let home = Home::new();
    let db = home.db(index);
    let p = PybiPlatform::new(plat);
    brief(reqs).resolve(&db, &[&p], like, &[]).map_err(|e| format!("{e:#}"))
}

/// name -> version, as printed
pub fn pins(b: &Blueprint) -> Vec<String> {
    let mut v: Vec<String> = b.wheels.iter().map(|(p, _)| format!("{} {}", p.name.as_given(), p.version)).collect();
    v.sort();
    v
}

pub fn find(dir: &Path, name: &str) -> Vec<std::path::PathBuf> {
    let mut out = vec![];
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.file_name().unwrap() == name {
            out.push(p.clone());
        }
        if p.is_dir() && !p.is_symlink() {
            out.extend(find(&p, name));
        }
    }
    out
}
