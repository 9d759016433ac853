//! A package index in memory, served over HTTP, and everything needed to point posy at it.
use crate::arch::*;
use crate::common::*;
use crate::pep508::normalize;
use crate::srv;
use posy::verif::*;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct File {
    pub name: String,
    pub bytes: Arc<Vec<u8>>,
    pub sha: String,
    /// does the index page give the hash?
    pub hashed: bool,
    pub requires_python: Option<String>,
    pub yanked: Option<String>,
}

impl File {
    pub fn new(name: &str, bytes: Vec<u8>) -> File {
        File {
            name: name.into(),
            sha: sha256_hex(&bytes),
            bytes: Arc::new(bytes),
            hashed: true,
            requires_python: None,
            yanked: None,
        }
    }
}

/// (index number, normalised project name) -> files, in page order
pub type Pages = BTreeMap<(usize, String), Vec<File>>;

#[derive(Default)]
pub struct State {
    pub pages: Pages,
    pub ranges: bool,
    /// overrides: path -> answer
    pub special: BTreeMap<String, srv::Reply>,
}

pub struct Index {
    pub server: srv::Server,
    pub state: Arc<Mutex<State>>,
}

pub fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}

pub fn page(files: &[File]) -> String {
    let mut h = String::from("<!DOCTYPE html><html><body>\n");
    for f in files {
        let frag = if f.hashed { format!("#sha256={}", f.sha) } else { String::new() };
        h += &format!("<a href=\"/files/{}/{}{frag}\"", f.sha, f.name.replace('+', "%2B").replace('!', "%21"));
        if let Some(r) = &f.requires_python {
            h += &format!(" data-requires-python=\"{}\"", esc(r));
        }
        if let Some(y) = &f.yanked {
            h += &format!(" data-yanked=\"{}\"", esc(y));
        }
        h += &format!(">{}</a>\n", f.name);
    }
    h + "</body></html>"
}

pub fn ranged(req: &srv::Req, data: &[u8]) -> srv::Reply {
    let full = || srv::Reply::new(200, data).h("Accept-Ranges", "bytes");
    let spec = match req.header("Range").and_then(|r| r.strip_prefix("bytes=")).and_then(|r| r.split_once('-')) {
        Some(s) => s,
        None => return full(),
    };
    let len = data.len();
    let (a, b) = match spec {
        ("", n) => match n.parse::<usize>() {
            Ok(n) => (len.saturating_sub(n), len),
            _ => return full(),
        },
        (a, "") => (a.parse().unwrap_or(0), len),
        (a, b) => (a.parse().unwrap_or(0), b.parse::<usize>().map_or(len, |b| (b + 1).min(len))),
    };
    if a >= len {
        return srv::Reply::new(416, "").h("Content-Range", &format!("bytes */{len}"));
    }
    srv::Reply::new(206, &data[a..b]).h("Content-Range", &format!("bytes {a}-{}/{len}", b - 1))
}

impl Index {
    pub fn new() -> Index {
        let state: Arc<Mutex<State>> = Default::default();
        let st = state.clone();
        let server = srv::Server::start(Arc::new(move |r: &srv::Req| {
            let st = st.lock().unwrap();
            let path = r.path().replace("%21", "!").replace("%2B", "+");
            if let Some(rep) = st.special.get(&path) {
                return srv::Act::Reply(rep.clone());
            }
            let seg: Vec<&str> = path.trim_matches('/').split('/').collect();
            srv::Act::Reply(match seg.as_slice() {
                [idx, name] if idx.starts_with("simple") => {
                    let i: usize = idx[6..].parse().unwrap_or(0);
                    match st.pages.get(&(i, name.to_string())) {
                        Some(files) => srv::Reply::html(page(files)),
                        None => srv::Reply::new(404, "no such project"),
                    }
                }
                ["files", sha, _] => {
                    match st.pages.values().flatten().find(|f| f.sha == *sha) {
                        Some(f) if st.ranges => ranged(r, &f.bytes),
                        Some(f) => srv::Reply::new(200, &*f.bytes),
                        None => srv::Reply::new(404, "gone"),
                    }
                }
                _ => srv::Reply::new(404, "?"),
            })
        }));
        Index { server, state }
    }
    pub fn set(&self, pages: Pages, ranges: bool) {
        let mut st = self.state.lock().unwrap();
        st.pages = pages;
        st.ranges = ranges;
        st.special.clear();
        drop(st);
        self.server.take();
    }
    pub fn urls(&self, n: usize) -> Vec<url::Url> {
        (0..n).map(|i| self.server.url(&format!("/simple{i}/")).parse().unwrap()).collect()
    }
    pub fn file_url(&self, f: &File) -> String {
        self.server.url(&format!("/files/{}/{}", f.sha, f.name))
    }
}

/// The state posy keeps on disk: caches, built things, installed environments.
pub struct Home {
    pub dir: PathBuf,
    pub build_forest: EnvForest,
    pub build_store: KVDirStore,
    pub forest: EnvForest,
    _tmp: Option<tempfile::TempDir>,
}

impl Home {
    pub fn new() -> Home {
        let t = scratch();
        let mut h = Home::at(t.path().to_path_buf());
        h._tmp = Some(t);
        h
    }
    pub fn at(dir: PathBuf) -> Home {
        Home {
            build_forest: EnvForest::new(&dir.join("build-forest")).expect("forest"),
            build_store: KVDirStore::new(&dir.join("build-store")).expect("store"),
            forest: EnvForest::new(&dir.join("forest")).expect("forest"),
            dir,
            _tmp: None,
        }
    }
    pub fn db<'a>(&'a self, urls: &[url::Url]) -> PackageDB<'a> {
        PackageDB::new(urls, &self.dir.join("cache"), &self.build_forest, &self.build_store).expect("PackageDB")
    }
}

pub struct PybiSpec<'a> {
    pub name: &'a str,
    pub version: &'a str,
    pub plats: &'a str,
    pub markers: &'a BTreeMap<String, String>,
    pub wheel_tags: &'a [&'a str],
    /// what bin/python is
    pub python: Option<Vec<u8>>,
    pub extra: Vec<M>,
}

pub const SITE_PY: &str = "# fake\nENABLE_USER_SITE = None\nX = 1\n";

pub fn pybi(p: &PybiSpec) -> File {
    File::new(&format!("{}-{}-{}.pybi", p.name, p.version, p.plats), zip_bytes(&spec_members(p)))
}

pub fn spec_members(p: &PybiSpec) -> Vec<M> {
    let mut meta = format!("Metadata-Version: 2.1\nName: {}\nVersion: {}\n", p.name, p.version);
    meta += &format!("Pybi-Environment-Marker-Variables: {}\n", serde_json::to_string(p.markers).unwrap());
    meta += "Pybi-Paths: {\"stdlib\": \"lib/python3\", \"platstdlib\": \"lib/python3\", \"purelib\": \"lib/python3/site-packages\", \"platlib\": \"lib/python3/site-packages\", \"include\": \"include\", \"platinclude\": \"include\", \"scripts\": \"bin\", \"data\": \".\"}\n";
    for t in p.wheel_tags {
        meta += &format!("Pybi-Wheel-Tag: {t}\n");
    }
    meta += "\n";
    let mut m = vec![
        M::file("pybi-info/PYBI", format!("Pybi-Version: 1.0\nGenerator: t\n{}", p.plats.split('.').map(|t| format!("Tag: {t}\n")).collect::<String>())),
        M::file("pybi-info/METADATA", meta),
        M::file("pybi-info/RECORD", ""),
        M::file("lib/python3/site.py", SITE_PY),
        M::file("lib/python3/site-packages/README", "here"),
    ];
    if let Some(py) = &p.python {
        m.push(M::file("bin/python", py).exec());
    }
    m.extend(p.extra.iter().cloned());
    m
}

pub fn add(pages: &mut Pages, index: usize, project: &str, f: File) {
    pages.entry((index, normalize(project))).or_default().push(f);
}
